// Synthetic stand-in for the generated atom table; see tools/gen_synthetic_atomdb.py
#include "atomdb.h"
namespace helfem { namespace atomdb { namespace data {
const int max_Z=18,lmax=3,Nbf=47,nelem=6,nnodes=9,primbas=4,nquad=60,norbital=62;
const double bval[]={0,0.26320637958666404,0.9364785546627062,2.3672548215783373,5.483275585750255,12.630672376353951,30.0};
const int norb[][4]={{1,0,0,0},{1,0,0,0},{2,0,0,0},{2,0,0,0},{2,1,0,0},{2,1,0,0},{2,1,0,0},{2,1,0,0},{2,1,0,0},{2,1,0,0},{3,1,0,0},{3,1,0,0},{3,2,0,0},{3,2,0,0},{3,2,0,0},{3,2,0,0},{3,2,0,0},{3,2,0,0}};
const int offset[][4]={{0,1,1,1},{1,2,2,2},{2,4,4,4},{4,6,6,6},{6,8,9,9},{9,11,12,12},{12,14,15,15},{15,17,18,18},{18,20,21,21},{21,23,24,24},{24,27,28,28},{28,31,32,32},{32,35,37,37},{37,40,42,42},{42,45,47,47},{47,50,52,52},{52,55,57,57},{57,60,62,62}};
const double occupations[]={1.0,2.0,2.0,1.0,2.0,2.0,2.0,2.0,1.0,2.0,2.0,2.0,2.0,2.0,3.0,2.0,2.0,4.0,2.0,2.0,5.0,2.0,2.0,6.0,2.0,2.0,1.0,6.0,2.0,2.0,2.0,6.0,2.0,2.0,2.0,6.0,1.0,2.0,2.0,2.0,6.0,2.0,2.0,2.0,2.0,6.0,3.0,2.0,2.0,2.0,6.0,4.0,2.0,2.0,2.0,6.0,5.0,2.0,2.0,2.0,6.0,6.0};
const double coefficients[]={
0.0260385543562169,0.08143256737393008,0.1541540801181815,0.23075008644072578,0.29986193763333796,0.354012749921111,0.389416993801698,0.40459203513232883,0.4413174253224692,0.512773152928572,0.592484756349415,0.6585047795932023,0.701487771006159,0.7235143528000492,0.732044321639668,0.7342101152012812,0.7357343378378896,0.7265296307502956,0.6920213236298723,0.6332984183691112,0.5652259639116168,0.5045507335445754,0.46235312714993426,0.4438020451259126,0.4046772325573818,0.32540901639126274,0.23349892151561996,0.15494514835650725,0.1006826210647107,0.0684476928883376,0.051759681089490764,0.045573642355380466,0.03393278157869166,0.01740287051599861,0.006622633610679373,0.0021116371458769333,0.0006594768007917788,0.00023792897121167815,0.00011484414663616374,8.26085787126156e-05,3.69734031970413e-05,6.116821616553229e-06,4.705722386224893e-07,2.358247029387058e-08,1.155954277854644e-09,8.399725909317504e-11,1.301998486654752e-11,
0.054716555432502686,0.16789252799314916,0.3094001124522211,0.4489700161678734,0.5655966538702661,0.6500347800276636,0.7015585968935297,0.7226738571532505,0.7711700348430508,0.853440945837336,0.9206182549937475,0.9450493114693109,0.9298411892841768,0.8953442142108241,0.862838237617495,0.8466159088435594,0.8097359520541576,0.7209876591160809,0.593428541618511,0.45869767391333366,0.3457876024300754,0.26672677309698933,0.220387861894212,0.20191077995283235,0.16633791236105006,0.106763335557802,0.05573729621293159,0.025605616503424373,0.011518820315475835,0.005697453270318259,0.003438932296803312,0.0027356343091604713,0.001613753460013127,0.0004935178241794072,9.054665419421274e-05,1.2420504159127753e-05,1.6687747008816757e-06,2.9027206072321947e-07,8.354702757087038e-08,4.7612469906003577e-08,1.2101273759745892e-08,5.69913986983573e-10,7.446236112417093e-12,4.80483895763173e-14,0,0,0,
0.10990877274238925,0.32750956908601236,0.5791120930432951,0.8011349780287113,0.9621468794732996,1.0610129384462974,1.112057011755486,1.1305145616770114,1.1663493774944698,1.197601098057592,1.1622556990690485,1.055818071493551,0.9192971641534243,0.7963804011726597,0.7120657704273111,0.6754945524417746,0.601360291960209,0.45663431718386416,0.3002143050763615,0.17896695334516516,0.10404928032069774,0.06410892721004138,0.04517404290421183,0.03852269788524452,0.027146956989104402,0.01231833922889294,0.003942447080087602,0.0010286250901732743,0.00026280388557614284,7.96882884625541e-05,3.400458436047254e-05,2.3139001103530726e-05,9.539912731108194e-06,1.3169534065393698e-06,7.86490348307124e-08,2.9470553763100445e-09,1.0816203776485116e-10,6.124008889226657e-12,7.95649751627708e-13,3.169073340515018e-13,3.37256041715684e-14,0,0,0,0,0,0,
-0.019085867456112973,-0.05637697976464558,-0.09827082208952749,-0.13327282691980671,-0.15624742120862065,-0.16806050557804286,-0.17259482615027458,-0.17371462405073945,-0.17424339025252786,-0.16535816188245342,-0.13578931956090073,-0.08673320904422742,-0.030021853933468193,0.0209523953643484,0.056842359302171956,0.07277167414105787,0.10592829247939618,0.175189148598293,0.2607277337637943,0.3411091702519616,0.40300215475723544,0.44331007763062275,0.46528795590360106,0.473555053433506,0.48831787401058124,0.5069982591064862,0.506818372811136,0.4794651076627832,0.4346293864037023,0.38890767430485274,0.3551650081292616,0.33997218813541535,0.30569599240408,0.23530874251635703,0.1550640088809267,0.09088877741740953,0.05110846203069973,0.030272012941759057,0.02063991487135352,0.017320985327939777,0.011238622855413254,0.0041809588855032526,0.0009832219424204935,0.00017438053509760717,2.9588379724257977e-05,6.207901131419086e-06,2.0273351155283856e-06,
0.17533699479792383,0.5073926945228129,0.8608597287574669,1.1353287621605,1.2998807459576203,1.3754105675951382,1.3999668297939678,1.404551177448626,1.400989140621224,1.3346841002676755,1.1653365758017025,0.9368095371621843,0.7218228927499964,0.5625727432817257,0.4667006726290127,0.4280405052384279,0.3546938554642926,0.229687231639132,0.12062072248008421,0.05545577042643735,0.02486545061948128,0.012237649189332102,0.007353902025066047,0.005837158339670607,0.003518670940208474,0.0011287812240598659,0.000221469251845821,3.28175821593496e-05,4.761931583889554e-06,8.851886111628411e-07,2.6704159106541206e-07,1.5543855950741152e-07,4.478980879628124e-08,2.7910368378889113e-09,5.425527619428826e-11,5.553476769242281e-13,0,0,0,0,0,0,0,0,0,0,0,
-0.03526949729416816,-0.10069832810671023,-0.16693810393479502,-0.21275874353389534,-0.2330068328082455,-0.23471494851554867,-0.22895514964914238,-0.22478220624575257,-0.21033188211118076,-0.16350281263732955,-0.07733493832203538,0.03224241351898831,0.13918952976540544,0.22430766383638454,0.27934242219480937,0.30260636334843877,0.3488641429680884,0.43639556072570773,0.5271228733656352,0.5915853594311719,0.6216401179456646,0.6261922529761647,0.6200083729899277,0.6151189357591152,0.6006748847119817,0.5546020147498028,0.47168528283537703,0.3709475862696161,0.27971286198057554,0.21347399264407185,0.17417091638492313,0.15846849865612314,0.12683037465007888,0.07538792621354765,0.034494846898158626,0.013261497460100545,0.004891186710446628,0.002011604468835253,0.0010591105825108053,0.0007911206322859895,0.0003868176334701463,7.677856371867667e-05,7.440963069516617e-06,4.73549205913952e-07,2.8832201867063858e-08,2.4929577499773114e-09,4.343767685004098e-10,
0.24881949589319208,0.6992525733203478,1.1383394760202825,1.4312227599764482,1.5621951793775761,1.5860383372694107,1.567754607912116,1.5522748557053752,1.4969611282447726,1.3231663123062207,1.039371293729794,0.7394063274418571,0.5041677130760962,0.3535138692425038,0.2720986526456264,0.24127789323648782,0.186098224222065,0.10277199972814788,0.043110406263589085,0.015285874459057587,0.005285952235861163,0.002078007622041813,0.0010649184861609956,0.0007867846905591671,0.00040570074086894946,9.201042589737964e-05,1.1067018901658714e-05,9.313774010681056e-07,7.675455674272442e-08,8.74675139973878e-09,1.865477391788884e-09,9.288435422365536e-10,1.8706117678370333e-10,5.261751993686096e-12,3.329355779831955e-14,0,0,0,0,0,0,0,0,0,0,0,0,
-0.054016313667684675,-0.14900622406762212,-0.23455679617212719,-0.27970277428446855,-0.28353572602122956,-0.2635158182541078,-0.23993979295074372,-0.22735217900283164,-0.1908030644411622,-0.09509026444385207,0.05196236172781605,0.2140601583119383,0.3542398841335055,0.45476379953311585,0.5145151862750253,0.5384576056021809,0.5835422753729391,0.6580113398377003,0.713100601827825,0.7224352521904275,0.6922741729083516,0.6462004608262397,0.6068051344041445,0.5879233041118976,0.5453748954965885,0.44958093183338965,0.32605564496512746,0.21333858353375615,0.13384788031262634,0.08713189934356477,0.0635130049231138,0.05492702205213004,0.03912938689317516,0.0179603026895866,0.005706186156914326,0.001438876126757034,0.0003480841182377965,9.9401381704563e-05,4.0413201047124655e-05,2.6869610210715975e-05,9.90029117994307e-06,1.048461791927121e-06,4.187504379429078e-08,9.562704980468667e-10,2.0892142266821418e-11,7.444466553086636e-13,6.920798031639186e-14,
0.0003806378708727648,0.0037999615397598,0.014017104640662137,0.032475786682384974,0.056708255725720434,0.08135921157157347,0.10048550337273626,0.1094759620935434,0.1333659535870263,0.1897453950740272,0.2727826065671411,0.3670636783823492,0.4537587312450946,0.5197813748547845,0.5607625838236212,0.5775687842447182,0.6098259590442081,0.6647769394546319,0.7058504101200781,0.7090260243060573,0.6774250106686837,0.6317294726137932,0.5930270192310158,0.5745215860336096,0.5328738286566594,0.4392238660141946,0.3185323602494285,0.20841474186071937,0.13075857086190015,0.0851208209614162,0.06204706975935825,0.053659258663356565,0.03822624654724275,0.017545763236104083,0.005574482402354886,0.0014056656104789328,0.0003400500331210053,9.710711109726243e-05,3.948042911056424e-05,2.6249436166060425e-05,9.671783822516491e-06,1.0242623790935502e-06,4.090853125181718e-08,9.341989407035458e-10,2.0409933397041596e-11,7.272641770504215e-13,6.761059975379104e-14,
0.3288882535221446,0.8975880173701873,1.4020526136127407,1.6805287132926507,1.7487196302135417,1.7035234420653977,1.6352777797263411,1.5979117370371418,1.4898391647765408,1.2218094875528298,0.8634618772187409,0.5435858354810064,0.32799899864769916,0.2069127899748307,0.14776360065202454,0.1266786147640595,0.09094606281775176,0.04283175506680483,0.014351437872094894,0.003924523584191899,0.0010466542577829165,0.00032866191590566734,0.00014363755443507623,9.877872969356884e-05,4.3569849202972586e-05,6.9858203769998185e-06,5.151111781506101e-07,2.462055963408968e-08,1.1523337823221826e-09,8.050277631761273e-11,1.213819702998739e-11,5.169868287119786e-12,7.276813180344376e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.07478009622424522,-0.19922327951997754,-0.29723588350392244,-0.32980694629237517,-0.3053394578280973,-0.25512516727453893,-0.20914783994962988,-0.18649237539541272,-0.1247818978813112,0.021039096451409493,0.2205094484971774,0.41664756013502585,0.5679085775280521,0.6643862590069961,0.7156073761132402,0.7344879904525742,0.7667584881890519,0.8054692368575932,0.8014174439711343,0.741988013258526,0.652074678852989,0.5654008628569729,0.5040288355957859,0.4770601983922451,0.4205887655354732,0.3097293208267086,0.19159587849694315,0.10430602618656137,0.05445017376730316,0.030234246088934717,0.019689725192892894,0.01618524138631378,0.01026296577205535,0.003637605543452191,0.0008024680489163458,0.00013272243695060072,2.1059316680297568e-05,4.1757294302365e-06,1.3109776718618167e-06,7.758363459399655e-07,2.1541690007576928e-07,1.2171814727326936e-08,2.003417666357527e-10,1.6416724198894736e-12,1.2869990869156769e-14,0,0,
0.0006621021679641699,0.006547234494097065,0.023828851523105647,0.0543575015797656,0.09345469136159414,0.1322901932073798,0.16184154364390993,0.17556718765697274,0.21154686017205857,0.2937361627852159,0.4080185890349748,0.5276564555273079,0.6268756590206732,0.6938318435260229,0.7305284026036827,0.7442156832916211,0.7676781503396207,0.7946488694044704,0.7843307144044306,0.7240746071547737,0.6357947809914646,0.5511554389388532,0.49129629750036874,0.4650006162865862,0.40994699072203966,0.3018869086610652,0.1867437789906737,0.10166445486180165,0.05307120942722794,0.029468556080399794,0.019191077861682875,0.015775346003601257,0.010003053535238738,0.003545482251311681,0.0007821453400297775,0.00012936120723870705,2.0525984091141293e-05,4.069978012825713e-06,1.2777768265222209e-06,7.561880917528378e-07,2.099614119035004e-07,1.1863560401614217e-08,1.9526806007926446e-10,1.6000966453504431e-12,1.2544055053818244e-14,0,0,
0.4144564212754184,1.098465881926574,1.646354591111357,1.8812702757071493,1.8662577765715291,1.7444121423437513,1.6261909450018184,1.5682074189539303,1.413626909579295,1.075620583306762,0.6838835711556883,0.3809953311194382,0.20344009922497933,0.11546085514994527,0.07650240576498525,0.06340969037931046,0.04237328454302163,0.01701858652000388,0.004554862468448842,0.0009606167419742636,0.00019758310577858436,4.955850334209006e-05,1.8470820661822265e-05,1.1823267787503847e-05,4.4610066037895885e-06,5.056666847495139e-07,2.2857980102682994e-08,6.204927308114363e-10,1.6493733510110806e-11,7.063850294438291e-13,7.529825794766973e-14,2.7433609008744596e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.09717988976200646,-0.24992748722755592,-0.35268318374604046,-0.36153072698955707,-0.29948011860432555,-0.21390284935018286,-0.14360063692807423,-0.11046315507914033,-0.023706551055589203,0.167001287147508,0.404243426667949,0.61358377440443,0.7554624240644158,0.8321135640740689,0.8650367219628744,0.874874193464042,0.8867695500437639,0.8774704584681702,0.8077104023116878,0.6859783272806079,0.5537146790890695,0.44622685502145726,0.3777091869816021,0.3492587556625959,0.2926708888675748,0.19255395402520561,0.10159884821780589,0.046021409701204996,0.019989313786516482,0.009467427558336064,0.0055084262584986,0.004303910186202498,0.0024291459596013196,0.0006648573096559987,0.00010184048449677363,1.1047809603857285e-05,1.1497812859803362e-06,1.5830082315367428e-07,3.837763712571097e-08,2.0215745888262294e-08,4.22982567943329e-09,1.275172538206773e-10,8.649651653158261e-13,0,0,0,0,
0.0010399587350070445,0.010186258030225069,0.036578508214309906,0.0821556388091691,0.13907017739273098,0.1942346256138904,0.23537194406089407,0.254241251058596,0.30300254460978016,0.4106025783927728,0.5510884476358963,0.6849189494828809,0.7820164733933044,0.8363071794838165,0.8593563017158704,0.8659085054518497,0.8726307947905542,0.857734100801491,0.7869802906891941,0.6677017912776095,0.5388287661167326,0.43420531854166017,0.36752812940081664,0.3398433599916263,0.2847797452412712,0.18736165454057868,0.09885913567871256,0.044780395028874743,0.019450281311288016,0.009212128602199809,0.005359885858710374,0.004187850805582726,0.00236364153145932,0.0006469287460417347,9.909425071353889e-05,1.0749894014445302e-05,1.1187762468105714e-06,1.5403207806073176e-07,3.734274452758423e-08,1.9670607433884714e-08,4.115764064001544e-09,1.2407861944930645e-10,8.4164048682427e-13,0,0,0,0,
0.5046720705259992,1.2989606250043293,1.8680234979335595,2.034962161065707,1.9245223704633485,1.7260365018321842,1.5626129870913263,1.4871477196918053,1.2960749258714643,0.9149863256688853,0.5233847472190052,0.2580305118335522,0.12192716845445972,0.0622561257717405,0.03827212777854603,0.030669581335178192,0.01907656797094368,0.006534028004286072,0.0013968668445871674,0.00022720257418548223,3.6040952414856014e-05,7.220825835241209e-06,2.295114036892115e-06,1.3674501509432625e-06,4.4134637465721704e-07,3.536805331868299e-08,9.801095352464754e-10,1.511037921709896e-11,2.2811799236515576e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.1209270664061515,-0.3000837739122718,-0.39955443812252484,-0.37483896411518985,-0.26864138554264855,-0.145434620101451,-0.05098202698645916,-0.007863576388048467,0.1016442888691148,0.32838036075893845,0.5868138195430439,0.790021488789419,0.906014780691282,0.9516551956514809,0.9602229840403449,0.958805041135726,0.9466879749293441,0.8863344172851296,0.7569687303313299,0.5904527268596436,0.43794526968706643,0.3280634041479352,0.263682123018224,0.2382030792528256,0.18972919912626451,0.1115221258003356,0.050191641603569676,0.01891692889991847,0.006836545620950724,0.0027618815880050083,0.00143567336145216,0.0010662215014070938,0.0005356419207506209,0.00011320914489702017,1.204074561891696e-05,8.567383985212279e-07,5.8482565161092185e-08,5.590803304549873e-09,1.0466497801566766e-09,4.907379402238101e-10,7.737584134395175e-11,1.2445799112007183e-12,0,0,0,0,0,
0.0015223729665680055,0.014770163736132885,0.0523314450431503,0.11572551597558148,0.19287714497800762,0.2657905366855448,0.31903125766617046,0.34313304212728307,0.4044825840534175,0.5349334878594967,0.6937077136702376,0.8285924411924922,0.9092101087089596,0.939488095484943,0.9421570136267293,0.9389858599855619,0.9244762303304339,0.862867164203999,0.735939898744833,0.5738463512132014,0.42559689093925107,0.31880860813207107,0.2562427203536519,0.23148236377501633,0.18437598384625387,0.10837547268947424,0.04877545555986406,0.01838317678430239,0.006643648521673036,0.0026839534973343957,0.0013951650049858566,0.001036137443423773,0.0005205284733282111,0.00011001488322172147,1.1701008998633209e-05,8.325650277688694e-07,5.6832445669975415e-08,5.433055547104113e-09,1.0171179496384314e-09,4.768914846525942e-10,7.519263710878325e-11,1.2094633672518048e-12,0,0,0,0,0,
0.5988416419476122,1.4968480796539587,2.0654449029941055,2.1450321525885956,1.9339561399720275,1.6642676608855134,1.4631998369825985,1.374285734961503,1.1579711446488028,0.7584770187518253,0.3903303102872281,0.17029221627893854,0.07120930400344318,0.03271159612643598,0.018657886503918548,0.014455475638527188,0.00836913710874056,0.002444616956013505,0.0004174525073508342,5.236591149621061e-05,6.406414494281726e-06,1.0252455227686694e-06,2.779039183424899e-07,1.5411957564119716e-07,4.254990399513878e-08,2.410628547151144e-09,4.095280957902838e-11,3.585802395949291e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.14579168492800634,-0.3489139864888678,-0.4371195148930132,-0.3705520539631068,-0.21617103013954259,-0.0554119840154045,0.06150002894521326,0.11348399891407324,0.24211411951879966,0.49438756178543297,0.7578575828639819,0.9385960403128054,1.016581316898864,1.0244382440885333,1.005934410526372,0.9925863331110484,0.9561033922198264,0.8486105184345808,0.6731882573102217,0.48247997390417907,0.3288715166489149,0.22900591006916726,0.17478113250077296,0.1542549652102254,0.11678358325571306,0.06132866676406835,0.023543340877896713,0.007383043686853698,0.0022200851962074332,0.0007650189850633139,0.00035528579061824535,0.00025079898039790543,0.00011214750096379899,1.8303269155121646e-05,1.3517002676597372e-06,6.308329611730887e-08,2.82443565331883e-09,1.8748190045572455e-10,2.7103079249651583e-11,1.1311067537715421e-11,1.3439477766923954e-12,1.1533754848320916e-14,0,0,0,0,0,
0.002116600591850518,0.020340837946604524,0.07110700034960438,0.15482239030183648,0.2540624153815817,0.34543414894660923,0.4106999698361724,0.4398372000443331,0.5128215551605734,0.661897581349335,0.8293629565854832,0.9520409869952657,1.0039810209286857,1.0023736260951197,0.9810388324690894,0.9670724085927767,0.9301946922488851,0.8244192084030084,0.6536326458104917,0.46840508513712675,0.319270662795364,0.22231964137874713,0.16967793960755453,0.14975106566184443,0.11337374636492278,0.059537992912379004,0.022855922413942593,0.007167473575230638,0.0021552631480049726,0.0007426819605156586,0.0003449121560007775,0.00024347615169554153,0.00010887301819814676,1.776885029702434e-05,1.3122333228527543e-06,6.124139001898803e-08,2.7419677802944315e-09,1.8200780387186786e-10,2.6311723533863156e-11,1.0980806984470163e-11,1.3047071891189243e-12,1.119699227091604e-14,0,0,0,0,0,
0.6963851722868467,1.6904186033954935,2.2381010709004743,2.2158791735818077,1.9046056949679468,1.5726467216020075,1.342736083359225,1.2446142491869614,1.013911776107084,0.6161763859696451,0.2852845765081537,0.11014209494259615,0.04075752419392031,0.016844424648750238,0.008914091488496154,0.006677159121344865,0.003598288016726521,0.0008963455137124586,0.00012226268800599342,1.1828206239191018e-05,1.1160113466846799e-06,1.4266048428013758e-07,3.2977662761873926e-08,1.7023110049416337e-08,4.020243946908969e-09,1.6102163609871648e-10,1.6769788712780915e-12,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.17158427586208494,-0.3958231045304412,-0.4650649584935758,-0.34996918754920925,-0.14557336476977872,0.05087985202955091,0.18754807460606746,0.2469108290900467,0.3903366953676879,0.6573195660503313,0.9112518595844464,1.0565661896423684,1.0885703453778925,1.0557484952421907,1.010218323141839,0.9854793883627921,0.9267337231450132,0.7804635721014906,0.5753436684300772,0.3789391906680193,0.237380156313067,0.15365647584214084,0.1113587987493158,0.09601680655316855,0.06909489811610706,0.03241773867215795,0.010615037042297845,0.0027697270943015636,0.000692977765255991,0.00020368362031123098,8.451168668926909e-05,5.670493167306796e-05,2.2569470837069908e-05,2.844412358496163e-06,1.4585595086848777e-07,4.464751140598246e-09,1.3111539608532398e-10,6.043119965763449e-12,6.74609756678079e-13,2.5059608967883334e-13,2.243758631324345e-14,0,0,0,0,0,0,
0.002829164511327632,0.026931082392097096,0.0928888161792095,0.19913144687955453,0.32173737564608484,0.43161095799874954,0.5082969978352624,0.5420293627151653,0.6250779146268399,0.7873779354914991,0.953266173604411,1.0516513007208164,1.0658306109829694,1.028180634231009,0.9820883290355814,0.957547598980072,0.89981536235456,0.7572751402560582,0.5581186819382482,0.3675775820408757,0.23026133571628793,0.14904831333939117,0.10801912778698154,0.09313724199952697,0.06702272535109222,0.03144552240170691,0.010296689355231299,0.002686662267312079,0.0006721951840778754,0.00019757509621997547,8.197715949780807e-05,5.500433620697867e-05,2.1892606609477777e-05,2.759107701249845e-06,1.4148169343742025e-07,4.330852107076888e-09,1.271832116784586e-10,5.861885245755982e-12,6.543780367952169e-13,2.430806485813188e-13,2.17646773363967e-14,0,0,0,0,0,0,
0.7968079766551578,1.87835397135408,2.386230599168532,2.2522934810476047,1.8455685099493544,1.4621967300801963,1.2123954852164311,1.1090704490895384,0.8735127165764764,0.492531838325629,0.20515917479920157,0.07009362204061421,0.022953318543385635,0.008534483874663323,0.004190427797739724,0.0030347135265173775,0.0015222213083481652,0.0003233752022455968,3.523282286250106e-05,2.6287890927603344e-06,1.912884821450039e-07,1.9531974170638576e-08,3.850451962125184e-09,1.850063537141184e-09,3.7374282475978123e-10,1.0582902857915139e-11,6.756754109635862e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.2159010902441035,-0.4785690723999384,-0.5224082558530319,-0.33550319000039763,-0.05733029379953667,0.19082348124177306,0.355386600467668,0.424926052132869,0.587990536883731,0.8702290404218104,1.0989440314661842,1.1799583466941055,1.1370919923059553,1.0438895260484118,0.9614421632020755,0.922005012134241,0.8362395843940581,0.650151334311388,0.4283001838253358,0.24772566069547317,0.13628114734827282,0.07884117432557074,0.05276566314388951,0.04389368689954119,0.029213738347554398,0.01152454865683115,0.0029546612533292546,0.0005809972987555772,0.00010954873949331801,2.5210947309736013e-05,8.795284405362406e-06,5.458085184256655e-06,1.8161477622643976e-06,1.5378094880735582e-07,4.49894665223519e-09,7.197770387090996e-11,1.1047613282826523e-12,2.9050438981177895e-14,0,0,0,0,0,0,0,0,0,
0.023738598667216768,0.0524246405023815,0.05670283185240262,0.035446289921633845,0.004356847935442992,-0.02303352376972555,-0.04095779420921552,-0.04845251516722003,-0.0657663541728157,-0.0941610986135822,-0.11240116157473092,-0.10866447282852762,-0.08667060921643881,-0.058190369084420046,-0.03461212179955876,-0.023358661094106236,0.0014689713191198134,0.05889345829336414,0.13959261641510973,0.22622900650354805,0.30258313874649057,0.3594149328676965,0.3943517804342175,0.40862956727508076,0.436598590565169,0.4836370803536128,0.5169417965416149,0.5148723390652342,0.4813054159596064,0.43659697003140796,0.4002032492605435,0.38318328261912327,0.3437263008697047,0.25981837058064094,0.16294222950740075,0.08787631518552631,0.04453331406820531,0.023799217571708234,0.01499684368565273,0.012129343930792659,0.007171496884429833,0.0021398311694294635,0.0003591349200353689,4.1932409485687604e-05,4.581493784169262e-06,6.479733460161945e-07,1.590207380633985e-07,
0.004169944957489832,0.03911699074936358,0.13215993841926657,0.2766300423530253,0.4363993582896898,0.57345563063983,0.6655250577243913,0.7050258454833656,0.7994452542383864,0.9699914624662814,1.11388549780982,1.1559908327644892,1.1021154114592289,1.0084398563569776,0.9278146578229325,0.8894947738299337,0.8064257422162291,0.6267428296404555,0.41283199860247655,0.2387742482076434,0.13135637865213434,0.07599207991006994,0.05085886062397262,0.04230749226424069,0.028158035617959112,0.011108083691111817,0.0028478880561877604,0.000560001680709934,0.0001055899543204613,2.4299894157823276e-05,8.477447416492897e-06,5.260845245216169e-06,1.750517259656855e-06,1.4822373525271213e-07,4.336367298216896e-09,6.937663088569492e-11,1.0648383425305651e-12,2.8000637334572182e-14,0,0,0,0,0,0,0,0,0,
0.8996816611925417,2.0596415695319297,2.5105921305866055,2.259097220707268,1.7647626415620397,1.3415642605549807,1.0802617487913921,0.9752468047720159,0.7426246038851977,0.3885032047677006,0.14559103439913887,0.0440184463146739,0.012755991169310634,0.0042670661954746555,0.001943885473377248,0.0013610519819653676,0.0006354636439047249,0.00011512483343431438,1.0019175369365322e-05,5.765322916798599e-07,3.235490055493409e-08,2.6388799046994793e-09,4.436439709657909e-10,1.9841085017660317e-10,3.4286595037336675e-11,6.863670423818683e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.2622194541956236,-0.5580311182930527,-0.5627621910798427,-0.2937041518137277,0.05902384089946147,0.35331538727061346,0.5394850438376299,0.6159413080302549,0.7895473014406065,1.0657248715452439,1.243581382222841,1.243331627475718,1.1230745003467093,0.9767339498405311,0.8661487357168796,0.8166232869033354,0.714449135982725,0.5128697798535494,0.3019443999198616,0.15336865245284645,0.07409559506132331,0.03831075585067706,0.023677929168081757,0.019003006863685386,0.011697518922975153,0.0038799899869947285,0.0007788599104598184,0.00011541884326135888,1.6400645440313144e-05,2.9552055541040213e-06,8.668590265319156e-07,4.975368563803818e-07,1.3840330264247257e-07,7.873684087071874e-09,1.314204664764879e-10,1.0989152244125024e-12,0,0,0,0,0,0,0,0,0,0,0,
0.035724948869425975,0.07563766026486805,0.07524823549006064,0.037362295940178446,-0.011368899647673299,-0.051280819748907386,-0.07598169827747048,-0.0859413247499152,-0.1079538278425343,-0.1394105313849938,-0.14895461843424465,-0.12385916161505849,-0.07513082993524878,-0.022638855188546185,0.017434844753135222,0.03585258602488777,0.07522033739372186,0.16105011360122296,0.2719927109662475,0.37969077847637883,0.46361389134568226,0.517414100643903,0.5455296898809503,0.5556189937132063,0.5723602822041869,0.5863781874915107,0.5629508945866227,0.4958315979154138,0.4100032774985368,0.33450053092062654,0.2844233728070625,0.26326613388055853,0.21852039277527757,0.13902842551699635,0.0683681697472986,0.02783459374701519,0.010648558367940155,0.0044622618797694035,0.002366720555907106,0.0017712324891913992,0.0008672216386691851,0.00017022123927110556,1.582101008843708e-05,9.32794700794386e-07,5.146394016756774e-08,4.0308385842587816e-09,6.507377137700836e-10,
0.005823893070093161,0.053837888104368424,0.17817516783944157,0.3641411727348547,0.5608899274671458,0.7219683011626268,0.825699892965023,0.8689568513513327,0.9688448884382543,1.132305279966475,1.2333259411522544,1.2040595487122312,1.0798835138922944,0.9372199691890746,0.8305826559725816,0.7829560409279352,0.6848355728369971,0.4915141186582141,0.28935506818865403,0.14697277881792134,0.07100554474666165,0.03671305680490814,0.02269047233000328,0.018210511455616266,0.011209689256027002,0.003718180096256013,0.0007463785799441551,0.00011060545186020888,1.571667804378542e-05,2.8319625844050062e-06,8.307078083563049e-07,4.7678773467212166e-07,1.3263137452392876e-07,7.545322424372975e-09,1.259397483770991e-10,1.0530864070173896e-12,0,0,0,0,0,0,0,0,0,0,0,
1.004630800489804,2.233511976156076,2.6122957372273006,2.240924828914506,1.668879029502024,1.217305481450001,0.9519104884215923,0.8481103519713181,0.624384137761073,0.3030660771956486,0.10217878765566415,0.027338415664396806,0.007010764224530781,0.0021099099683169306,0.0008917957788333792,0.0006036902335989639,0.00026235300704223133,4.053346604604546e-05,2.8177271850655137e-06,1.250471955234694e-07,5.412198833665177e-09,3.5259450226428234e-10,5.0552179458248864e-11,2.104391883740178e-11,3.1107010661500672e-12,4.402409726648634e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.31016476058640463,-0.6331578523778519,-0.585919341773702,-0.22744619243598302,0.19706845611449686,0.5295256619350414,0.7299127972908481,0.8097103244383096,0.9844599469419565,1.2349505313708657,1.3427082658665892,1.2542010922481381,1.06325000795675,0.8764295761791012,0.7484377416977432,0.6937879764088499,0.5855469561150787,0.38813552479665797,0.20422179149484226,0.09109641391661286,0.03864990994473235,0.017860265219222553,0.01019378784468519,0.007893000823048373,0.004493657195080038,0.001253247495938814,0.00019697475346201664,2.1997781476569328e-05,2.3556678607881502e-06,3.323424259658712e-07,8.19684317397714e-08,4.351207235743306e-08,1.0119086049543515e-08,3.8677019305215e-10,3.683110317696936e-12,1.6096444401185003e-14,0,0,0,0,0,0,0,0,0,0,0,
0.04898054610036556,0.09931396089735889,0.09014888402048443,0.03171502998796838,-0.03595806689315708,-0.08753277084057234,-0.11754421774960387,-0.12912846178233342,-0.15330318219866557,-0.18101437909728094,-0.17183667503766198,-0.11582945458338302,-0.03427724560685486,0.04460617325173376,0.10140063288503436,0.12673156676748026,0.17945714814861563,0.2884289543683099,0.4176871328781916,0.5286012372158193,0.6003123143819126,0.6342046756637882,0.6444820391131083,0.6458130503803471,0.642421557101906,0.6098021354154147,0.5262964100899954,0.4100249019296584,0.29993001625479443,0.22008176546142907,0.17358902624891498,0.15533023906062157,0.11930099421868272,0.06388669285427323,0.02463470286257936,0.0075713097246733144,0.002186601754562521,0.0007184896325417478,0.00032075037824010744,0.00022211961142577154,9.005824380827536e-05,1.162842946905753e-05,5.98527150873998e-07,1.7819495264560366e-08,4.964460294751445e-10,2.1533109491806502e-11,2.286816230190172e-12,
0.007807873784317555,0.07112903477872695,0.23058489117565184,0.4601257639766315,0.6920022400838202,0.8725147147021883,0.9833686675376103,1.0280818858611975,1.1270835144800422,1.2688067336374824,1.310845491316284,1.2038652096427798,1.0156944242770836,0.8361214917848777,0.7137412686071132,0.6615576251165918,0.5582703479107287,0.37001466957382967,0.19468171207802457,0.08684056617975507,0.03684424673860899,0.01702586097642539,0.009717549640134257,0.007524251869912261,0.004283720385907424,0.001194697684483029,0.0001877723934200115,2.0970078678546643e-05,2.24561465136234e-06,3.168158947367757e-07,7.813899163290331e-08,4.1479254704565214e-08,9.646337783650204e-09,3.6870087956183987e-10,3.5110410213928945e-12,1.5344443070190135e-14,0,0,0,0,0,0,0,0,0,0,0,
-0.0012788097758914,-0.011598936355845454,-0.03731394663106317,-0.0736060585110073,-0.10903979404721266,-0.13520511697251444,-0.15021142307526253,-0.1559065713830612,-0.16734932477662484,-0.17678974575109185,-0.1569240324697323,-0.09885071338592762,-0.019220582521142903,0.057101175482173236,0.11204010048804906,0.1365669674669126,0.18768663819177067,0.2936967107508408,0.42015633101452554,0.5293122829857432,0.6001850610744152,0.6337388858744175,0.6438939424312835,0.6451902481199203,0.6417535900778293,0.6091246352972423,0.5256989256362475,0.4095575198994168,0.2995879318206044,0.2198307316119542,0.17339102123319863,0.15515306057305173,0.11916491239679053,0.06381381981348574,0.02460660302268582,0.007562673428443925,0.0021841075836495183,0.0007176700795806107,0.00032038451085613056,0.00022186624829146067,8.99555178995844e-05,1.1615165375362779e-05,5.97844434413519e-07,1.7799169264784452e-08,4.958797529485621e-10,2.150854751784444e-11,2.2842077485529367e-12,
1.111323244134547,2.39939202397672,2.692680397041879,2.20209445903542,1.5634345382508426,1.0942182742367885,0.8309588433406416,0.7306451077672723,0.5200566780684318,0.23420509462185937,0.07104003189433862,0.016820088002042616,0.0038170935346687964,0.0010335101738150841,0.000405299846065906,0.0002652588460579347,0.00010729949360429028,1.4137569660605536e-05,7.850226620113228e-07,2.6868323172842297e-08,8.968580399597646e-10,4.667106757252193e-11,5.706390298134423e-12,2.2110782199169886e-12,2.7958153597993903e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.35942530109184667,-0.7031646987097804,-0.5921756666211055,-0.13994155922160006,0.350737835393493,0.7118432149873921,0.9186217639296198,0.9981660094786728,1.1650804965919315,1.37316273838603,1.3983863483672516,1.222957294387039,0.9738025391865247,0.7610077925126956,0.6258832860660175,0.5704518272777511,0.46446997574885074,0.2843039810129722,0.13369236827875983,0.05237168640064288,0.019513507494585202,0.008059087376388434,0.0042477431172286756,0.0031731657058176642,0.0016708478426912744,0.0003918085130897572,4.82161536595115e-05,4.057998024488486e-06,3.274899337439781e-07,3.617550969569208e-08,7.501974057192402e-09,3.6831979475248395e-09,7.160888412528786e-10,1.8389028692100282e-11,9.990730216173365e-14,0,0,0,0,0,0,0,0,0,0,0,0,
0.06322458566423515,0.12263292955777091,0.10056249762665727,0.01860549606003826,-0.0679240544354126,-0.12913195164096564,-0.16228186231525887,-0.1743772298680742,-0.19761986530143189,-0.21429232521392566,-0.17728942158317126,-0.08358228201064963,0.03317863509007391,0.13745544480383845,0.20889596869531873,0.23990160906876928,0.3028288641946376,0.42599451516623216,0.5582544775910913,0.6535762575333172,0.695890985634486,0.6981563930392598,0.6846718103897104,0.6752887678940076,0.6490772029610977,0.5712497275754302,0.4433502151901403,0.3055457935875269,0.1977192647253851,0.13048750172860507,0.09547223446322782,0.08258761196906961,0.05869405167403338,0.0264554511638209,0.007999054724637336,0.001855902271200704,0.0004046192437345654,0.00010425188649875409,3.917286508412241e-05,2.5101299500928706e-05,8.427811373613559e-06,7.158571109051642e-07,2.0404759004298883e-08,3.067627992467732e-10,4.315578442126049e-12,1.0366115788897422e-13,0,
0.010136792129516715,0.09100267948397343,0.2889767367557707,0.5630301882051221,0.8267719319063491,1.0211175835155215,1.134119634915222,1.1778922581397986,1.2697151672343607,1.3768156117942227,1.3491912240696724,1.1656176809172276,0.9251189783207183,0.7223465529876779,0.5939462210708719,0.5413103666529906,0.44070824550760385,0.26974304274980865,0.12684331534192508,0.049688599005693314,0.018513795619521278,0.007646205819823849,0.0040301235833623775,0.0030105987083611737,0.0015852472964033879,0.00037173545680156873,4.5745953206808214e-05,3.850099471900747e-06,3.107120341980536e-07,3.432217313429586e-08,7.117634405317468e-09,3.4945010783879777e-09,6.794023192973952e-10,1.7446925609370474e-11,9.478887100749756e-14,0,0,0,0,0,0,0,0,0,0,0,0,
-0.0018563773929037158,-0.016577326108281155,-0.05214440247594244,-0.10012716475385863,-0.14418302380454323,-0.17417893801321083,-0.1897454203984367,-0.19512831294697106,-0.2042840679071081,-0.20218311480579676,-0.1561809745510843,-0.06284091069682148,0.05004535929655415,0.1505666150977801,0.21955412732655621,0.2495446378076618,0.31051957768792304,0.4303320135010645,0.55974003172694,0.6534845663923349,0.6951560977793475,0.6972166254519991,0.6836859264109483,0.6742985270414319,0.6481011529494445,0.5703717469799141,0.4426643111604124,0.3050725729811163,0.1974130023629529,0.13028537657849198,0.09532434763134713,0.08245968341407592,0.05860313431004644,0.02641447153933817,0.007986664149275681,0.0018530274693959843,0.0004039924865231741,0.00010409039981052554,3.911218612220325e-05,2.5062417463751503e-05,8.414756652078556e-06,7.147482446969127e-07,2.0373151931598614e-08,3.062876221522784e-10,4.308893589757283e-12,1.0350058624228629e-13,0,
1.2194628508792547,2.5568685641425035,2.7532239772632168,2.1465394140898026,1.4528768830097043,0.9756692485113149,0.7195437142837475,0.6243884555556746,0.429678636426004,0.17953520247947316,0.048993652499191916,0.010265437246464334,0.0020615530258003764,0.0005021805128191119,0.00018271816823349211,0.00011561651370891198,4.353149334094306e-05,4.891364655465062e-06,2.1695002961430116e-07,5.726660513469351e-09,1.474239134766571e-10,6.127935727325299e-12,6.389653808224697e-13,2.3044954904014453e-13,2.4926021338760012e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.4097352590031239,-0.7674677036907748,-0.5821687180833396,-0.03449383658554668,0.514540485045991,0.8939560656906451,1.0993700476671189,1.1752607158012354,1.3262588202590133,1.4787149958182302,1.4153536553648178,1.1605392436577808,0.8684229145673431,0.6435185766062465,0.5097489014208064,0.4568185706388679,0.3588363225393576,0.202831228392105,0.08524453058491027,0.0293256550909734,0.009595732671101288,0.0035419284164531725,0.0017239983847172078,0.0012425083374241889,0.0006051037185615983,0.00011930725298964514,1.1495570133392555e-05,7.291228939297682e-07,4.4344300633823465e-08,3.8353013020608065e-09,6.687448427615809e-10,3.0366609718663926e-10,4.9356968704383866e-11,8.515703652865493e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.07825104870783149,0.14502209258791182,0.1060944706112314,-0.0013775212706735843,-0.10548696666679962,-0.17343942143113364,-0.2071206855598998,-0.21847071272992252,-0.2374735461200527,-0.23607677814447658,-0.16387821766691663,-0.0288001312437638,0.12217303315280795,0.2481944568090621,0.33060180161986674,0.3654055051674342,0.4342031167160919,0.5608938444263203,0.6805044942008736,0.7441368166372109,0.7456956146773035,0.711506305943738,0.673754637555791,0.6541776153059035,0.6077317222343964,0.4960472098659139,0.34623491801786443,0.21108647789409504,0.12083641030744709,0.07172553791787376,0.04868016002986141,0.04070932541839974,0.0267709773170972,0.010156405931053892,0.0024079647275994914,0.0004217540942830563,6.941342743243044e-05,1.4023856286314362e-05,4.435306222282432e-06,2.629817551228219e-06,7.311832828158429e-07,4.0855613556287423e-08,6.449101273233868e-10,4.895872497589381e-12,3.477972163100126e-14,0,0,
0.012823886546596247,0.11345217191720207,0.3528956360322431,0.67133328598016,0.9625323136556044,1.1644748670298983,1.274537864764406,1.31502738641414,1.3938238364528317,1.4558192539852814,1.3531529247966478,1.0997292060428039,0.8210762352605213,0.6080974645385526,0.4816203273910601,0.43159497461508767,0.3390073864558551,0.1916165126072676,0.08053068304164653,0.027703983969756873,0.009065100393186648,0.0033460640921535757,0.00162866337459392,0.001173799140184366,0.0005716422201293527,0.00011270970725098454,1.0859879110034396e-05,6.888032861836764e-07,4.189211483330085e-08,3.6232138125928615e-09,6.31764067686692e-10,2.8687373196770917e-10,4.662758846647766e-11,8.044795615518128e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.0025582093388035257,-0.022490554825800514,-0.06916210990510338,-0.12922702661310828,-0.18075621603663358,-0.21250804970740766,-0.2267288097788588,-0.23085992170019692,-0.23518772515521633,-0.21584266184882106,-0.13735673562741962,-0.005489709122065509,0.13966615332510846,0.26090774532294825,0.3404214432454202,0.37407234671529993,0.4407242597294916,0.563960397802477,0.6809182951275934,0.7432756877019732,0.7444257530675958,0.7101792399390012,0.6724644697273884,0.652916065449724,0.6065484492061758,0.495073688112665,0.3455539358231769,0.21067117941518632,0.12059866510959107,0.07158441772050993,0.048584381638466866,0.04062922966775407,0.026718305315595593,0.010136423162701688,0.0024032270475854486,0.00042092429145396023,6.927685624262706e-05,1.3996264294253201e-05,4.426579739952928e-06,2.6246433749164865e-06,7.297446768487811e-07,4.0775229976914964e-08,6.436412641269895e-10,4.8862398493129024e-12,3.471129239274185e-14,0,0,
1.3287839046574137,2.705659893485007,2.7954767529666706,2.077779217065608,1.3407121127335966,0.863890857492331,0.6187175867174819,0.5298596597224939,0.3525286779368416,0.13666600558271744,0.03355321153171584,0.0062213444740509185,0.0011056402111506356,0.00024230510439671925,8.179836711391956e-05,5.004117177088101e-05,1.753747507620979e-05,1.6805170838521612e-06,5.953808213996303e-08,1.2120482823399936e-09,2.406410828280335e-11,7.989843550123698e-13,7.104782581167663e-14,2.3850924965486753e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.46086401192063337,-0.8256391375638246,-0.5567668657013287,0.08565573579230593,0.6836536879670593,1.0708048895525948,1.267536517517987,1.3367107141724883,1.46489458051894,1.5521707686134738,1.3996794088187985,1.0770845023285365,0.7576644753694511,0.532433132656026,0.4062247680936994,0.3579479930620685,0.2712641471088334,0.1415953868081071,0.05318514550030943,0.016068044907519518,0.00461726835340312,0.001523203301882247,0.0006846673879566872,0.00047606916050320906,0.00021443067822842762,3.554872284963546e-05,2.68183865412322e-06,1.2818990230251191e-07,5.875459572118125e-09,3.97876688610157e-10,5.833235518909539e-11,2.449806223111104e-11,3.328850032705389e-12,3.858748436605885e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.09390049611352741,0.1660702707436914,0.10663352772074082,-0.027388590865570658,-0.14682220201772972,-0.21805033302676374,-0.24944286133208013,-0.2587500283756563,-0.27024848528331163,-0.24450659802995825,-0.13184617733858536,0.04529496894540537,0.22676293259629626,0.3690703878735482,0.4578387341906969,0.4942435239187889,0.564095041456761,0.6834798653311098,0.7765974303305623,0.797192249377492,0.7533393781872708,0.6841158232331922,0.6256917387043899,0.5981023982419059,0.5370965071998532,0.406625998567694,0.2552629486046929,0.13767052476558614,0.06971778537315798,0.037219944061362004,0.02343278576578487,0.0189439229874043,0.011527400446886988,0.0036809671982466715,0.0006843189914637409,9.04816538640113e-05,1.1241841636004226e-05,1.7809347228080797e-06,4.740879332542975e-07,2.601070072847258e-07,5.988729798699563e-08,2.201274230351248e-09,1.9242608450350044e-11,7.3765709645749e-14,0,0,0,
0.01588095280657943,0.13845518060972134,0.4218591319849129,0.7835783752964469,1.0969394963077832,1.299936822556152,1.4021173932132691,1.4371489737445624,1.4977772468082178,1.5068738540868178,1.3284891602153268,1.0156712353257438,0.7133573427924899,0.5011163146663361,0.3822964412339672,0.33685591340768256,0.25527301472103525,0.13324575226828528,0.05004871623479811,0.01512047603899114,0.004344977509240123,0.0014333765271943824,0.000644290989568776,0.00044799427563398754,0.00020178521176078413,3.345233353409291e-05,2.5236845082121646e-06,1.206302512094436e-07,5.528970312208836e-09,3.744129922508281e-10,5.4892363077814616e-11,2.3053355591999692e-11,3.132540149193537e-12,3.631189234884802e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.003389792134256999,-0.029338235016164393,-0.08818824540231446,-0.1602747490916088,-0.21758686830437773,-0.24863502641017252,-0.25943470393087303,-0.2613330304696734,-0.25829313109036756,-0.21655432341775527,-0.101026311362638,0.06993450189732718,0.24384301383844076,0.3806076685141291,0.4662275854871468,0.5014202828720178,0.569083128981653,0.6851563104634071,0.7759874006669846,0.7956663672400468,0.7516506800930713,0.6825199540164376,0.6242156146044675,0.5966871964495579,0.5358206789287178,0.405657131371055,0.25465427544591746,0.13734221934106533,0.0695515267134356,0.03713118417835174,0.023376904663793895,0.018898746655595152,0.011499910593124725,0.0036721890482443818,0.0006826870685387111,9.026587863772473e-05,1.1215032765705146e-05,1.7766876563984286e-06,4.7295735675940465e-07,2.594867196799044e-07,5.974448234732731e-08,2.1960247634716226e-09,1.919671983077465e-11,7.35897976015801e-14,0,0,0,
1.4390467297367024,2.845592831758274,2.8210123063745622,1.9989166355517107,1.2296372363075996,0.7602385581685402,0.5287647455375061,0.44689099287341405,0.28746163881061526,0.1033965719772418,0.022838265942190183,0.0037473632966736788,0.0005893426807813023,0.00011619836681571784,3.639504740861369e-05,2.1526321657690494e-05,7.022072702144981e-06,5.738396808005116e-07,1.623920341078693e-08,2.549606492965565e-10,3.903969034899926e-12,1.0353736379171191e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.5126089317583217,-0.8773758048923521,-0.5169903350199463,0.21742341889132014,0.8539453627043401,1.2384741179855898,1.4198950448839218,1.479714223745148,1.579508357831937,1.5955788291924924,1.3578366983207155,0.9812575995611156,0.6490247903354558,0.4325509383848121,0.3178731685919322,0.2754076426393169,0.20135927335142756,0.09706204926207578,0.032583746234855666,0.008645005818880364,0.0021816196688594146,0.0006432249981157929,0.00026699884261000207,0.00017911325886505236,7.461582855676193e-05,1.0400832636100557e-05,6.14358294477822e-07,2.2130633570124328e-08,7.644213777209626e-10,4.0530732339567946e-11,4.996265706756525e-12,1.9406807967980645e-12,2.2045854181361065e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.11004450970132598,0.1854780595905881,0.10225449760879955,-0.05846028581815265,-0.19019198275151755,-0.26088576279510345,-0.2871321072222142,-0.293134685348732,-0.2940901305913869,-0.23877672555667728,-0.08256827912583607,0.13474723930288496,0.3410213415518036,0.4931207691757091,0.583283365316358,0.6190252832735523,0.6851588799085485,0.7873537075415072,0.8432261312293889,0.8148440981523442,0.7269048057124379,0.6284896064960358,0.555254060885873,0.5225695656408205,0.45363301319362,0.3185669011852871,0.17986429086180353,0.0858149469879109,0.038444207049674425,0.018459468438969215,0.010780463206136263,0.008425341412130225,0.004743950076151912,0.0012750447284850099,0.00018586971817324585,1.8552537959113733e-05,1.7400952149321448e-06,2.1615740900775876e-07,4.843237531410752e-08,2.4587822014876424e-08,4.687969311449365e-09,1.1335433609480038e-10,5.487446063894546e-13,0,0,0,0,
0.019318520201451903,0.16597627740647278,0.4953692391993688,0.8983945663369981,1.2279775943463562,1.4254591811338975,1.5151527710217516,1.542798450434043,1.5809822115953063,1.5320987183930834,1.2811782667912825,0.9214270559244186,0.6087951763077523,0.4056432978942539,0.29808224956660295,0.25825716860465636,0.18881698863653884,0.0910152628322886,0.030553777725888572,0.008106420251199937,0.0020457043121823557,0.0006031519473066122,0.00025036475931589807,0.0001679544656736092,6.996724695566226e-05,9.752858604806195e-06,5.760836452588559e-07,2.07518905068278e-08,7.167977672794097e-10,3.800565930510472e-11,4.684997316552087e-12,1.8197759804863334e-12,2.067239289157533e-13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.004356013803746717,-0.037113217655243246,-0.10903005894500213,-0.19265745440217424,-0.25362241155819265,-0.28126309874704675,-0.2865156389763445,-0.28521464509110295,-0.27241124607739037,-0.20394348369439894,-0.048698959812700546,0.15957373314333706,0.3568707873023611,0.5029606003067488,0.589900834843769,0.6244418972571794,0.6884700860529241,0.7876731968071801,0.8417162595594497,0.8127922578136609,0.7249308796232402,0.6267506703336905,0.5537099378785918,0.521114463035082,0.4523677667321462,0.3176772832233381,0.17936187214506663,0.0855752312542285,0.03833681664742593,0.018407903581248105,0.010750348955437448,0.008401805981490002,0.0047306982798498735,0.0012714830061325538,0.0001853505078937375,1.850071311903751e-05,1.7352344160252785e-06,2.155535927979332e-07,4.8297083845592716e-08,2.451913815358738e-08,4.6748738923544945e-09,1.1303769098926248e-10,5.472117378659408e-13,0,0,0,0,
1.5500341816220562,2.9765840677204376,2.8313914546519987,1.9126513322212726,1.1216679735088482,0.6654060540198583,0.4494468728408664,0.3748764748239565,0.23313698868252294,0.0778032287379909,0.015461014854877978,0.0022449836861791754,0.000312440845157364,5.542214440287432e-05,1.610592918441916e-05,9.209965870753545e-06,2.796465185028477e-06,1.948875344391237e-07,4.4053502528386816e-09,5.3342360862467594e-11,6.299249295502664e-13,1.3344483567379404e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.5647902759306358,-0.9224753720668915,-0.46395349021566323,0.35793976266231436,1.0219536024022438,1.3940563285514453,1.554384284865797,1.6026777374947754,1.6698602170018249,1.6119063189313634,1.296101635424279,0.8800179279381979,0.547374970816058,0.3459931898385626,0.24490917421824154,0.20863984201187566,0.14716957294674016,0.06551164918577278,0.019655350484683736,0.004579696571792808,0.0010149441160521389,0.00026744662524571904,0.00010251992538155224,6.635208712780187e-05,2.556490472092018e-05,2.9962729906626454e-06,1.3857343163857704e-07,3.761863596027649e-09,9.792486276278534e-11,4.065271665888511e-12,4.213574795083662e-13,1.5137203497124465e-13,1.4375693233286188e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.12657653462215437,0.2030274567197928,0.09315667263770422,-0.09358514272636004,-0.23401333402375027,-0.3002201162967692,-0.3185596026980972,-0.3200871594304743,-0.30780958249754303,-0.21889536760723366,-0.01812002358186996,0.23540847525581082,0.45953738032938635,0.6145378711458723,0.7011989893788653,0.7341329566674445,0.792195552437366,0.8689710028188302,0.8805058177226105,0.8022890098324708,0.6760206797206062,0.5566020034383825,0.47503796983421476,0.4401751970403505,0.3693861302437773,0.240624095519314,0.12219059209151294,0.051572829360240414,0.020438749545703818,0.00882670799393186,0.0047817516410654515,0.003612777301396035,0.0018822830618645868,0.0004258189523922948,4.8673747232370624e-05,3.6676021774175517e-06,2.5968367994362224e-07,2.529463080963756e-08,4.7703333775204655e-09,2.240908704650825e-09,3.5381064525610734e-10,5.6277943649530714e-12,1.5087340112399304e-14,0,0,0,0,
0.02314599361051038,0.1959690559029699,0.5729217188467113,1.0145103038383103,1.3539507988351573,1.5395436132752882,1.6126240907788139,1.6312528000633013,1.6436578167730345,1.5342681598733188,1.2169305167274975,0.8233290494690269,0.51172889555428,0.32341096399590064,0.22891626230540016,0.19501376466604659,0.1375567473088999,0.06123218448132714,0.018371370629462737,0.004280528925538646,0.0009486431164684186,0.00024997573363334775,9.582283394025907e-05,6.201765171769279e-05,2.3894882976690955e-05,2.8005421205233707e-06,1.2952115287848797e-07,3.5161206889926955e-09,9.152794277032828e-11,3.799708693824033e-12,3.9383239539190704e-13,1.414836902803552e-13,1.3436604253685534e-14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.005461229011461557,-0.04580260947200561,-0.131485838919684,-0.2257903058637298,-0.28793664073480224,-0.3093451608623084,-0.30697019423762645,-0.30156090233637833,-0.2768447339717872,-0.17827235829924346,0.0175535578685287,0.25945544040391527,0.4735770125685607,0.622389388611589,0.7059094297961153,0.7377099621010224,0.7938440274390534,0.8680582851695193,0.8782554363305842,0.799860386761484,0.6738936052331288,0.55483455603217,0.4735259558530512,0.43877333632796955,0.3682088626930153,0.2398568169714634,0.12180092346650696,0.05140836086178912,0.0203735692457735,0.008798559134075293,0.004766502370629436,0.003601255954774097,0.0018762803570771716,0.0004244609922023226,4.8518523960444875e-05,3.655905991229484e-06,2.588555343259419e-07,2.5213964833014034e-08,4.7551205205464515e-09,2.2337623228536275e-09,3.5268232354016005e-10,5.609847017466491e-12,1.503922575034448e-14,0,0,0,0};
}}}
