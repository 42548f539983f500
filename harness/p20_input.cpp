// LIBS: core general
// P20: option parsing, functional names and properties, elements, parameter files and occupation tables.
#include "gen.h"
#include "prog.h"
#include <general/cmdline.h>
#include <general/dftfuncs.h>
#include <general/elements.h>
#include <general/scf_helpers.h>
#include <general/eigen_io.h>
extern "C" {
#include <xc.h>
}
#include <memory>
#include <set>

// ---------------------------------------------------------------- option tables
namespace {
enum Ty { FLAG, INT, DBL, STR, BOOL };
enum Rd { ANY, RANGE, ONEOF };
struct Opt { std::string name; char sh = 0; Ty t = FLAG; Rd rd = ANY; bool need = false; int di = 0; double dd = 0; std::string ds; bool db = false; int ilo = 0, ihi = 0; double dlo = 0, dhi = 0; std::vector<std::string> alt; std::vector<int> ialt;
  // expected state
  bool set = false; int i = 0; double x = 0; std::string s; bool b = false; };
std::string word(vt::Source & s, int lo, int hi) { int n = s.range(lo, hi); std::string w; for (int k = 0; k < n; k++) w += (char) s.range('a', 'z'); return w; }
std::vector<Opt> table(vt::Source & s) {
  std::vector<Opt> t; std::set<std::string> seen; std::set<char> sh; int n = s.range(1, 8);
  for (int k = 0; k < n; k++) {
    Opt o; o.name = word(s, 1, 7); if (s.flag(1, 6) && t.size()) o.name = t[s.draw(t.size())].name + word(s, 1, 2); // prefixes of each other
    if (!seen.insert(o.name).second) continue;
    if (s.flag()) { char c = (char) s.range('a', 'z'); if (s.flag(1, 4)) c = (char) s.range('A', 'Z'); if (sh.insert(c).second) o.sh = c; }
    o.t = (Ty) s.draw(5); o.need = o.t != FLAG && s.flag(1, 4);
    o.di = s.range(-9, 9); o.dd = s.sym(10); o.ds = word(s, 0, 5); o.db = s.flag();
    if (o.t == INT || o.t == DBL || o.t == STR) o.rd = (Rd) s.draw(3); if (o.t == STR && o.rd == RANGE) o.rd = ANY; if (o.t == DBL && o.rd == ONEOF) o.rd = RANGE;
    o.ilo = s.range(-20, 5); o.ihi = o.ilo + s.range(0, 30); o.dlo = s.sym(5); o.dhi = o.dlo + s.real(0, 7);
    int m = s.range(1, 10); for (int q = 0; q < m; q++) { o.alt.push_back(word(s, 1, 4)); o.ialt.push_back(s.range(-5, 30)); }
    o.i = o.di; o.x = o.dd; o.s = o.ds; o.b = o.db; t.push_back(o);
  }
  return t;
}
template <class T, class V> void addone(cmdline::parser & p, const Opt & o, T def, const V & alt) {
  using namespace cmdline; switch (alt.size()) {
    case 1: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0])); break; case 2: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0], alt[1])); break; case 3: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0], alt[1], alt[2])); break;
    case 4: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0], alt[1], alt[2], alt[3])); break; case 5: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0], alt[1], alt[2], alt[3], alt[4])); break; case 6: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0], alt[1], alt[2], alt[3], alt[4], alt[5])); break;
    case 7: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0], alt[1], alt[2], alt[3], alt[4], alt[5], alt[6])); break; case 8: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0], alt[1], alt[2], alt[3], alt[4], alt[5], alt[6], alt[7])); break;
    case 9: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0], alt[1], alt[2], alt[3], alt[4], alt[5], alt[6], alt[7], alt[8])); break; default: p.add<T>(o.name, o.sh, "text", o.need, def, oneof<T>(alt[0], alt[1], alt[2], alt[3], alt[4], alt[5], alt[6], alt[7], alt[8], alt[9])); } }
void declare(cmdline::parser & p, const std::vector<Opt> & t) {
  for (auto & o : t) switch (o.t) {
    case FLAG: p.add(o.name, o.sh, "text"); break;
    case INT: if (o.rd == ANY) p.add<int>(o.name, o.sh, "text", o.need, o.di); else if (o.rd == RANGE) p.add<int>(o.name, o.sh, "text", o.need, o.di, cmdline::range(o.ilo, o.ihi)); else addone<int>(p, o, o.di, o.ialt); break;
    case DBL: if (o.rd == ANY) p.add<double>(o.name, o.sh, "text", o.need, o.dd); else p.add<double>(o.name, o.sh, "text", o.need, o.dd, cmdline::range(o.dlo, o.dhi)); break;
    case STR: if (o.rd == ANY) p.add<std::string>(o.name, o.sh, "text", o.need, o.ds); else addone<std::string>(p, o, o.ds, o.alt); break;
    case BOOL: p.add<bool>(o.name, o.sh, "text", o.need, o.db); break; } }
// a value text for an option; sets the expected state when the text is valid
std::string text(vt::Source & s, Opt & o, bool & good) {
  good = true; int bad = s.flag(1, 7) ? s.range(1, 8) : 0;
  if (o.t == INT) { if (bad) { good = false; switch (bad) { case 1: return ""; case 2: return word(s, 1, 4); case 3: return std::to_string(s.range(-9, 99)) + word(s, 1, 2); case 4: return std::to_string(s.range(0, 9)) + ".5"; case 5: return "99999999999"; case 6: return "1e3"; case 7: return "--"; default: return std::to_string(s.range(0, 9)) + " "; } }
    int v; if (o.rd == RANGE) v = s.flag(1, 5) ? (s.flag() ? o.ilo - s.range(1, 3) : o.ihi + s.range(1, 3)) : s.range(o.ilo, o.ihi); else if (o.rd == ONEOF) v = s.flag(1, 5) ? s.range(31, 60) : o.ialt[s.draw(o.ialt.size())]; else v = s.flag(1, 4) ? (int) (s.draw(1ull << 32)) : s.range(-50, 50);
    if (o.rd == RANGE) good = v >= o.ilo && v <= o.ihi; if (o.rd == ONEOF) good = v <= 30; if (good) { o.set = true; o.i = v; } std::string t = std::to_string(v); if (v >= 0 && s.flag(1, 8)) t = (s.flag() ? "+" : "00") + t; return t; }
  if (o.t == DBL) { if (bad) { good = false; switch (bad) { case 1: return ""; case 2: return word(s, 1, 4); case 3: return "1.5" + word(s, 1, 1) + "x"; case 4: return "1e999"; case 5: return "1,5"; case 6: return "."; case 7: return "1e"; default: return "1.5 2.5"; } }
    double v; if (o.rd == RANGE) v = s.flag(1, 5) ? (s.flag() ? o.dlo - s.real(0.01, 3) : o.dhi + s.real(0.01, 3)) : (s.flag(1, 4) ? (s.flag() ? o.dlo : o.dhi) : s.real(o.dlo, o.dhi)); else v = s.flag() ? s.sym(20) : s.sym(1) * std::pow(10.0, s.range(-30, 30));
    if (o.rd == RANGE) good = v >= o.dlo && v <= o.dhi; if (good) { o.set = true; o.x = v; } return vt::fmt(s.flag() ? "%.17g" : "%.16E", v) == "" ? "" : (s.flag() ? vt::fmt("%.17g", v) : vt::fmt("%.16E", v)); }
  if (o.t == STR) { std::string v; if (o.rd == ONEOF) { v = s.flag(1, 5) ? "NOT" + word(s, 0, 2) : o.alt[s.draw(o.alt.size())]; good = v.compare(0, 3, "NOT") != 0; } else { switch (s.range(0, 5)) { case 0: v = ""; break; case 1: v = "two words"; break; case 2: v = "a=b"; break; case 3: v = "-" + word(s, 0, 3); break; case 4: v = "--" + word(s, 1, 3); break; default: v = word(s, 1, 9); } } if (good) { o.set = true; o.s = v; } return v; }
  if (bad) { good = false; switch (bad) { case 1: return ""; case 2: return "2"; case 3: return "10"; case 4: return "maybe"; default: return "-1"; } } bool v = s.flag(); o.set = true; o.b = v; return v ? "1" : "0";
}
void verify(vt::Ctx & c, const cmdline::parser & p, const std::vector<Opt> & t) {
  for (auto & o : t) { std::string w = "--" + o.name; c.ok(p.exist(o.name) == o.set, w + ": whether it was given");
    switch (o.t) { case FLAG: break; case INT: c.ok(p.get<int>(o.name) == o.i, w + vt::fmt(": %d instead of %d", p.get<int>(o.name), o.i)); c.throws([&] { p.get<double>(o.name); }, w + " read as another type"); break;
      case DBL: c.ok(p.get<double>(o.name) == o.x, w + vt::fmt(": %.17g instead of %.17g", p.get<double>(o.name), o.x)); break; case STR: c.ok(p.get<std::string>(o.name) == o.s, w + ": '" + p.get<std::string>(o.name) + "' instead of '" + o.s + "'"); c.throws([&] { p.get<int>(o.name); }, w + " read as another type"); break; case BOOL: c.ok(p.get<bool>(o.name) == o.b, w + ": value"); break; } }
}
}
VT_CHECK(options, 20000, 400000, "an error, a repeated option or a group of short options") {
  std::vector<Opt> t = table(s); std::vector<std::string> a = {"program"}; std::vector<std::string> rest; int errors = 0; bool group = false, repeat = false, abort = false; int n = s.range(0, 8);
  std::map<char, int> sh; for (size_t k = 0; k < t.size(); k++) if (t[k].sh) sh[t[k].sh] = (int) k;
  auto give = [&](Opt & o) { if (o.set) repeat = true; };
  for (int k = 0; k < n && !abort; k++) {
    int kind = s.range(0, 9); int w = (int) s.draw(t.size()); Opt & o = t[w]; bool good;
    if (kind == 0) { std::string r = s.flag(1, 6) ? "" : word(s, 1, 6); a.push_back(r); rest.push_back(r); }
    else if (kind == 1 && s.flag()) { // unknown options
      std::string nm = word(s, 1, 8); bool known = false; for (auto & q : t) known = known || q.name == nm; if (known) continue; errors++; if (s.flag()) a.push_back("--" + nm + "=" + word(s, 0, 3)); else a.push_back("--" + nm); }
    else if (kind == 2 && s.flag(1, 4)) { char ch = (char) s.range('0', '9'); errors++; a.push_back(std::string("-") + ch); }
    else if (kind == 3 && s.flag(1, 3)) { a.push_back("-"); }
    else if (kind <= 4 && sh.size()) { // a group of flags, the last may take a value
      std::string g = "-"; int m = s.range(1, 4); Opt * last = nullptr; std::vector<int> ks; for (auto & q : sh) ks.push_back(q.second);
      for (int q = 0; q < m; q++) { Opt & f = t[ks[s.draw(ks.size())]]; bool fin = q == m - 1; if (!fin) { if (f.t == FLAG) { give(f); f.set = true; } else errors++; } else last = &f; g += f.sh; }
      if (m > 1) group = true; a.push_back(g); if (last->t == FLAG) { give(*last); last->set = true; } else if (s.flag(1, 8) && k == n - 1) { errors++; } else { bool had = last->set; std::string v = text(s, *last, good); if (had) repeat = true; a.push_back(v); if (!good) errors++; } }
    else if (o.t == FLAG) { if (s.flag(1, 6)) { a.push_back("--" + o.name + "=" + (s.flag() ? "1" : "")); errors++; } else { give(o); a.push_back("--" + o.name); o.set = true; } }
    else { give(o); if (s.flag(1, 20)) { a.push_back("--" + o.name); errors++; abort = true; break; } std::string v = text(s, o, good); if (!good) errors++; if (s.flag()) a.push_back("--" + o.name + "=" + v); else { a.push_back("--" + o.name); a.push_back(v); } } }
  for (auto & o : t) if (o.need && !o.set) errors++;
  for (auto & o : t) c.d("%s%s/%c:%d%s ", c.desc.empty() ? "table " : "", o.name.c_str(), o.sh ? o.sh : '.', (int) o.t, o.need ? "!" : ""); c.d(" | %s", prog::join(a).c_str());
  c.nontrivial = errors > 0 || group || repeat; c.label("outcome", errors ? "refused" : "accepted");
  cmdline::parser p; declare(p, t); bool ok;
  if (s.flag()) { std::vector<const char *> v; for (auto & x : a) v.push_back(x.c_str()); ok = p.parse((int) v.size(), v.data()); } else ok = p.parse(a);
  c.ok(ok == (errors == 0), errors ? "a wrong argument list was accepted" : "a correct argument list was refused: " + p.error()); c.ok(p.error().empty() == (errors == 0), "error message"); std::string full = p.error_full(); c.ok(std::count(full.begin(), full.end(), '\n') == errors, vt::fmt("%d errors reported instead of %d: %s", (int) std::count(full.begin(), full.end(), '\n'), errors, prog::tail(full).c_str()));
  verify(c, p, t); c.ok(p.rest() == rest, "left-over arguments"); c.throws([&] { p.exist("no-such-option"); }, "asking for an undeclared option"); c.throws([&] { p.get<int>("no-such-option"); }, "reading an undeclared option");
  if (t.size() && s.flag(1, 4)) c.throws([&] { p.add(t[0].name, 0, "again"); }, "declaring an option twice");
  std::string u = p.usage(); for (auto & o : t) c.ok(u.find("--" + o.name) != std::string::npos, "the usage text leaves out --" + o.name);
}
VT_CHECK(quoting, 4000, 60000, "a quoted or escaped argument") {
  // one string split at blanks, with quotes and escapes
  std::vector<Opt> t = table(s); for (auto & o : t) { o.need = false; } std::vector<std::string> a = {"program"}, rest; int n = s.range(0, 5); for (int k = 0; k < n; k++) { std::string w; int m = s.range(1, 8); for (int q = 0; q < m; q++) w += s.pick<char>({'a', 'b', ' ', '"', '\\', 'z', '=', '1'}); a.push_back(w); rest.push_back(w); } bool esc = false; std::string line;
  for (size_t k = 0; k < a.size(); k++) { if (k) line += ' '; bool q = a[k].find(' ') != std::string::npos || s.flag(1, 5); if (q) { esc = true; line += '"'; } for (char ch : a[k]) { if (ch == '"' || ch == '\\') { line += '\\'; esc = true; } line += ch; } if (q) line += '"'; }
  bool open = s.flag(1, 10), end = !open && s.flag(1, 12); if (open) line += " \"tail"; if (end) line += " x\\"; c.d("%s", line.c_str()); c.nontrivial = esc || open || end; cmdline::parser p; declare(p, t); std::cout.setstate(std::ios::failbit); bool ok = p.parse(line); std::cout.clear(); c.ok(ok == (!open && !end), open || end ? "an unterminated argument line was accepted" : "an argument line was refused: " + p.error()); if (ok) { c.ok(p.rest() == rest, "arguments of the line"); verify(c, p, t); } else c.ok(!p.error().empty(), "no error message");
}
VT_CHECK(ambiguous, 600, 6000, "any") {
  // two options with one letter; the help flag and the exit status
  cmdline::parser p; char ch = (char) s.range('a', 'z'); p.add("first", ch, "text"); p.add<int>("second", s.flag() ? ch : (char) 0, "text", false, 3); bool amb = p.usage().find(std::string("-") + ch + ", --second") != std::string::npos; c.d("two options named -%c: %d", ch, amb); c.nontrivial = true; const char * v[] = {"program", "--second=4"}; bool ok = p.parse(2, v); c.ok(ok == !amb, "an ambiguous letter"); if (!amb) c.ok(p.get<int>("second") == 4, "value");
  // parse_check ends the process: 0 for --help, 1 for errors
  int kind = s.range(0, 3); pid_t pid = fork(); if (pid < 0) throw vt::Reject(); if (!pid) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); cmdline::parser q; q.add<int>("n", 'n', "text", false, 1); const char * w[] = {"program", kind == 0 ? "--help" : kind == 1 ? "--n=x" : kind == 2 ? "--m" : "--n=5", 0}; q.parse_check(2, (char **) w); _exit(q.get<int>("n") == 5 ? 42 : 43); } int st = 0; waitpid(pid, &st, 0); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000; c.ok(rc == (kind == 0 ? 0 : kind == 3 ? 42 : 1), vt::fmt("exit status %d for argument list %d", rc, kind));
}

// ---------------------------------------------------------------- functionals
static const std::vector<int> & ids() { static std::vector<int> v; if (v.empty()) { v.resize(xc_number_of_functionals()); xc_available_functional_numbers(v.data()); std::sort(v.begin(), v.end()); } return v; }
static std::string xcname(int id) { if (id == 0) return "none"; if (id == -1) return "HF"; char * k = xc_functional_get_name(id); std::string r = k ? k : ""; free(k); return r; }
static std::string shuffle(vt::Source & s, std::string t) { int how = s.range(0, 2); for (auto & ch : t) if (how == 1 || (how == 2 && s.flag())) ch = (char) toupper(ch); return t; }
struct Info { int family = 0, kind = -1, flags = 0; double w = 0, a = 0, b = 0, nb = 0, nC = 0; };
static Info info(int id) { Info r; if (id <= 0) return r; xc_func_type f; if (xc_func_init(&f, id, XC_UNPOLARIZED)) throw vt::Fail("libxc cannot initialise a functional of its own list"); r.family = f.info->family; r.kind = f.info->kind; r.flags = f.info->flags; r.w = f.cam_omega; r.a = f.cam_alpha; r.b = f.cam_beta; r.nb = f.nlc_b; r.nC = f.nlc_C; xc_func_end(&f); return r; }
VT_CHECK(functional, 4000, 20000, "a hybrid, a meta-GGA or a non-local functional") {
  int id = s.flag(1, 40) ? 0 : s.flag(1, 40) ? -1 : ids()[s.draw(ids().size())]; Info f = info(id); c.d("functional %d %s", id, xcname(id).c_str());
  // names
  c.ok(find_func(shuffle(s, xcname(id))) == id, "name to number"); if (id >= 0) c.ok(find_func(std::to_string(id)) == id, "number to number"); if (id == -1) c.ok(find_func(shuffle(s, "hyb_x_hf")) == -1, "hyb_x_hf"); std::string k = get_keyword(id); c.ok(find_func(k) == id, "the printed name is not the functional's");
  bool hyb = f.family == XC_FAMILY_HYB_GGA || f.family == XC_FAMILY_HYB_MGGA || f.family == XC_FAMILY_HYB_LDA, gga = f.family == XC_FAMILY_GGA || f.family == XC_FAMILY_HYB_GGA, mgga = f.family == XC_FAMILY_MGGA || f.family == XC_FAMILY_HYB_MGGA; bool tau = mgga, lap = mgga && (f.flags & XC_FLAGS_NEEDS_LAPLACIAN), erf = f.flags & (XC_FLAGS_HYB_CAM | XC_FLAGS_HYB_LC), yuk = f.flags & (XC_FLAGS_HYB_CAMY | XC_FLAGS_HYB_LCY); c.nontrivial = hyb || mgga || (f.flags & XC_FLAGS_VV10); c.label("hybrid", hyb);
  if (id <= 0) { erf = yuk = hyb = gga = mgga = tau = lap = false; }
  bool g, t, l; is_gga_mgga(id, g, t, l); c.ok(g == gga && t == tau && l == lap, "is_gga_mgga"); c.ok(gradient_needed(id) == (gga || mgga), "gradient_needed"); c.ok(tau_needed(id) == tau, "tau_needed"); c.ok(laplacian_needed(id) == lap, "laplacian_needed"); c.ok(has_exc(id) == (id <= 0 || (f.flags & XC_FLAGS_HAVE_EXC)), "has_exc");
  c.ok(is_exchange(id) == (id == -1 || f.kind == XC_EXCHANGE || f.kind == XC_EXCHANGE_CORRELATION), "is_exchange"); c.ok(is_correlation(id) == (f.kind == XC_CORRELATION), "is_correlation"); c.ok(is_exchange_correlation(id) == (f.kind == XC_EXCHANGE_CORRELATION), "is_exchange_correlation"); c.ok(is_kinetic(id) == (f.kind == XC_KINETIC), "is_kinetic");
  c.ok(exact_exchange(id) == (id == -1 ? 1.0 : hyb ? f.a : 0.0), "exact_exchange"); bool e, y; is_range_separated(id, e, y); c.ok(e == erf && y == yuk, "is_range_separated"); c.ok(is_range_separated(id) == (erf || yuk), "is_range_separated (either)"); double w = 9, a = 9, b = 9; range_separation(id, w, a, b); c.ok(a == (id == -1 ? 1.0 : hyb ? f.a : 0.0), "full-range exchange"); c.ok(w == (erf || yuk ? f.w : 0.0), "range-separation parameter"); c.ok(b == (erf || yuk ? f.b : 0.0), "short-range exchange"); c.ok(is_supported(id), "is_supported");
  double nb = 9, nC = 9; bool v = needs_VV10(id, nb, nC); bool want = id > 0 && (f.flags & XC_FLAGS_VV10); c.ok(v == want && nb == (want ? f.nb : 0.0) && nC == (want ? f.nC : 0.0), "needs_VV10");
}
VT_CHECK(functional_names, 8000, 80000, "a pair, or text that names no functional") {
  std::set<int> all(ids().begin(), ids().end()); all.insert(0); all.insert(-1); auto one = [&](int & id, bool & good) { int how = s.range(0, 9); std::string t; good = true; if (how == 0) { id = 0; return shuffle(s, "none"); } if (how == 1) { id = -1; return shuffle(s, s.flag() ? "HF" : "hyb_x_hf"); } id = ids()[s.draw(ids().size())]; t = xcname(id); if (how == 2) return std::to_string(id); if (how == 3) { good = false; switch (s.range(0, 6)) { case 0: t += "x"; break; case 1: t = ""; break; case 2: t = std::to_string(id) + "x"; break; case 3: t = std::to_string(id) + ".0"; break; case 4: t = "9999999999999"; break; case 5: t = " " + t; break; default: { int z = s.range(1, 3000); t = std::to_string(z); good = all.count(z); id = z; } } 
      if (!good && xc_functional_get_number(t.c_str()) > 0 && !isdigit(t[0])) { good = true; id = xc_functional_get_number(t.c_str()); } return t; } return shuffle(s, t); };
  int x = 0, y = 0; bool gx, gy = true; std::string t = one(x, gx); bool pair = s.flag(); if (pair) t += "-" + one(y, gy); if (!pair) y = 0; c.d("'%s'", t.c_str()); c.nontrivial = pair || !gx; bool kin = gx && gy && (info(x).kind == XC_KINETIC || info(y).kind == XC_KINETIC); int px = 77, pc = 77; bool good = gx && gy && !kin; c.label("outcome", good ? "accepted" : kin ? "kinetic" : "refused"); bool threw = false; std::string why; try { parse_xc_func(px, pc, t); } catch (const std::exception & e) { threw = true; why = e.what(); } c.ok(threw == !good, good ? "a correct functional was refused: " + why : vt::fmt("an impossible functional was taken to be %d,%d", px, pc)); if (good) { c.ok(px == x, vt::fmt("exchange functional %d instead of %d", px, x)); c.ok(pc == y, vt::fmt("correlation functional %d instead of %d", pc, y)); }
}

// ---------------------------------------------------------------- elements
VT_CHECK(elements, 6000, 60000, "a symbol in unusual case or text that is no element") {
  static const char * sym = "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og";
  static std::vector<std::string> v; if (v.empty()) { v.push_back(""); std::istringstream is(sym); std::string w; while (is >> w) v.push_back(w); } std::map<std::string, int> low; for (size_t i = 1; i < v.size(); i++) { std::string w = v[i]; for (auto & ch : w) ch = (char) tolower(ch); low[w] = (int) i; }
  int how = s.range(0, 6); std::string t; bool good = true; int Z = 0; if (how <= 2) { Z = s.range(1, 118); t = v[Z]; if (how == 1) for (auto & ch : t) ch = s.flag() ? (char) toupper(ch) : (char) tolower(ch); c.ok(element_symbols[Z] == v[Z], vt::fmt("symbol of element %d", Z)); } else if (how == 3) { Z = s.range(0, 200); t = std::to_string(Z); } else if (how == 4) { t = ""; } else { int n = s.range(1, 5); for (int k = 0; k < n; k++) t += s.pick<char>({'a', 'H', 'e', '1', '2', '.', '-', 'x', 'C', ' ', 'o'}); std::string w = t; for (auto & ch : w) ch = (char) tolower(ch); if (low.count(w)) Z = low[w]; else { size_t p = 0; while (p < t.size() && t[p] == ' ') p++; if (p < t.size() && t[p] == '-') p++; bool num = p < t.size(); for (size_t q = p; q < t.size(); q++) num = num && isdigit(t[q]); if (num) { Z = atoi(t.c_str()); } else good = false; } } c.d("'%s'", t.c_str()); c.nontrivial = how == 1 || !good; bool threw = false; int got = -999; try { got = get_Z(t); } catch (const std::exception &) { threw = true; } c.ok(threw == !good, good ? "refused" : vt::fmt("taken to be Z=%d", got)); if (good) c.ok(got == Z, vt::fmt("Z=%d instead of %d", got, Z));
  // orbital counts by the Madelung rule
  int Z1 = s.range(0, 118), Z2 = s.range(0, 118), n[4] = {0, 0, 0, 0}; for (int z : {Z1, Z2}) { int e = 0; for (int nl = 1; nl <= 8; nl++) for (int l = std::min(3, (nl - 1) / 2); l >= 0; l--) { if (e >= z) break; e += 2 * (2 * l + 1); for (int m = 0; m <= l; m++) n[m]++; } } int g[4] = {9, 9, 9, 9}; num_orbs(Z1, Z2, g[0], g[1], g[2], g[3]); for (int m = 0; m < 4; m++) c.ok(g[m] == n[m], vt::fmt("Z1=%d Z2=%d: %d orbitals with |m|=%d instead of %d", Z1, Z2, g[m], m, n[m]));
}

// ---------------------------------------------------------------- parameter files and tables
VT_CHECK(parameters, 3000, 30000, "more than one number or malformed text") {
  prog::Dir dir; int n = s.range(1, 8); std::vector<double> want; std::string t; static const char * ws[] = {" ", "  ", "\n", "\t", " \n "}; for (int k = 0; k < n; k++) { double x = s.flag() ? s.sym(3) : s.sym(1) * std::pow(10.0, s.range(-20, 20)); want.push_back(x); t += (k ? ws[s.draw(5)] : "") + vt::fmt("%.17g", x); } if (s.flag(1, 3)) t += ws[s.draw(5)]; int bad = s.flag(1, 4) ? s.range(1, 4) : 0; if (bad == 1) t += " abc"; if (bad == 2) t = "abc " + t; if (bad == 3) t += "," + vt::fmt("%.17g", s.sym(3)); if (bad == 4) t = s.flag() ? " " : "missing-file.dat"; bool file = bad != 4 && s.flag(); std::string arg = t; if (file) { dir.write("par.dat", t); arg = dir.d + "/par.dat"; } c.d("%s %s", file ? "file" : "text", t.c_str()); c.nontrivial = n > 1 || bad; helfem::Vector r; bool threw = false; try { r = helfem::scf::parse_xc_params(arg); } catch (const std::exception &) { threw = true; } c.ok(threw == (bad != 0), bad ? "malformed parameters were accepted" : "parameters were refused"); if (!bad) { c.ok(r.size() == n, vt::fmt("%d parameters instead of %d", (int) r.size(), n)); for (int k = 0; k < n; k++) c.ok(r(k) == want[k], vt::fmt("parameter %d is %.17g instead of %.17g", k, r(k), want[k])); } if (s.flag(1, 10)) c.ok(helfem::scf::parse_xc_params("").size() == 0, "no parameters");
}
VT_CHECK(tables, 3000, 30000, "more than one row") {
  prog::Dir dir; int nr = s.range(0, 6), nc = s.range(1, 5); Eigen::MatrixXi M(nr, nc); std::string t; for (int i = 0; i < nr; i++) { if (s.flag(1, 6)) t += s.flag() ? "\n" : "  \n"; for (int j = 0; j < nc; j++) { M(i, j) = s.flag(1, 6) ? (int) s.draw(1ull << 32) : s.range(-9, 20); t += (s.flag(1, 3) ? "  " : j ? " " : "") + std::to_string(M(i, j)); if (s.flag(1, 5)) t += "\t"; if (j + 1 < nc && t.back() != '\t') t += " "; } if (s.flag(1, 8)) t += " \r"; if (i + 1 < nr || s.flag()) t += "\n"; } int bad = s.flag(1, 4) ? s.range(1, 5) : 0; if (bad && nr == 0) bad = 0; if (bad && t.size() && t.back() != '\n') t += "\n"; if (bad == 1) for (int j = 0; j <= nc; j++) t += "1 "; if (bad == 2) { for (int j = 0; j + 1 < nc; j++) t += "1 "; t += "x"; } if (bad == 3) { for (int j = 0; j < nc; j++) t += "1 "; t += "# comment"; } if (bad == 4) { for (int j = 0; j + 1 < nc; j++) t += "1 "; t += "1.5"; } if (bad == 5) { for (int j = 0; j + 1 < nc; j++) t += "1 "; t += "99999999999"; } dir.write("t.dat", t); c.d("%dx%d table, %s", nr, nc, bad ? "malformed" : "valid"); if (bad) c.d(" %d", bad); c.nontrivial = nr > 1; Eigen::MatrixXi G; bool threw = false; try { G = helfem::io::read_raw_ascii_imat(dir.d + "/t.dat"); } catch (const std::exception &) { threw = true; } c.ok(threw == (bad != 0), bad ? "a malformed table was accepted" : "a table was refused"); if (!bad) { c.ok(G.rows() == nr && (nr == 0 || G.cols() == nc), vt::fmt("table of size %dx%d", (int) G.rows(), (int) G.cols())); if (nr) c.ok(G == M, "table entries"); } if (s.flag(1, 8)) c.throws([&] { helfem::io::read_raw_ascii_imat(dir.d + "/none.dat"); }, "reading a missing table");
}

// ---------------------------------------------------------------- the programs
VT_CHECK(occupations, 120, 300, "an open shell or a refused table") {
  // occs.dat of the atomic and diatomic programs: the solver must occupy exactly the given blocks
  prog::Dir dir; bool dia = s.flag(), res = s.flag(1, 3); int sym = s.range(1, 2); std::vector<std::string> a; std::vector<std::vector<int>> keys; if (!dia) { if (sym == 1) for (int m : {0, 1, -1}) keys.push_back({m}); else { keys = {{0, 0}, {1, 0}, {1, 1}, {1, -1}}; } } else { bool homo = sym == 2; if (!homo) for (int m : {0, 1, -1}) keys.push_back({m}); else for (int m : {0, 1, -1}) for (int p : {1, -1}) keys.push_back({m, p}); }
  std::vector<int> na(keys.size()), nb(keys.size()); int A = 0, B = 0; for (size_t k = 0; k < keys.size(); k++) { na[k] = s.range(0, 2); nb[k] = res ? na[k] : s.range(0, na[k]); A += na[k]; B += nb[k]; } if (A == 0) { na[0] = 1; nb[0] = res; A = 1; B = nb[0]; } int bad = s.flag(1, 3) ? s.range(1, 9) : 0; int ne = A, nbe = B; std::vector<std::string> rows; std::vector<int> order; for (size_t k = 0; k < keys.size(); k++) order.push_back((int) k); for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[s.draw(k)]); for (int k : order) { if (!na[k] && !nb[k] && s.flag()) continue; std::string r = std::to_string(na[k]) + " " + std::to_string(nb[k]); for (int q : keys[k]) r += " " + std::to_string(q); rows.push_back(r); }
  std::string key0; for (int q : keys[0]) key0 += " " + std::to_string(q);
  switch (bad) { case 1: ne++; break; case 2: if (res) { ne++; nbe++; } else { ne++; } break; case 3: rows.push_back("0 0" + std::string(dia ? (sym == 2 ? " 7 1" : " 7") : (sym == 2 ? " 5 0" : " 7"))); break; case 4: rows.push_back("1 0"); ne++; break; case 5: rows.push_back("x 0" + key0); break; case 6: // a block given twice
      rows.clear(); rows.push_back("1 1" + key0); rows.push_back("1 1" + key0); ne = nbe = 2; break; case 7: rows.clear(); { std::string k1; for (int q : keys[1]) k1 += " " + std::to_string(q); rows.push_back("3 1" + key0); rows.push_back("-1 1" + k1); ne = 2; nbe = 2; } break; case 8: rows.clear(); rows.push_back("1 0 0 0 0"); break; case 9: break; }
  std::string t; for (auto & r : rows) t += r + "\n"; if (bad != 9) dir.write("occs.dat", t); a = {"--lmax=1", "--mmax=1", "--nelem=1", "--nnodes=5", "--method=none", "--symmetry=" + std::to_string(sym), "--readocc=1", "--restricted=" + std::to_string(res && bad != 7 ? 1 : 0), "--nela=" + std::to_string(ne), "--nelb=" + std::to_string(nbe), "--iguess=0"}; if (dia) { a.push_back("--Z1=5"); a.push_back(sym == 2 ? "--Z2=5" : "--Z2=6"); a.push_back("--Rbond=2.5"); if (sym == 2) a[0] = "--lmax=2"; a.push_back("--Rmax=12"); } else { a.push_back("--Z=9"); a.push_back("--Rmax=10"); }
  std::string line = t; for (auto & ch : line) if (ch == '\n') ch = ';'; c.d("%s %s occs.dat: %s bad=%d", dia ? "diatomic" : "atomic", prog::join(a).c_str(), line.c_str(), bad); c.nontrivial = bad || A != B; c.label("program", dia ? "diatomic" : "atomic"); c.label("table", bad ? "refused" : "accepted");
  auto r = prog::run(dia ? "prog_diatomic" : "prog_atomic", a, dir); if (bad) { c.ok(r.rc != 0, "a wrong occupation table was accepted"); c.ok(r.rc != 128 + SIGSEGV && r.rc > 0, vt::fmt("the program ended with %d", r.rc)); return; } c.ok(r.ok(), vt::fmt("exit %d: %s", r.rc, prog::tail(r.err).c_str()));
  // blocks with electrons as the solver saw them
  auto blk = prog::lines(r.out, "VSHIM blocks"); auto occ = prog::lines(r.out, "VSHIM occupied"); c.ok(blk.size() == 1 && occ.size() == 1, "no solver report"); std::map<std::string, double> got; { std::string o = occ[0]; size_t p = 0; while ((p = o.find('(', p)) != std::string::npos) { size_t q = o.find(')', p); std::string e = o.substr(p + 1, q - p - 1); p = q; size_t z = e.rfind(' '); size_t w = e.rfind(' ', z - 1); got[e.substr(0, w)] += atof(e.substr(w + 1, z - w - 1).c_str()); } } std::map<std::string, double> want; for (size_t k = 0; k < keys.size(); k++) for (int sp = 0; sp < (res ? 1 : 2); sp++) { int n = res ? na[k] + nb[k] : sp ? nb[k] : na[k]; if (!n) continue; want[vt::fmt("%d:", sp) + [&] { std::string z; for (int q : keys[k]) z += vt::fmt(" %d", q); return z; }()] = n; }
  std::string g; for (auto & x : got) g += vt::fmt("(%s)=%g ", x.first.c_str(), x.second); std::vector<double> ga, wa; for (auto & x : got) ga.push_back(x.second); for (auto & x : want) wa.push_back(x.second); std::sort(ga.begin(), ga.end()); std::sort(wa.begin(), wa.end()); c.ok(ga.size() == wa.size(), "occupied blocks: " + g); for (size_t k = 0; k < ga.size(); k++) c.ok(std::abs(ga[k] - wa[k]) < 1e-6, "block occupations: " + g);
  // identify the blocks
  for (size_t k = 0; k < keys.size(); k++) { int m = !dia && sym == 2 ? keys[k][1] : keys[k][0]; double w = na[k] + nb[k], h = 0; for (auto & x : got) { size_t p = x.first.find("m="); if (p == std::string::npos) continue; int mm = atoi(x.first.c_str() + p + 2); bool same = mm == m; if (!dia && sym == 2) { size_t q = x.first.find("l="); same = same && q != std::string::npos && atoi(x.first.c_str() + q + 2) == keys[k][0]; } if (same) h += x.second; } if (dia && sym == 2) { w = 0; for (size_t j = 0; j < keys.size(); j++) if (keys[j][0] == m) w += na[j] + nb[j]; } c.ok(std::abs(h - w) < 1e-6, vt::fmt("block %d holds %g electrons instead of %g: %s", (int) k, h, w, g.c_str())); }
}
VT_CHECK(program_options, 160, 300, "any") {
  // every program refuses unknown, malformed and out-of-domain input instead of computing something else
  prog::Dir dir; static const char * progs[] = {"prog_atomic", "prog_diatomic", "prog_gensap"}; int w = (int) s.draw(3); std::vector<std::string> a; if (w == 1) a = {"--Z1=1", "--Z2=1", "--Rbond=1.4", "--lmax=1", "--mmax=0"}; else if (w == 0) a = {"--Z=2", "--lmax=0", "--mmax=0"}; else a = {"--Z=2"}; for (auto x : {"--nelem=1", "--nnodes=4", "--method=none"}) a.push_back(x); c.nontrivial = true; static const char * bad[] = {"--nosuchoption=1", "--nelem=two", "--nnodes=4.5", "--Rmax=far", "--method=garbage", "--method=lda_x-nonsense", "--method=lda_k_tf", "--nela=1 ", "stray=--Z", "--Z=Xx", "--Z=2x", "--primbas=1", "--nnodes=1", "--grid=9", "--nela=-1", "--M=4"}; int k = s.range(0, 15); std::string b = bad[k]; if (w == 1) { if (b.compare(0, 4, "--Z=") == 0) b = "--Z1=" + b.substr(4); } if (w == 2 && (b.compare(0, 3, "--M") == 0 || b == "--nela=-1" || b == "--nela=1 ")) b = "--lmax=x"; if (b == "stray=--Z") b = w == 1 ? "--Z1" : "--Z"; for (size_t i = 0; i < a.size();) { size_t e = b.find('='); if (e != std::string::npos && a[i].compare(0, e + 1, b, 0, e + 1) == 0) a.erase(a.begin() + i); else i++; } a.push_back(b); c.d("%s %s", progs[w], prog::join(a).c_str()); c.label("program", progs[w]); auto r = prog::run(progs[w], a, dir); c.ok(r.rc != 0, "accepted; output ends " + prog::tail(r.out)); c.ok(r.rc != -1 && r.rc != 128 + SIGSEGV, vt::fmt("ended with %d", r.rc)); c.ok(r.out.find("VSHIM result") == std::string::npos, "computed something");
}
VT_MAIN()
