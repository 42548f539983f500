// Property-based testing runner: choice-tape generators, forked workers,
// shrinking, replay files, evidence. See DESIGN.md.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace vt {
  struct Reject {};
  struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };

  inline std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
  inline std::string fmt(const char * f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
  }

  inline uint64_t splitmix(uint64_t & x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  inline uint64_t fnv(const void * p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char * c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
  }
  inline uint64_t hstr(const std::string & s) { return fnv(s.data(), s.size()); }

  // Choice tape. Every random decision is one bounded integer; value 0 is the
  // "simplest" outcome, so shrinking lowers or removes tape entries.
  class Source {
  public:
    std::vector<uint64_t> tape;
    size_t pos = 0;
    bool replay = false;
    uint64_t st = 1;
    static Source random(uint64_t seed) { Source s; s.st = seed; for (int i = 0; i < 4; i++) splitmix(s.st); return s; }
    static Source from(const std::vector<uint64_t> & t) { Source s; s.tape = t; s.replay = true; return s; }
    uint64_t draw(uint64_t n) {   // uniform in [0,n)
      if (n <= 1) return 0;
      uint64_t v;
      if (replay) { v = pos < tape.size() ? tape[pos] : 0; if (v >= n) v = v % n; if (pos < tape.size()) tape[pos] = v; else tape.push_back(v); }
      else { v = splitmix(st) % n; tape.push_back(v); }
      pos++;
      return v;
    }
    int range(int lo, int hi) { return lo + (int) draw((uint64_t) (hi - lo) + 1); }
    // real in [lo,hi]; resolution 2^-30
    double real(double lo, double hi) { return lo + (hi - lo) * ((double) draw(1ULL << 30) / (double) ((1ULL << 30) - 1)); }
    double logreal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
    // symmetric, simplest is 0
    double sym(double a) { uint64_t v = draw(1ULL << 30); double x = (double) (v >> 1) / (double) ((1ULL << 29) - 1); return (v & 1) ? -a * x : a * x; }
    bool flag(int num = 1, int den = 2) { return draw(den) >= (uint64_t) (den - num); }
    template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    template <typename T> T pick(const std::vector<T> & l) { return l[draw(l.size())]; }
  };

  struct Ctx {
    bool nontrivial = false;
    std::string desc;
    std::map<std::string, std::string> labels;
    uint64_t evals = 0;
    void label(const std::string & k, const std::string & v) { labels[k] = v; }
    void label(const std::string & k, long v) { labels[k] = std::to_string(v); }
    void d(const char * f, ...) __attribute__((format(printf, 2, 3))) {
      char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
      desc += buf;
    }
    void fail(const std::string & m) const { throw Fail(m); }
    void ok(bool c, const std::string & m) { evals++; if (!c) fail(m); }
    // |got-want| <= abs + rel*|want|, NaN fails
    void close(double got, double want, double atol, double rtol, const std::string & what) {
      evals++;
      if (!(std::abs(got - want) <= atol + rtol * std::abs(want)))
        fail(fmt("%s: got %.17g, expected %.17g (difference %.3g, allowed %.3g)", what.c_str(), got, want, got - want, atol + rtol * std::abs(want)));
    }
    template <typename F> void throws(F f, const std::string & what) {
      evals++;
      bool t = false;
      try { f(); } catch (const Fail &) { throw; } catch (const Reject &) { throw; } catch (const std::exception &) { t = true; } catch (...) { t = true; }
      if (!t) fail(what + ": expected an exception, none was thrown");
    }
  };

  using Fn = void (*)(Source &, Ctx &);
  struct Sub { const char * name; Fn fn; long nq, nt; const char * rule; int limit; };
  inline std::vector<Sub> & subs() { static std::vector<Sub> v; return v; }
  struct Reg { Reg(const char * n, Fn f, long q, long t, const char * r, int limit = 0) { subs().push_back({n, f, q, t, r, limit}); } };
// quick count, thorough count, non-trivial rule
#define VT_CHECK(name, nq, nt, rule) \
  static void vt_fn_##name(vt::Source & s, vt::Ctx & c); \
  static vt::Reg vt_reg_##name(#name, vt_fn_##name, nq, nt, rule); \
  static void vt_fn_##name(vt::Source & s, vt::Ctx & c)

  enum Outcome { PASS = 0, REJ = 1, FAILED = 2 };
  inline Outcome run_one(const Sub & sub, Source & s, Ctx & c, std::string & msg) {
    try { sub.fn(s, c); return PASS; }
    catch (const Reject &) { return REJ; }
    catch (const Fail & e) { msg = e.what(); return FAILED; }
    catch (const std::exception & e) { msg = std::string("unexpected exception: ") + e.what(); return FAILED; }
    catch (...) { msg = "unexpected exception of unknown type"; return FAILED; }
  }

  inline std::string jesc(const std::string & s) {
    std::string o;
    for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
      else if (ch == '\n') o += "\\n";
      else if (ch < 0x20 || ch > 0x7e) o += fmt("\\u%04x", ch);
      else o += (char) ch;
    }
    return o;
  }
  inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  inline void silence() {
    // the library prints warnings and progress; keep them out of the report
    int fd = open("/dev/null", O_WRONLY);
    if (!getenv("VT_NOISY")) { dup2(fd, 1); dup2(fd, 2); }
    close(fd);
  }
  inline void limits() {
    struct rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
  }

  struct Shared {
    std::atomic<long> next;
    std::atomic<int> stop;
    std::atomic<int> subfail[256];
    struct W { std::atomic<long> sub, idx; std::atomic<double> t0; } w[64];
  };

  struct Failure { int sub; long idx; std::vector<uint64_t> tape; std::string msg; std::string desc; };

  // Runs fn in a forked child; returns true and fills text if the child wrote a result
  inline int fork_case(const Sub & sub, const std::vector<uint64_t> & tape, double limit, std::string & msg, std::vector<uint64_t> & used, std::string & desc) {
    int p[2]; if (pipe(p)) return REJ;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]); silence(); limits();
      Source s = Source::from(tape); Ctx c; std::string m;
      Outcome o = run_one(sub, s, c, m);
      std::string out = fmt("%d %zu", (int) o, std::min(s.pos, s.tape.size()));
      for (size_t i = 0; i < std::min(s.pos, s.tape.size()); i++) out += fmt(" %llu", (unsigned long long) s.tape[i]);
      out += "\n" + c.desc + "\x01" + m;
      size_t off = 0; while (off < out.size()) { ssize_t n = write(p[1], out.data() + off, out.size() - off); if (n <= 0) break; off += n; }
      _exit(0);
    }
    close(p[1]);
    std::string out; char buf[65536];
    double t0 = now(); bool killed = false;
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    while (true) {
      ssize_t n = read(p[0], buf, sizeof buf);
      if (n > 0) { out.append(buf, n); continue; }
      if (n == 0) break;
      if (now() - t0 > limit) { kill(pid, SIGKILL); killed = true; break; }
      usleep(500);
    }
    close(p[0]);
    int st; waitpid(pid, &st, 0);
    used = tape;
    if (killed) { msg = fmt("hang: case did not finish within %.0f s", limit); return FAILED; }
    if (WIFSIGNALED(st)) { msg = fmt("crash: process ended by signal %d", WTERMSIG(st)); return FAILED; }
    if (out.empty()) { msg = fmt("crash: process exited with status %d without a verdict", WEXITSTATUS(st)); return FAILED; }
    size_t nl = out.find('\n');
    std::istringstream is(out.substr(0, nl)); int o; size_t n; is >> o >> n; used.clear();
    for (size_t i = 0; i < n; i++) { unsigned long long v; is >> v; used.push_back(v); }
    std::string rest = out.substr(nl + 1); size_t sep = rest.rfind('\x01');
    desc = rest.substr(0, sep); msg = rest.substr(sep + 1);
    return o;
  }

  // Greedy tape shrinking: every candidate runs in a child process.
  inline void shrink(const Sub & sub, Failure & f, double budget, double limit) {
    double t0 = now();
    auto attempt = [&](const std::vector<uint64_t> & t) {
      std::string m, d; std::vector<uint64_t> used;
      if (fork_case(sub, t, limit, m, used, d) != FAILED) return false;
      // strictly simpler only (shorter, or lexicographically smaller)
      if (used.size() > f.tape.size() || (used.size() == f.tape.size() && !(used < f.tape))) return false;
      f.tape = used; f.msg = m; if (!d.empty()) f.desc = d; return true;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
      progress = false;
      for (size_t blk : {8, 4, 2, 1})
        for (size_t i = 0; i + blk <= f.tape.size() && now() - t0 < budget;) {
          auto t = f.tape; t.erase(t.begin() + i, t.begin() + i + blk);
          if (attempt(t)) progress = true; else i++;
        }
      for (size_t i = 0; i < f.tape.size() && now() - t0 < budget; i++) {
        if (!f.tape[i]) continue;
        auto t = f.tape; t[i] = 0;
        if (attempt(t)) { progress = true; continue; }
        uint64_t lo = 0, hi = f.tape[i];
        while (hi - lo > 1 && now() - t0 < budget) {
          uint64_t mid = lo + (hi - lo) / 2; t = f.tape; if (i >= t.size()) break; t[i] = mid;
          if (attempt(t)) { progress = true; if (i >= f.tape.size()) break; hi = f.tape[i]; } else lo = mid;
        }
      }
    }
  }

  struct Known { std::string sub, needle, text; };
  // known-findings file: lines "finding: property=<id> sub=<name> match=<text> :: <description>"
  inline std::vector<Known> load_known(const std::string & file, const std::string & prop) {
    std::vector<Known> v;
    FILE * f = fopen(file.c_str(), "r"); if (!f) return v;
    char buf[8192];
    while (fgets(buf, sizeof buf, f)) {
      std::string l = buf; while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
      if (l.compare(0, 9, "finding: ")) continue;
      auto get = [&](const std::string & k, const std::string & endm) {
        size_t a = l.find(k); if (a == std::string::npos) return std::string();
        a += k.size(); size_t b = l.find(endm, a); return l.substr(a, b == std::string::npos ? b : b - a);
      };
      if (get("property=", " ") != prop) continue;
      Known k; k.sub = get("sub=", " "); k.needle = get("match=", " :: "); k.text = get(" :: ", "\x02");
      if (!k.sub.empty() && !k.needle.empty()) v.push_back(k);
    }
    fclose(f); return v;
  }

  inline int main_(int argc, char ** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; i++) {
      std::string x = argv[i]; size_t e = x.find('=');
      if (x.compare(0, 2, "--") || e == std::string::npos) { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
      a[x.substr(2, e - 2)] = x.substr(e + 1);
    }
    const std::string prop = a.count("prop") ? a["prop"] : "P00", tier = a.count("tier") ? a["tier"] : "quick";
    const uint64_t seed = strtoull(a.count("seed") ? a["seed"].c_str() : "1", 0, 10);
    const double cap = a.count("budget") ? atof(a["budget"].c_str()) : (tier == "quick" ? 420 : 3600);
    const double limit = a.count("limit") ? atof(a["limit"].c_str()) : 180;
    const std::string only = a.count("only") ? a["only"] : "";
    const std::string rdir = a.count("replays") ? a["replays"] : "/verif/replays";
    const double scale = a.count("scale") ? atof(a["scale"].c_str()) : 1.0;
    auto & S = subs();
    limits();

    if (a.count("replay")) {
      FILE * f = fopen(a["replay"].c_str(), "r"); if (!f) { perror("replay"); return 2; }
      char nm[256]; std::vector<uint64_t> t; char line[1 << 16]; std::string name;
      while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "sub %255s", nm) == 1) name = nm;
        if (!strncmp(line, "tape", 4)) { std::istringstream is(line + 4); unsigned long long v; while (is >> v) t.push_back(v); }
      }
      fclose(f);
      for (auto & sub : S) if (name == sub.name) {
        std::string m, d; std::vector<uint64_t> u;
        int o = fork_case(sub, t, limit, m, u, d);
        printf("case: %s\noutcome: %s %s\n", d.c_str(), o == FAILED ? "FAILED" : o == PASS ? "passed" : "rejected", m.c_str());
        if (o == FAILED) { printf("VIOLATION property=%s replay=%s\n", prop.c_str(), a["replay"].c_str()); return 1; }
        return 0;
      }
      fprintf(stderr, "unknown sub %s\n", name.c_str()); return 2;
    }

    double tstart = now();
    // task list: interleave the sub-checks so that a time cap thins all of them alike
    std::vector<long> cnt(S.size());
    struct Task { int sub; long idx; double key; };
    std::vector<Task> tasks;
    for (size_t i = 0; i < S.size(); i++) {
      if (!only.empty() && (","+only+",").find(std::string(",") + S[i].name + ",") == std::string::npos) continue;
      long n = tier == "quick" ? S[i].nq : S[i].nt; n = std::max(1L, (long) std::lround(n * scale)); if ((tier == "quick" ? S[i].nq : S[i].nt) == 0) n = 0;
      for (long k = 0; k < n; k++) tasks.push_back({(int) i, k, (k + 0.5) / n});
    }
    std::stable_sort(tasks.begin(), tasks.end(), [](const Task & x, const Task & y) { return x.key < y.key; });

    Shared * sh = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *) sh, 0, sizeof(Shared));
    int NW = a.count("workers") ? atoi(a["workers"].c_str()) : (int) sysconf(_SC_NPROCESSORS_ONLN);
    NW = std::max(1, std::min(NW, 16));
    char tmpl[] = "/tmp/vt.XXXXXX"; char * td = mkdtemp(tmpl); std::string tdir = td;
    auto case_seed = [&](int sub, long idx) {
      uint64_t h = seed * 0x9e3779b97f4a7c15ULL + 0x1234567; h = fnv(S[sub].name, strlen(S[sub].name), fnv(&h, 8)); h = fnv(&idx, sizeof idx, h); return h;
    };
    int gen = 0;
    std::map<pid_t, int> live;
    auto spawn = [&](int w) {
      fflush(stdout); fflush(stderr);
      std::string fn = tdir + fmt("/out.%d.%d", w, gen++);
      sh->w[w].sub = -1;
      pid_t pid = fork();
      if (pid) { live[pid] = w; return; }
      signal(SIGTERM, SIG_DFL);
      FILE * out = fopen(fn.c_str(), "w");
      int keep = dup(fileno(out)); FILE * o2 = fdopen(keep, "w"); fclose(out);
      silence();
      while (!sh->stop) {
        long t = sh->next++;
        if (t >= (long) tasks.size()) break;
        const Task & tk = tasks[t];
        if (sh->subfail[tk.sub] >= 3) continue;
        sh->w[w].idx = tk.idx; sh->w[w].t0 = now(); sh->w[w].sub = tk.sub;
        Source s = Source::random(case_seed(tk.sub, tk.idx)); Ctx c; std::string m;
        double ct0 = now();
        Outcome o = run_one(S[tk.sub], s, c, m);
        sh->w[w].sub = -1;
        uint64_t h = fnv(s.tape.data(), s.tape.size() * 8, hstr(S[tk.sub].name));
        std::string rec = fmt("%d %ld %d %d %llu %llu %.4f", tk.sub, tk.idx, (int) o, c.nontrivial ? 1 : 0, (unsigned long long) h, (unsigned long long) c.evals, now() - ct0);
        std::string lab; for (auto & kv : c.labels) lab += kv.first + "=" + kv.second + ";";
        rec += "\x01" + lab + "\x01" + c.desc;
        if (o == FAILED) {
          sh->subfail[tk.sub]++;
          rec += "\x01" + m + "\x01"; for (auto v : s.tape) rec += fmt("%llu ", (unsigned long long) v);
        }
        for (auto & ch : rec) if (ch == '\n') ch = ' ';
        fprintf(o2, "%s\n", rec.c_str()); fflush(o2);
      }
      fclose(o2);
      _exit(0);
    };
    for (int w = 0; w < NW; w++) spawn(w);
    std::vector<Failure> fails;
    bool capped = false;
    while (!live.empty()) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0 && live.count(p)) {
        int w = live[p]; live.erase(p);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || sh->w[w].sub >= 0) {
          long sub = sh->w[w].sub, idx = sh->w[w].idx;
          if (sub >= 0) {
            Failure f; f.sub = (int) sub; f.idx = idx; f.msg = WIFSIGNALED(st) ? fmt("crash: process ended by signal %d", WTERMSIG(st)) : "crash: process exited during a case";
            fails.push_back(f); sh->subfail[sub]++;
          }
          spawn(w);
        }
        continue;
      }
      for (auto & kv : std::map<pid_t, int>(live)) {
        int w = kv.second;
        if (sh->w[w].sub >= 0 && now() - sh->w[w].t0 > limit) kill(kv.first, SIGKILL);
      }
      if (!capped && now() - tstart > cap) { capped = true; sh->stop = 1; }
      usleep(2000);
    }
    // collect
    struct Stat { long run = 0, rej = 0, fail = 0; std::set<uint64_t> nt; std::map<std::string, long> lab; std::vector<std::string> samples; double sec = 0, mx = 0; unsigned long long evals = 0; };
    std::vector<Stat> st(S.size());
    for (int g = 0; g < gen; g++) for (int w = 0; w < NW; w++) {
      FILE * f = fopen((tdir + fmt("/out.%d.%d", w, g)).c_str(), "r"); if (!f) continue;
      std::string line; int ch;
      auto handle = [&](const std::string & l) {
        std::vector<std::string> parts; size_t p = 0;
        while (true) { size_t q = l.find('\x01', p); parts.push_back(l.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
        int sub, o, nt; long idx; unsigned long long h, ev; double sec;
        if (sscanf(parts[0].c_str(), "%d %ld %d %d %llu %llu %lf", &sub, &idx, &o, &nt, &h, &ev, &sec) != 7) return;
        Stat & s = st[sub]; s.sec += sec; s.mx = std::max(s.mx, sec); s.evals += ev;
        if (o == REJ) { s.rej++; return; }
        s.run++;
        if (nt) { if (s.nt.insert(h).second && s.samples.size() < 3 && parts.size() > 2) s.samples.push_back(parts[2]); }
        if (parts.size() > 1) { std::istringstream is(parts[1]); std::string kv; while (std::getline(is, kv, ';')) if (!kv.empty()) s.lab[kv]++; }
        if (o == FAILED) {
          s.fail++; Failure F; F.sub = sub; F.idx = idx; F.msg = parts.size() > 3 ? parts[3] : ""; F.desc = parts.size() > 2 ? parts[2] : "";
          if (parts.size() > 4) { std::istringstream is(parts[4]); unsigned long long v; while (is >> v) F.tape.push_back(v); }
          fails.push_back(F);
        }
      };
      while ((ch = fgetc(f)) != EOF) { if (ch == '\n') { handle(line); line.clear(); } else line += (char) ch; }
      fclose(f);
    }
    { std::string cmd = "rm -rf " + tdir; if (tdir.compare(0, 8, "/tmp/vt.") == 0 && system(cmd.c_str())) {} }

    // a crashing case never wrote its tape: regenerate it by a random-mode run in a child is not possible, so
    // draw it again with recording up to the crash through a shared buffer
    for (auto & f : fails) if (f.tape.empty()) {
      uint64_t * buf = (uint64_t *) mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pid_t pid = fork();
      if (pid == 0) {
        silence();
        // long tape of fresh random numbers consumed in replay mode: identical values via the modulus
        Source s = Source::random(case_seed(f.sub, f.idx));
        std::vector<uint64_t> raw; uint64_t x = s.st; for (int i = 0; i < 60000; i++) raw.push_back(splitmix(x));
        for (size_t i = 0; i < raw.size(); i++) buf[i + 1] = raw[i];
        buf[0] = raw.size();
        _exit(0);
      }
      int q; waitpid(pid, &q, 0);
      f.tape.assign(buf + 1, buf + 1 + buf[0]);
      munmap(buf, 1 << 20);
    }
    auto known = load_known(a.count("known") ? a["known"] : "", prop);
    int nviol = 0; std::set<std::string> knownhit; std::vector<std::string> vlist; std::set<int> reported;
    int flaky = 0;
    mkdir(rdir.c_str(), 0755);
    std::stable_sort(fails.begin(), fails.end(), [](const Failure & x, const Failure & y) { return x.sub != y.sub ? x.sub < y.sub : x.tape.size() < y.tape.size(); });
    for (auto & f : fails) {
      const Sub & sub = S[f.sub];
      auto match = [&](const std::string & m) -> const Known * { for (auto & k : known) if (k.sub == sub.name && m.find(k.needle) != std::string::npos) return &k; return nullptr; };
      if (const Known * k = match(f.msg)) { knownhit.insert(k->text + " [" + k->sub + "]"); continue; }
      if (reported.count(f.sub)) continue;
      int rep = 0; std::string m, d; std::vector<uint64_t> u;
      double lim = std::min(limit, 120.0);
      for (int k = 0; k < 3; k++) if (fork_case(sub, f.tape, lim, m, u, d) == FAILED) rep++; else break;
      if (rep < 3) { flaky++; printf("NOTE: %s/%s case %ld failed once but not on replay: %s\n", prop.c_str(), sub.name, f.idx, f.msg.c_str()); continue; }
      f.msg = m; if (!d.empty()) f.desc = d; if (u.size() < f.tape.size()) f.tape = u;
      shrink(sub, f, tier == "quick" ? 30 : 120, lim);
      if (const Known * k = match(f.msg)) { knownhit.insert(k->text + " [" + k->sub + "]"); continue; }
      reported.insert(f.sub);
      std::string path = rdir + "/" + prop + "_" + sub.name + ".replay";
      if (FILE * o = fopen(path.c_str(), "w")) {
        fprintf(o, "property %s\nsub %s\nmessage %s\ncase %s\ntape", prop.c_str(), sub.name, f.msg.c_str(), f.desc.c_str());
        for (auto v : f.tape) fprintf(o, " %llu", (unsigned long long) v);
        fprintf(o, "\nrun: python3 /verif/check.py %s --replay %s\n", prop.c_str(), path.c_str()); fclose(o);
      }
      printf("FAILED %s/%s: %s\n  case: %s\n", prop.c_str(), sub.name, f.msg.c_str(), f.desc.c_str());
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
      vlist.push_back(std::string(sub.name) + ": " + f.msg);
      nviol++;
    }
    for (auto & k : knownhit) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.c_str());

    long run = 0, rej = 0, nt = 0; unsigned long long ev = 0;
    for (auto & s : st) { run += s.run; rej += s.rej; nt += s.nt.size(); ev += s.evals; }
    double wall = now() - tstart;
    for (size_t i = 0; i < S.size(); i++) if (st[i].run + st[i].rej)
      printf("  %-34s cases %6ld rejected %5ld non-trivial %6zu comparisons %10llu time %8.2f s (max %.2f)\n", S[i].name, st[i].run, st[i].rej, st[i].nt.size(), st[i].evals, st[i].sec, st[i].mx);
    printf("%s %s: %ld cases, %ld non-trivial distinct, %d violations, %.1f s%s\n", prop.c_str(), tier.c_str(), run, nt, nviol, wall, capped ? " (time cap reached)" : "");
    if (a.count("stats")) for (size_t i = 0; i < S.size(); i++) { printf("%s:", S[i].name); for (auto & kv : st[i].lab) printf(" %s:%ld", kv.first.c_str(), kv.second); printf("\n"); }
    if (a.count("evidence")) {
      FILE * o = fopen(a["evidence"].c_str(), "w");
      if (o) {
        std::string rule, samples, classes, per;
        for (size_t i = 0; i < S.size(); i++) {
          if (!(st[i].run + st[i].rej)) continue;
          rule += std::string(rule.empty() ? "" : " | ") + S[i].name + ": " + S[i].rule;
          for (auto & x : st[i].samples) samples += std::string(samples.empty() ? "" : ", ") + "\"" + jesc(std::string(S[i].name) + ": " + x.substr(0, 600)) + "\"";
          per += std::string(per.empty() ? "" : ", ") + fmt("\"%s\": {\"cases\": %ld, \"rejected\": %ld, \"nontrivial\": %zu, \"comparisons\": %llu, \"classes\": {", S[i].name, st[i].run, st[i].rej, st[i].nt.size(), st[i].evals);
          bool first = true; int nl = 0;
          for (auto & kv : st[i].lab) { if (nl++ > 60) break; per += std::string(first ? "" : ", ") + "\"" + jesc(kv.first) + "\": " + std::to_string(kv.second); first = false; }
          per += "}}";
        }
        std::string viol, assumptions;
        if (const char * as = getenv("VT_ASSUMPTIONS")) assumptions = "\"" + jesc(as) + "\"";
        for (auto & v : vlist) viol += std::string(viol.empty() ? "" : ", ") + "\"" + jesc(v) + "\"";
        std::string kn; for (auto & k : knownhit) kn += std::string(kn.empty() ? "" : ", ") + "\"" + jesc(k) + "\"";
        fprintf(o, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n", prop.c_str(), tier.c_str(), (unsigned long long) seed);
        fprintf(o, " \"coverage\": {\"evaluations\": %ld, \"distinct_nontrivial\": %ld, \"rejected\": %ld, \"comparisons\": %llu, \"time_cap_reached\": %s, \"unreproduced_failures\": %d,\n  \"rule\": \"%s\",\n  \"samples\": [%s],\n  \"per_check\": {%s}},\n",
                run, nt, rej, ev, capped ? "true" : "false", flaky, jesc(rule).c_str(), samples.c_str(), per.c_str());
        fprintf(o, " \"assumptions\": [%s],\n \"known_findings\": [%s],\n \"wall_s\": %.2f,\n \"violations\": %d,\n \"violation_list\": [%s]\n}\n", assumptions.c_str(), kn.c_str(), wall, nviol, viol.c_str());
        fclose(o);
      }
    }
    return nviol ? 1 : 0;
  }
}
#define VT_MAIN() int main(int argc, char ** argv) { return vt::main_(argc, argv); }
