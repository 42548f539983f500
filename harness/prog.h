// Running the HelFEM programs in a scratch directory.
#pragma once
#include "vt.h"
#include <filesystem>
#include <fstream>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
namespace prog {
struct Dir { std::string d; Dir() { char b[] = "/tmp/vtprogXXXXXX"; if (!mkdtemp(b)) throw vt::Reject(); d = b; } ~Dir() { std::error_code e; std::filesystem::remove_all(d, e); } Dir(const Dir &) = delete; void write(const std::string & n, const std::string & t) const { std::ofstream(d + "/" + n, std::ios::binary) << t; } std::string read(const std::string & n) const { std::ifstream f(d + "/" + n, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), {}); } bool has(const std::string & n) const { return std::filesystem::exists(d + "/" + n); } };
// a finished run: exit status, 128+signal, or -1 on timeout; standard output and standard error
struct Run { int rc = -1; std::string out, err; bool ok() const { return rc == 0; } };
inline Run run(const std::string & name, const std::vector<std::string> & args, const Dir & dir, const std::vector<std::pair<std::string, std::string>> & env = {}, double limit = 120) {
  const char * bin = getenv("VT_BIN"); if (!bin) throw vt::Fail("VT_BIN is not set"); std::string path = std::string(bin) + "/" + name; int po[2], pe[2]; if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) throw vt::Reject(); pid_t pid = fork(); if (pid < 0) throw vt::Reject();
  if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(dir.d.c_str())) _exit(127); dup2(po[1], 1); dup2(pe[1], 2); int in = open("/dev/null", O_RDONLY); dup2(in, 0); setenv("OMP_NUM_THREADS", "1", 0); setenv("OPENBLAS_NUM_THREADS", "1", 1); for (auto & e : env) setenv(e.first.c_str(), e.second.c_str(), 1); std::vector<char *> av; av.push_back((char *) path.c_str()); for (auto & a : args) av.push_back((char *) a.c_str()); av.push_back(nullptr); execv(path.c_str(), av.data()); _exit(127); }
  close(po[1]); close(pe[1]); Run r; double end = vt::now() + limit; bool o = true, e = true; char buf[65536];
  while (o || e) { struct pollfd p[2] = {{o ? po[0] : -1, POLLIN, 0}, {e ? pe[0] : -1, POLLIN, 0}}; double left = end - vt::now(); if (left <= 0) { kill(pid, SIGKILL); break; } poll(p, 2, (int) std::min(1000.0, left * 1000 + 1)); if (o && (p[0].revents)) { ssize_t n = read(po[0], buf, sizeof buf); if (n <= 0) o = false; else r.out.append(buf, n); } if (e && (p[1].revents)) { ssize_t n = read(pe[0], buf, sizeof buf); if (n <= 0) e = false; else r.err.append(buf, n); } }
  close(po[0]); close(pe[0]); int st = 0; waitpid(pid, &st, 0); if (vt::now() >= end) r.rc = -1; else if (WIFEXITED(st)) r.rc = WEXITSTATUS(st); else r.rc = 128 + WTERMSIG(st); if (r.rc == 127) throw vt::Fail("cannot run " + path); return r; }
inline std::string join(const std::vector<std::string> & a) { std::string s; for (auto & x : a) s += (s.empty() ? "" : " ") + x; return s; }
inline std::string tail(const std::string & t, size_t n = 300) { std::string u = t.size() > n ? t.substr(t.size() - n) : t; for (auto & ch : u) if (ch == '\n') ch = '|'; return u; }
// the text after the first (or last) occurrence of a key up to the end of the line
inline bool after(const std::string & out, const std::string & key, std::string & v, bool last = false) { size_t p = last ? out.rfind(key) : out.find(key); if (p == std::string::npos) return false; p += key.size(); size_t q = out.find('\n', p); v = out.substr(p, q == std::string::npos ? q : q - p); return true; }
inline bool number(const std::string & out, const std::string & key, double & x, bool last = false) { std::string v; if (!after(out, key, v, last)) return false; const char * b = v.c_str(); while (*b && (*b == ' ' || *b == '=' || *b == ':')) b++; char * e; x = strtod(b, &e); return e != b; }
// whole lines containing a key
inline std::vector<std::string> lines(const std::string & out, const std::string & key) { std::vector<std::string> r; std::istringstream is(out); std::string l; while (std::getline(is, l)) if (l.find(key) != std::string::npos) r.push_back(l); return r; }
}
