// Running the program-level classes in-process on scratch files.
#ifndef VERIF_RUN_H
#define VERIF_RUN_H
#include "mc.h"
#include <csetjmp>
#include <travatar/config-base.h>
namespace run {
inline std::string dir() {
    static std::string d;
    if (d.empty()) { const char * v = getenv("VERIF_DIR"); std::string base = (v ? std::string(v) : std::string("/tmp")) + "/.work"; mkdir(base.c_str(), 0755); base += "/scratch"; mkdir(base.c_str(), 0755); d = base + "/" + std::to_string(getpid()); mkdir(d.c_str(), 0755); d += "/"; }
    return d;
}
inline std::string put(const std::string & name, const std::string & text) { std::string p = dir() + name; FILE * f = fopen(p.c_str(), "wb"); if (!f) throw std::runtime_error("scratch file"); fwrite(text.data(), 1, text.size(), f); fclose(f); return p; }
inline std::string get(const std::string & name) { std::ifstream in((dir() + name).c_str(), std::ios::binary); std::ostringstream o; o << in.rdbuf(); return o.str(); }
struct Capture {   // cin, cout and cerr
    std::istringstream in; std::ostringstream out, err; std::streambuf *a, *b, *d;
    Capture(const std::string & input = "") : in(input) { a = std::cin.rdbuf(in.rdbuf()); b = std::cout.rdbuf(out.rdbuf()); d = std::cerr.rdbuf(err.rdbuf()); std::cin.clear(); std::cout.clear(); std::cerr.clear(); }
    ~Capture() { std::cin.rdbuf(a); std::cout.rdbuf(b); std::cerr.rdbuf(d); std::cin.clear(); }
};
inline std::vector<std::string> lines(const std::string & s) { std::vector<std::string> r; std::istringstream is(s); std::string l; while (getline(is, l)) r.push_back(l); return r; }
inline std::vector<std::string> split(const std::string & s, char sep) { std::vector<std::string> r(1); for (size_t i = 0; i < s.size(); i++) if (s[i] == sep) r.push_back(""); else r.back() += s[i]; return r; }
// exit() inside the code under test ends the call, not the worker
inline jmp_buf & jb() { static jmp_buf b; return b; }
inline int & armed() { static int a = 0; return a; }
template<class F> int guarded(F f) { armed() = 1; int code = setjmp(jb()); if (code == 0) { f(); armed() = 0; return 0; } armed() = 0; return code - 1; }   // 0, or the exit code
template<class C> void config(C & conf, const std::vector<std::string> & args) {
    std::vector<std::string> a(1, "prog"); a.insert(a.end(), args.begin(), args.end()); std::vector<char*> p; for (size_t i = 0; i < a.size(); i++) p.push_back(const_cast<char*>(a[i].c_str())); p.push_back(0);
    conf.LoadConfig((int)a.size(), &p[0], false);
}
} // namespace run
#ifdef RUN_CATCH_EXIT
#include <dlfcn.h>
extern "C" void exit(int code) throw() { if (run::armed()) { run::armed() = 0; longjmp(run::jb(), code + 1); } _exit(code); }
#endif
#endif
