// Running the scripts of the repository on batches of inputs: one process per batch
#ifndef VERIF_SCRIPT_H
#define VERIF_SCRIPT_H
#include "mc.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
namespace script {
typedef std::vector<std::string> V;
inline std::string dir() {
    static std::string d;
    if (d.empty()) { const char * v = getenv("VERIF_DIR"); std::string base = (v ? std::string(v) : std::string("/tmp")) + "/.work"; mkdir(base.c_str(), 0755); base += "/scratch"; mkdir(base.c_str(), 0755); d = base + "/s" + std::to_string(getpid()); mkdir(d.c_str(), 0755); d += "/"; }
    return d;
}
inline std::string put(const std::string & name, const std::string & text) { std::string p = dir() + name; FILE * f = fopen(p.c_str(), "wb"); if (!f) throw std::runtime_error("scratch file"); fwrite(text.data(), 1, text.size(), f); fclose(f); return p; }
inline std::string read(const std::string & p) { FILE * f = fopen(p.c_str(), "rb"); if (!f) return ""; std::string r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
inline std::string get(const std::string & name) { return read(dir() + name); }
inline bool exists(const std::string & name) { return access((dir() + name).c_str(), F_OK) == 0; }
inline std::string repo() { const char * v = getenv("VERIF_REPO"); return v ? v : "/repo"; }
inline V lines(const std::string & s) { V r; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size(); r.push_back(s.substr(p, q - p)); p = q + 1; } return r; }
inline V fields(const std::string & s, const std::string & sep) { V r; size_t p = 0; while (true) { size_t q = s.find(sep, p); if (q == std::string::npos) { r.push_back(s.substr(p)); return r; } r.push_back(s.substr(p, q - p)); p = q + sep.size(); } }
inline V words(const std::string & s) { V r; std::istringstream is(s); std::string w; while (is >> w) r.push_back(w); return r; }
inline std::string join(const V & v, const std::string & s = " ") { std::string r; for (size_t i = 0; i < v.size(); i++) r += (i ? s : "") + v[i]; return r; }
struct Out { int code; std::string out, err; };
// runs interpreter + script (relative to the repository) in the scratch directory
inline Out run(const std::string & name, const V & args, const std::string & input = "") {
    std::string in = put("stdin", input), o = dir() + "stdout", e = dir() + "stderr"; std::string path = repo() + "/script/" + name; bool py = name.size() > 3 && name.substr(name.size() - 3) == ".py";
    V a; a.push_back(py ? "python3" : "perl"); a.push_back(path); a.insert(a.end(), args.begin(), args.end()); std::vector<char *> p; for (size_t i = 0; i < a.size(); i++) p.push_back(const_cast<char *>(a[i].c_str())); p.push_back(0);
    pid_t pid = fork();
    if (pid == 0) { int fi = open(in.c_str(), O_RDONLY), fo = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), fe = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); if (chdir(dir().c_str())) _exit(126); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONIOENCODING", "utf-8", 1); execvp(p[0], &p[0]); _exit(127); }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Out r; r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); r.out = read(o); r.err = read(e); return r;
}
inline std::string tail(const std::string & s, size_t n = 300) { return s.size() > n ? s.substr(s.size() - n) : s; }
}
#endif
