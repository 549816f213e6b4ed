// K05: the same lines, tokens and numbers however the bytes arrive
#include "mc.h"
#include <dlfcn.h>
#include <errno.h>
#include <sys/syscall.h>
#include <zlib.h>
#ifdef K05Z          // the same reader with decompression compiled in
#define HAVE_ZLIB
#include "util/read_compressed.cc"
#include "util/file_piece.cc"
#endif
#include "util/file_piece.hh"
#include "util/read_compressed.hh"
#include "util/file.hh"
#include "util/mmap.hh"
#include "util/fake_ofstream.hh"
#include <travatar/input-file-stream.h>
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/lookup-table-fsm.h>
using namespace std;
// ---------------------------------------------------------------- the operating system's side of every call
struct Io { bool on, pageon; long page; vector<int> chunk; int eintr, fail, mapfail, err; int calls, maps; set<int> fds; map<void *, size_t> mapped; bool wr; string path; };
static Io io;
static void quiet() { io.on = io.pageon = io.wr = false; io.chunk.clear(); io.eintr = 0; io.fail = io.mapfail = -1; io.calls = io.maps = 0; io.err = EIO; io.fds.clear(); }
// next amount the system is willing to move; -1 with errno set instead when it interrupts or fails
static ssize_t grant(size_t count) {
    int k = io.calls++; if (io.eintr == 1 && k % 2 == 0) { errno = EINTR; return -1; } if (io.eintr >= 2 && k == io.eintr - 2) { errno = EINTR; return -1; } if (io.eintr < 0 && k >= 1 && k <= 3) { errno = EINTR; return -1; }
    int real = io.eintr == 1 ? k / 2 : k; if (io.fail >= 0 && real >= io.fail) { errno = io.err; return -1; } size_t most = (size_t)real < io.chunk.size() ? io.chunk[real] : io.chunk.empty() ? count : io.chunk.back() > 0 ? count : count; return min(count, most);
}
static bool ours(int fd) { return io.on && fd > 2 && (io.fds.empty() || io.fds.count(fd)); }
extern "C" ssize_t read(int fd, void * b, size_t n) { if (ours(fd) && !io.wr) { ssize_t g = grant(n); if (g < 0) return -1; n = g; } return syscall(SYS_read, fd, b, n); }
extern "C" ssize_t pread(int fd, void * b, size_t n, off_t o) { if (ours(fd) && !io.wr) { ssize_t g = grant(n); if (g < 0) return -1; n = g; } return syscall(SYS_pread64, fd, b, n, o); }
extern "C" ssize_t write(int fd, const void * b, size_t n) { if (ours(fd) && io.wr) { ssize_t g = grant(n); if (g < 0) return -1; n = g; } return syscall(SYS_write, fd, b, n); }
extern "C" ssize_t pwrite(int fd, const void * b, size_t n, off_t o) { if (ours(fd) && io.wr) { ssize_t g = grant(n); if (g < 0) return -1; n = g; } return syscall(SYS_pwrite64, fd, b, n, o); }
extern "C" void * mmap(void * a, size_t n, int p, int f, int fd, off_t o) {
    if (fd > 2 && (io.pageon || (io.on && io.mapfail >= 0))) { if (io.mapfail >= 0 && io.maps++ >= io.mapfail) { errno = ENODEV; return MAP_FAILED; } if (!n) { errno = EINVAL; return MAP_FAILED; } if (io.pageon) { if (o % io.page) { errno = EINVAL; return MAP_FAILED; } void * m = malloc(n); size_t got = 0; while (got < n) { ssize_t r = syscall(SYS_pread64, fd, (char *)m + got, n - got, o + got); if (r <= 0) break; got += r; } if (got < n) { free(m); errno = EINVAL; return MAP_FAILED; } io.mapped[m] = n; return m; } }
    return (void *)syscall(SYS_mmap, a, n, p, f, fd, o);
}
extern "C" int munmap(void * a, size_t n) { auto i = io.mapped.find(a); if (i != io.mapped.end()) { if (i->second != n) abort(); io.mapped.erase(i); free(a); return 0; } return syscall(SYS_munmap, a, n); }
extern "C" int msync(void * a, size_t n, int f) { if (io.mapped.count(a)) return 0; return syscall(SYS_msync, a, n, f); }
extern "C" long sysconf(int name) noexcept { static long (*real)(int) = 0; if (name == _SC_PAGE_SIZE) return io.pageon ? io.page : 4096; if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); return real(name); }

static int regular(const string & s) { int fd = memfd_create("k05", 0); size_t w = 0; while (w < s.size()) { ssize_t r = syscall(SYS_write, fd, s.data() + w, s.size() - w); if (r <= 0) abort(); w += r; } lseek(fd, 0, SEEK_SET); return fd; }
static int pipefd(const string & s) { int p[2]; if (pipe(p)) abort(); if (s.size()) { if (s.size() > 60000) fcntl(p[1], F_SETPIPE_SZ, 1 << 20); if (syscall(SYS_write, p[1], s.data(), s.size()) != (long)s.size()) abort(); } close(p[1]); return p[0]; }
static string show(const string & s) { string r; for (unsigned char ch : s) { if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; } else r += ch; if (r.size() > 300) return r + "..."; } return r; }
static vector<int> split(int n, uint64_t mask) { vector<int> r; int last = 0; for (int i = 1; i < n; i++) if (mask >> (i - 1) & 1) { r.push_back(i - last); last = i; } if (n > last) r.push_back(n - last); return r; }
static string word(const string & alpha, int len, long x) { string s; for (int i = 0; i < len; i++) { s += alpha[x % alpha.size()]; x /= alpha.size(); } return s; }
static long power(long a, int b) { long r = 1; while (b--) r *= a; return r; }
// ---------------------------------------------------------------- what has to be read
static bool space(unsigned char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
struct Model { string s; size_t pos; Model(const string & t) : s(t), pos(0) {} string op(char o) {
    size_t n = s.size(); if (o == 'l' || o == 'z') { if (pos == n) return "<end>"; size_t e = s.find(o == 'l' ? '\n' : '\0', pos); string r = s.substr(pos, e == string::npos ? string::npos : e - pos); pos = e == string::npos ? n : e + 1; return "[" + r + "]"; }
    if (o == 'g') { if (pos == n) return "<end>"; return string("'") + s[pos++]; }
    if (o == 't') { while (pos < n && space(s[pos])) pos++; if (pos == n) return "<end>"; size_t b = pos; while (pos < n && !space(s[pos])) pos++; return "(" + s.substr(b, pos - b) + ")"; }
    while (pos < n && space(s[pos]) && s[pos] != '\n') pos++; if (pos == n || s[pos] == '\n') return "<none>"; size_t b = pos; while (pos < n && !space(s[pos])) pos++; return "(" + s.substr(b, pos - b) + ")"; } };
static string realop(util::FilePiece & f, char o) { try { StringPiece p; switch (o) { case 'l': if (!f.ReadLineOrEOF(p)) return "<end>"; return "[" + string(p.data(), p.size()) + "]"; case 'z': p = f.ReadLine('\0'); return "[" + string(p.data(), p.size()) + "]"; case 'g': return string("'") + f.get(); case 't': p = f.ReadDelimited(); return "(" + string(p.data(), p.size()) + ")"; default: if (!f.ReadWordSameLine(p)) return "<none>"; return "(" + string(p.data(), p.size()) + ")"; } } catch (util::EndOfFileException &) { return "<end>"; } }
static void compare(mc::Ctx & c, util::FilePiece & f, const string & s, const string & ops, const string & how, int more = 3) {
    Model m(s); string log; int ends = 0; for (size_t i = 0; ends < more && i < s.size() * 2 + 6; i++) { char o = ops[i % ops.size()]; string want = m.op(o), got = realop(f, o); CHECK(want == got, "text", how << ": operation " << i << " (" << o << ") of '" << ops << "' on \"" << show(s) << "\" gives " << show(got) << " instead of " << show(want)); CHECK(f.Offset() == m.pos, "offset", how << ": offset " << f.Offset() << " instead of " << m.pos << " after operation " << i << " (" << o << ") of '" << ops << "' on \"" << show(s) << "\""); if (m.pos == s.size()) ends++; }
    c.checked();
}
static string opseq(mc::Ctx & c, const string & all, int n) { string r; for (int i = 0; i < n; i++) r += all[c.choose(all.size())]; return r; }
static string modename[] = {"mapped", "read", "mapping fails", "stream"};
struct Guard { ~Guard() { quiet(); } };
static util::FilePiece * open(int mode, const string & s, int min_buffer, istringstream & is) { int fd; if (mode == 3) { is.str(s); return new util::FilePiece(is, "stream", min_buffer); } fd = mode == 1 ? pipefd(s) : regular(s); io.fds.clear(); io.fds.insert(fd); io.on = io.pageon = true; return new util::FilePiece(fd, "name", NULL, min_buffer); }
#ifndef K05Z
// all small files, all sequences of operations, all ways to cut the file into reads
MC_SPACE(chunks, 3) {
    Guard g; int len = c.range(0, c.thorough ? 7 : 5); string ops = opseq(c, "ltwg", 2); int page = 1 << c.choose(2), mb = 1 + c.choose(2) * 3; long tot = power(3, len); c.describe([&] { return "files of " + to_string(len) + " bytes, operations " + ops; }); uint64_t n = 0;
    for (long x = 0; x < tot; x++) { string s = word("a \n", len, x); for (uint64_t mask = 0; mask < (len ? 1u << (len - 1) : 1); mask++) for (int ei = 0; ei < 2; ei++) { quiet(); io.page = page; io.chunk = split(len, mask); io.eintr = ei; istringstream is; unique_ptr<util::FilePiece> f(open(1, s, mb, is)); compare(c, *f, s, ops, "page " + to_string(page) + " buffer " + to_string(mb) + " chunks " + to_string(mask) + (ei ? " interrupted" : "")); n++; } } c.step(n);
}
MC_SPACE(modes, 3) {    // mapped in small pieces, mapping that fails after a while, streams; longer files
    Guard g; int len = c.range(0, c.thorough ? 10 : 8), mode = c.choose(3); mode = mode == 1 ? 3 : mode; string ops = opseq(c, "ltwg", 2); int page = 1 << c.choose(3), mb = 1 + c.choose(2) * 3; int fail = mode == 2 ? c.choose(4) : -1; string alpha = len > (c.thorough ? 7 : 6) ? "a\n" : "a \n"; long tot = power(alpha.size(), len); c.describe([&] { return modename[mode] + ": files of " + to_string(len) + " bytes, operations " + ops; });
    for (long x = 0; x < tot; x++) { string s = word(alpha, len, x); quiet(); io.page = page; io.mapfail = fail; if (mode == 2) io.chunk = vector<int>(len, 1 + x % 3); if (mode == 3) io.pageon = true; istringstream is; unique_ptr<util::FilePiece> f(open(mode, s, mb, is)); compare(c, *f, s, ops, modename[mode] + " page " + to_string(page) + " buffer " + to_string(mb) + " fails " + to_string(fail)); } c.step(tot);
}
MC_SPACE(longops, 3) {  // longer sequences of operations on files that need several buffers
    Guard g; static const vector<string> F = {"ab cd\nefg  h\n\nij", "a b c d e f g\n", "abcdefghijklmnop", "\n\n\n\n\n\n\n\n", "aaa\n\n bbb\t\tccc\n  \nddd eee", "  x", "x  ", string("a\0b\n\0\nc d\0", 10), "\r\na\r\nb\v\fc", "one\ntwo\nthree four\n"}; const string & s = F[c.choose(F.size())]; string ops = opseq(c, "ltwgz", c.thorough ? 5 : 4); int mode = c.choose(4); c.describe([&] { return modename[mode] + " \"" + show(s) + "\" operations " + ops; }); uint64_t n = 0;
    for (int page = 1; page <= 8; page *= 2) for (int mb : {1, 3, 9}) for (int chunk = 1; chunk <= (mode == 1 || mode == 2 ? 5 : 1); chunk += 1 + (chunk == 3)) { quiet(); io.page = page; io.chunk = vector<int>(s.size() + 1, chunk); io.mapfail = mode == 2 ? chunk % 4 : -1; io.eintr = mode == 1 ? chunk % 3 * -1 + (chunk % 3 == 2 ? 5 : 0) : 0; if (io.eintr == -1) io.eintr = -1; io.pageon = true; istringstream is; unique_ptr<util::FilePiece> f(open(mode, s, mb, is)); compare(c, *f, s, ops, modename[mode] + " page " + to_string(page) + " buffer " + to_string(mb) + " chunk " + to_string(chunk)); n++; } c.step(n);
}
MC_SPACE(interrupts, 3) {   // one interruption before any read
    Guard g; static const vector<string> F = {"", "a", "a\n", "ab\ncd\n", "a b\n\nc"}; const string & s = F[c.choose(F.size())]; string ops = opseq(c, "lt", 1); int at = c.choose(9); c.require(at <= (int)s.size() + 2); int len = s.size(); for (uint64_t mask = 0; mask < (len ? 1u << (len - 1) : 1); mask++) { quiet(); io.page = 2; io.eintr = at + 2; io.chunk = split(len, mask); if (at < (int)io.chunk.size()) io.chunk.insert(io.chunk.begin() + at, 1); istringstream is; unique_ptr<util::FilePiece> f(open(1, s, 1, is)); compare(c, *f, s, ops, "interrupted at " + to_string(at)); c.step(); }
}
MC_SPACE(failures, 3) {    // the n-th read fails: an error, and what came before is right
    Guard g; static const vector<string> F = {"", "a", "a\n", "ab\ncd\n", "a b\n\nc", "abcdefgh\nij"}; const string & s = F[c.choose(F.size())]; char op = "ltwg"[c.choose(4)]; int mode = c.choose(2) ? 1 : 2; int fail = c.choose(14), chunk = c.range(1, 4), err = c.choose(3); c.describe([&] { return "read " + to_string(fail) + " of \"" + show(s) + "\" fails"; }); quiet(); io.page = 2; io.fail = fail; static const int E[] = {EIO, ESTALE, EAGAIN}; io.err = E[err]; io.mapfail = mode == 2 ? 0 : -1; io.chunk = vector<int>(s.size(), chunk); string done; bool threw = false, ended = false; int reads = 0; istringstream is;
    try { unique_ptr<util::FilePiece> f(open(mode, s, 1, is)); Model m(s); for (size_t i = 0; i < 2 * s.size() + 3 && !ended; i++) { string want = m.op(op), got = realop(*f, op); CHECK(want == got, "before-failure", "operation " << i << " gives " << show(got) << " instead of " << show(want)); if (op == 'w' && got == "<none>") { if (m.pos == s.size()) ended = true; else { m.op('g'); realop(*f, 'g'); } } if (got == "<end>") ended = true; } } catch (util::Exception &) { threw = true; } catch (mc::Violation &) { throw; }
    reads = io.calls; CHECK(threw == (reads > fail), "failure", "the failing read was " << (reads > fail ? "" : "not ") << "made but the reader " << (threw ? "threw" : "did not throw")); CHECK(threw || ended, "end", "neither an error nor the end"); c.checked(); c.step();
}
// numbers
struct Num { const char * text; double d; long l; bool isl; };
static const Num N[] = {{"0", 0, 0, true}, {"-0", -0.0, 0, true}, {"7", 7, 7, true}, {"-12", -12, -12, true}, {"123456789", 123456789, 123456789, true}, {"0.5", 0.5, 0, false}, {"-1.25e-3", -1.25e-3, 0, false}, {"1e10", 1e10, 0, false}, {".5", .5, 0, false}, {"-99", -99, -99, true}, {"3.4028234e38", 3.4028234e38, 0, false}, {"1.17549435e-38", 1.17549435e-38, 0, false}, {"-2.3025851", -2.3025851, 0, false}, {"0.1", 0.1, 0, false}, {"16777217", 16777217, 16777217, true}, {"1E5", 1e5, 0, false}, {"2147483648", 2147483648.0, 2147483648L, true}, {"9007199254740993", 9007199254740993.0, 9007199254740993L, true}, {"0.30000001192092896", 0.30000001192092896, 0, false}};
static const int NN = sizeof N / sizeof *N;
static bool samebits(double a, double b) { return !memcmp(&a, &b, 8); }
static void numbers(mc::Ctx & c, const vector<int> & which, const string & sep, const string & tail, int mode, int page, int mb, int chunk, char type) {
    string s; for (size_t i = 0; i < which.size(); i++) { if (i) s += sep; s += N[which[i]].text; } s += tail; quiet(); io.page = page; io.pageon = true; io.chunk = vector<int>(s.size(), chunk); io.mapfail = mode == 2 ? 1 : -1; istringstream is; unique_ptr<util::FilePiece> f(open(mode, s, mb, is)); string how = string("type ") + type + " " + modename[mode] + " page " + to_string(page) + " buffer " + to_string(mb) + " chunk " + to_string(chunk) + " on \"" + show(s) + "\"";
    for (size_t i = 0; i < which.size(); i++) { const Num & n = N[which[i]]; try { if (type == 'd') { double g = f->ReadDouble(); CHECK(samebits(g, strtod(n.text, 0)), "double", how << " reads " << g); } else if (type == 'f') { float g = f->ReadFloat(); CHECK(samebits(g, strtof(n.text, 0)), "float", how << " reads " << g); } else if (type == 'i') { long g = f->ReadLong(); CHECK(g == n.l, "long", how << " reads " << g); } else { unsigned long g = f->ReadULong(); CHECK(g == (unsigned long)n.l, "ulong", how << " reads " << g); } } catch (util::Exception & e) { c.fail("number", how + " throws " + e.what()); } }
    bool threw = false; try { if (type == 'd') f->ReadDouble(); else if (type == 'f') f->ReadFloat(); else if (type == 'i') f->ReadLong(); else f->ReadULong(); } catch (util::EndOfFileException &) { threw = true; } catch (util::ParseNumberException &) { threw = true; } CHECK(threw, "number-end", how); string rest = realop(*f, 'l'), want = "<end>"; CHECK(rest == want, "number-rest", how << " leaves " << show(rest)); c.step(); c.checked(which.size());
}
MC_SPACE(numbers_, 3) { Guard g; int a = c.choose(NN), b = c.choose(NN + 1), mode = c.choose(4); vector<int> w(1, a); if (b) w.push_back(b - 1); c.describe([&] { return string("numbers ") + N[a].text + " " + (b ? N[b - 1].text : ""); }); bool l = true, u = true; for (int i : w) { l &= N[i].isl; u &= N[i].isl && N[i].l >= 0 && N[i].text[0] != '-'; } static const string SEP[] = {" ", "\n", "\t", "  \n"}, TAIL[] = {"", "\n", "  "}; int lo = c.thorough ? 4 : 2; for (int s = 0; s < (b ? 4 : 1); s++) for (int t = 0; t < 3; t++) for (int page = 1; page <= 4; page *= lo == 4 ? 2 : 4) for (int mb = 1; mb <= 7; mb += 3) for (int chunk = 1; chunk <= (mode == 1 || mode == 2 ? 4 : 1); chunk++) for (char type : {'d', 'f', 'i', 'u'}) { if ((type == 'i' && !l) || (type == 'u' && !u)) continue; numbers(c, w, SEP[s], TAIL[t], mode, page, mb, chunk, type); } }
MC_SPACE(malformed, 3) {  // what is no number is an error, and trailing text is left
    Guard g; static const vector<string> BAD = {"x", "-", "a1", ".", "|||", "\\end\\"}, LEFT = {"1x", "2.5|", "-3\\", "12,5"}; int k = c.choose(BAD.size() + LEFT.size()), mode = c.choose(4), after = c.choose(3), chunk = c.range(1, 3), page = 1 << c.choose(3); char type = "df"[c.choose(2)]; bool bad = k < (int)BAD.size(); string t = bad ? BAD[k] : LEFT[k - BAD.size()]; string s = (after == 2 ? "\n" : "") + t + (after ? " y\n" : ""); c.describe([&] { return "\"" + show(s) + "\""; }); quiet(); io.page = page; io.pageon = true; io.chunk = vector<int>(s.size(), chunk); io.mapfail = mode == 2 ? 0 : -1; istringstream is; unique_ptr<util::FilePiece> f(open(mode, s, 1, is)); bool threw = false; double d = 0; try { d = type == 'd' ? f->ReadDouble() : f->ReadFloat(); } catch (util::ParseNumberException &) { threw = true; } CHECK(threw == bad, "malformed", "gives " << d); if (!bad) { CHECK(d == strtod(t.c_str(), 0), "malformed", "gives " << d); char * e; strtod(t.c_str(), &e); string rest = realop(*f, 't'); CHECK(rest == "(" + string(e) + ")", "malformed-rest", "leaves " << show(rest)); } c.step();
}
MC_SPACE(realpages, 3) {   // real pages and maps: lines around the limits of a map
    Guard g; int at = c.choose(7) - 3, big = c.choose(3), op = c.choose(4), mode = c.choose(3); c.describe([&] { return "line end at page end " + to_string(at) + " " + modename[mode]; }); quiet(); string s; int edge = big == 0 ? 8192 : big == 1 ? 16384 : 12288; while ((int)s.size() < edge + at - 1) { s += (s.size() % 61 == 60 ? (s.size() % 7 == 0 ? '\n' : ' ') : 'a' + s.size() % 26); } s += '\n'; for (int i = 0; i < 5000; i++) s += i % 53 == 52 ? '\n' : 'x'; if (c.choose(2)) s += '\n'; int fd = mode == 1 ? pipefd(s) : regular(s); io.fds.insert(fd); io.mapfail = mode == 2 ? 1 : -1; io.on = true; if (mode == 1) io.chunk = vector<int>(100, 4096 + at); util::FilePiece f(fd, "name", NULL, 1); compare(c, f, s, string(1, "ltwg"[op]) + (op == 2 ? "g" : ""), "real pages"); c.step();
}
// ---------------------------------------------------------------- plain reads and writes
MC_SPACE(rawread, 3) {
    Guard g; int len = c.range(0, 6), ask = c.range(0, 8), kind = c.choose(7), ei = c.choose(3), fail = c.choose(4) - 1; string s = string("abcdefgh").substr(0, len); c.describe([&] { return "read " + to_string(ask) + " of " + to_string(len) + " bytes, way " + to_string(kind); });
    for (uint64_t mask = 0; mask < (len ? 1u << (len - 1) : 1); mask++) for (int off = 0; off <= (kind == 2 || kind == 5 ? len : 0); off++) {
        quiet(); io.chunk = split(len, mask); io.eintr = ei == 2 ? -1 : ei; io.fail = fail; if (ei == 2) { io.chunk.insert(io.chunk.begin() + min<size_t>(1, io.chunk.size()), 3, 1); } int fd = kind == 3 ? pipefd(s) : regular(s); io.fds.insert(fd); io.on = true; vector<char> buf(ask + 2, '#'); size_t avail = len - off; bool threw = false; size_t got = 0; util::scoped_memory mem; bool whole = kind == 0 || kind == 2 || kind == 4 || kind == 5;
        try { if (kind == 0) { util::ReadOrThrow(fd, &buf[1], ask); got = ask; } else if (kind == 1 || kind == 3) got = util::ReadOrEOF(fd, &buf[1], ask); else if (kind == 2) { util::ErsatzPRead(fd, &buf[1], ask, off); got = ask; } else if (kind == 4 || kind == 5) { util::MapRead(kind == 4 ? util::READ : util::PARALLEL_READ, fd, off, ask, mem); memcpy(&buf[1], mem.get(), ask); got = ask; } else { util::scoped_fd d(dup(fd)); io.fds.insert(d.get()); util::ReadCompressed r(d.release()); got = r.ReadOrEOF(&buf[1], ask); } } catch (util::Exception &) { threw = true; }
        size_t want = min<size_t>(ask, avail); bool failed = fail >= 0 && io.calls > (ei == 1 ? fail * 2 + 1 : fail) && (ei != 2 || io.calls > max(fail, fail >= 1 && fail <= 3 ? 4 : fail)); bool shortfall = whole && (size_t)ask > avail; CHECK(threw == (failed || shortfall), "error", (threw ? "threw" : "did not throw") << " with chunks " << mask << " at " << off << " failing read " << fail << " interrupts " << ei << " after " << io.calls << " calls"); if (!threw) { CHECK(got == want && string(&buf[1], want) == s.substr(off, want), "bytes", "chunks " << mask << " gives " << got << " " << show(string(&buf[1], got))); CHECK(buf[ask + 1] == '#' && buf[0] == '#', "beyond", ""); } io.on = false; close(fd); c.step(); c.checked();
    }
}
MC_SPACE(rawwrite, 3) {
    Guard g; int len = c.range(0, 7), kind = c.choose(2), ei = c.choose(2), fail = c.choose(4) - 1; string s = string("abcdefgh").substr(0, len); c.describe([&] { return "write " + to_string(len) + " bytes"; }); for (uint64_t mask = 0; mask < (len ? 1u << (len - 1) : 1); mask++) { quiet(); io.wr = true; io.chunk = split(len, mask); io.eintr = ei; io.fail = fail; io.err = ENOSPC; int fd = regular(kind ? "0123" : ""); io.fds.insert(fd); io.on = true; bool threw = false; try { if (kind) util::ErsatzPWrite(fd, s.data(), len, 2); else util::WriteOrThrow(fd, s.data(), len); } catch (util::Exception &) { threw = true; } io.on = false; bool failed = fail >= 0 && fail < (int)io.chunk.size(); CHECK(threw == failed, "error", "chunks " << mask); if (!threw) { char b[32]; ssize_t n = syscall(SYS_pread64, fd, b, 32, 0); string want = kind ? "0123" : ""; if (kind) { if ((int)want.size() < 2 + len) want.resize(2 + len); want.replace(2, len, s); } else want = s; CHECK(string(b, n) == want, "bytes", "chunks " << mask << " wrote " << show(string(b, n))); } close(fd); c.step(); }
}
MC_SPACE(buffered, 3) {   // buffered output of any mix of items arrives complete, whatever the system accepts
    Guard g; static const float FL[] = {0.f, -1.5f, 1e-30f, -2.3025851f, 3.4028234e38f}; int size = 130 + c.choose(4) * 20, n = c.range(1, c.thorough ? 5 : 4), chunk = c.choose(3); string want, log; c.describe([&] { return "items " + log; }); quiet(); io.wr = true; io.chunk = vector<int>(400, chunk == 0 ? 1000 : chunk == 1 ? 1 : 7); io.eintr = chunk == 1; int fd = regular(""); io.fds.insert(fd); io.on = true; vector<pair<size_t, float> > fls; string want2; { util::FakeOFStream o(fd, size); for (int i = 0; i < n; i++) { int k = c.choose(7); log += to_string(k) + " "; if (k < 2) { string t(k == 0 ? size : size - 1, 'a' + i); o << StringPiece(t); want += t; } else if (k == 2) { string t(size + 1, 'A' + i); o << StringPiece(t); want += t; } else if (k == 3) { o << 'c'; want += 'c'; } else if (k == 4) { o << (unsigned)(i * 1000000007u); want += to_string(i * 1000000007u); } else if (k == 5) { o << FL[i] << '|'; want += string("\1") + char('0' + i) + "|"; } else { o << StringPiece(""); } } if (c.choose(2)) o.Finish(); } io.on = false; string got(2000, 0); got.resize(syscall(SYS_pread64, fd, &got[0], 2000, 0)); close(fd); size_t q = 0; for (size_t i = 0; i < want.size(); i++) { if (want[i] == '\1') { float f = FL[want[++i] - '0']; char * e; float v = strtof(got.c_str() + q, &e); CHECK(v == f && *e == '|' && e - got.c_str() < (long)got.size(), "float", show(got) << " for " << f); q = e - got.c_str(); } else { CHECK(q < got.size() && got[q] == want[i], "bytes", "at " << q << " of " << got.size()); q++; } } CHECK(q == got.size(), "more", "wrote " << got.size()); c.step();
}
MC_SPACE(floats, 3) {     // printed floats are read back exactly
    Guard g; int hi = c.choose(255), sign = c.choose(2); c.describe("floats with exponent " + to_string(hi)); quiet(); int fd = regular(""); int bits = c.thorough ? 14 : 9; vector<float> v; { util::FakeOFStream o(fd, 4096); for (uint32_t m = 0; m < 1u << bits; m++) { uint32_t x = (uint32_t)sign << 31 | (uint32_t)hi << 23 | m << (23 - bits) | (m * 2654435761u >> (9 + bits)); float f; memcpy(&f, &x, 4); v.push_back(f); o << f << '\n'; } } lseek(fd, 0, SEEK_SET); util::FilePiece f(fd, "floats"); for (float x : v) { float y = f.ReadFloat(); CHECK(!memcmp(&x, &y, 4), "float", "printed " << x << " read " << y); } c.step(v.size()); c.checked(v.size());
}
#endif
// ---------------------------------------------------------------- compressed input
static string gz(const string & s, int level, bool last = true) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY); string o(s.size() + s.size() / 100 + 100, 0); z.next_in = (Bytef *)s.data(); z.avail_in = s.size(); z.next_out = (Bytef *)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
static string text(int k) { static const vector<string> T = {"", "a", "a\n", "ab c\nd", "line one\nline two\n\nfour", "\n", string("a\0b\n", 4)}; if (k < (int)T.size()) return T[k]; string s; uint32_t r = 12345; int n = k == 7 ? 700 : k == 8 ? 40000 : 20000; for (int i = 0; i < n; i++) { r = r * 1664525u + 1013904223u; s += k == 9 ? (i % 70 == 69 ? '\n' : 'a') : r >> 24 < 4 ? '\n' : r >> 24 < 40 ? ' ' : (char)(33 + (r >> 16) % 94); } return s; }
#ifdef K05Z
MC_SPACE(gzip, 3) {
    Guard g; int k = c.choose(10), level = c.choose(3), mode = c.choose(2), sp = c.choose(4), page = c.choose(2), op = c.choose(3), chunk = c.choose(6); string s = text(k), z; size_t cut = s.size() * sp / 4; if (sp) z = gz(s.substr(0, cut), level * 4 + 1) + gz(s.substr(cut), level * 4 + 1); else z = gz(s, level * 4 + 1); if (sp == 2) z = gz("", 1) + z + gz("", 9); c.describe([&] { return "text " + to_string(k) + " in " + to_string(sp) + " parts"; }); c.require(op == 0 || k < 8); quiet(); io.page = 4; static const int CH[] = {1 << 20, 1, 2, 5, 4095, 16384}; io.chunk = vector<int>(z.size() + 4, CH[chunk]); io.eintr = chunk == 2; c.require(z.size() < 3000 || chunk != 1); istringstream is; int fd = mode == 1 ? pipefd(z) : regular(z); io.fds.insert(fd); io.on = true; io.pageon = page; unique_ptr<util::FilePiece> f(new util::FilePiece(fd, "name", NULL, 1)); compare(c, *f, s, op == 0 ? "l" : op == 1 ? "t" : "wg", "compressed"); c.step();
}
static int consume(const string & z, string & out, int amount, int chunk, int fail = -1) { quiet(); io.chunk = vector<int>(z.size() + 4, chunk); io.fail = fail; int fd = regular(z); io.fds.insert(fd); io.on = true; out.clear(); try { util::ReadCompressed r(fd); vector<char> b(amount); while (true) { size_t n = r.Read(&b[0], amount); if (!n) break; out.append(&b[0], n); } if (r.Read(&b[0], amount)) return 2; } catch (util::Exception &) { return 1; } return 0; }
MC_SPACE(gzip_amounts, 3) { Guard g; int k = c.choose(9), amount = c.range(1, 9), sp = c.choose(2); c.require(k < 8 || amount == 9); amount = amount == 8 ? 100 : amount == 9 ? 50000 : amount; string s = text(k), z, out; c.describe("amounts"); for (size_t cut = 0; cut <= (sp ? s.size() : 0); cut += s.size() > 50 ? s.size() / 7 : 1) { z = sp ? gz(s.substr(0, cut), 6) + gz(s.substr(cut), 6) : gz(s, 6); int r = consume(z, out, amount, 1 + cut % 7 + (z.size() > 1000 ? 1000 : 0)); CHECK(r == 0 && out == s, "gzip", "text " << k << " cut at " << cut << ": " << r << " " << out.size()); c.step(); } }
MC_SPACE(gzip_truncated, 3) { Guard g; int k = c.choose(9), sp = c.choose(2), amount = c.choose(2) ? 3 : 4096; string s = text(k); size_t mid = s.size() / 2; string a = gz(s.substr(0, sp ? mid : s.size()), 6), z = sp ? a + gz(s.substr(mid), 6) : a, out; c.require(k < 8 || amount > 3); c.describe([&] { return "truncated text " + to_string(k); }); for (size_t cut = 2; cut < z.size(); cut += z.size() > 2000 ? 97 : 1) { if (sp && cut == a.size()) continue; int r = consume(z.substr(0, cut), out, amount, 1000); CHECK(r == 1, "truncated", "cut at " << cut << " of " << z.size() << " gives " << out.size() << " of " << s.size() << " bytes without an error"); CHECK(s.compare(0, out.size(), out) == 0, "truncated-text", "cut at " << cut); c.step(); } c.checked(); }
MC_SPACE(gzip_damaged, 3) { Guard g; int k = c.choose(8), part = c.choose(8); string s = text(k), z = gz(s, 6), out; c.describe([&] { return "damaged text " + to_string(k); }); for (size_t i = 2 + part; i < z.size(); i += 8) for (int b = 0; b < 8; b++) { string d = z; d[i] ^= 1 << b; int r = consume(d, out, 4096, 10000); CHECK(r == 1 || (r == 0 && out == s), "damaged", "bit " << b << " of byte " << i << " gives " << show(out)); c.step(); } for (size_t extra = 1; extra < 9; extra++) { int r = consume(z + string(extra, part ? 'x' : '\0'), out, 4096, 1000); CHECK(r == 1, "trailing", extra << " bytes of garbage after the end"); } for (int fail = 0; fail < 4; fail++) { int r = consume(z, out, 5, 3, fail); CHECK(r == 1, "failing", "read " << fail << " fails"); } c.checked(); }
#else
MC_SPACE(compressed_refused, 3) { Guard g; int k = c.choose(8), mode = c.choose(2), op = c.choose(2); string s = text(k), z = k % 2 ? "BZh91AY&SY" + s : gz(s, 6); c.describe("compressed input without support"); quiet(); bool threw = false; int fd = mode ? pipefd(z) : regular(z); try { util::FilePiece f(fd, "name"); realop(f, op ? 'l' : 't'); } catch (util::CompressedException &) { threw = true; } CHECK(threw, "refused", "compressed bytes were read as text"); c.step(); }
// streams used for rule tables and n-best lists
struct Dir { string p; Dir() { char t[] = "/tmp/k05XXXXXX"; p = mkdtemp(t); } ~Dir() { clear(); rmdir(p.c_str()); } void clear() { for (const char * f : {"x", "x.gz", "y.gz", "d"}) { unlink((p + "/" + f).c_str()); rmdir((p + "/" + f).c_str()); } } void put(const char * f, const string & s) { ofstream o((p + "/" + f).c_str(), ios::binary); o << s; } };
static int slurp(const string & path, int how, string & out) { out.clear(); try { travatar::InputFileStream in(path); if (!in) return 1; string l; char ch; char b[7]; if (how == 0) while (getline(in, l)) { out += l; if (!in.eof()) out += '\n'; } else if (how == 1) while (in.get(ch)) out += ch; else while (in.read(b, 7) || in.gcount()) out.append(b, in.gcount()); return in.bad() ? 3 : 0; } catch (std::exception &) { return 2; } }
MC_SPACE(stream, 3) {
    Guard g; Dir d; int k = c.choose(10), kind = c.choose(4), how = c.choose(3), chunk = c.choose(4), ei = c.choose(2); string s = text(k), out; c.describe([&] { return "text " + to_string(k) + " kind " + to_string(kind); }); string z = gz(s, 6); if (kind == 3) z = gz(s.substr(0, s.size() / 2), 6) + gz(s.substr(s.size() / 2), 9); if (kind == 0) d.put("x", s); else d.put("x.gz", z); quiet(); static const int CH[] = {1 << 20, 1, 3, 700}; size_t len = kind == 0 ? s.size() : z.size(); c.require(len < 5000 || chunk == 0 || chunk == 3); io.chunk = vector<int>(len + 4, CH[chunk]); io.eintr = ei; io.on = true; int r = slurp(d.p + (kind == 2 ? "/x" : kind == 0 ? "/x" : "/x.gz"), how, out); io.on = false; CHECK(r == 0 && out == s, "stream", "result " << r << " with " << out.size() << " of " << s.size() << " bytes: " << show(out)); c.step(); c.checked();
}
MC_SPACE(stream_errors, 3) {   // every cut of a compressed file, every failing read, files that are none
    Guard g; Dir d; int kind = c.choose(5), k = c.choose(9); string s = text(k), out, z = gz(s, 6); c.describe([&] { return "text " + to_string(k) + " fault " + to_string(kind); }); quiet();
    if (kind == 0) { for (size_t cut = 1; cut < z.size(); cut += z.size() > 1000 ? 211 : 1) { d.clear(); d.put("x.gz", z.substr(0, cut)); int r = slurp(d.p + "/x.gz", cut % 3, out); CHECK(r == 2, "truncated", "cut at " << cut << " of " << z.size() << " reads " << out.size() << " bytes with result " << r); c.step(); } }
    else if (kind == 1) { for (size_t i = 10; i < z.size(); i += z.size() > 1000 ? 97 : 1) for (int b = 0; b < 8; b += 3) { string y = z; y[i] ^= 1 << b; d.clear(); d.put("x.gz", y); int r = slurp(d.p + "/x.gz", 0, out); CHECK(r == 2 || (r == 0 && out == s), "damaged", "byte " << i << " of " << z.size() << " result " << r); c.step(); } }
    else if (kind == 2) { for (int gzf = 0; gzf < 2; gzf++) { d.clear(); d.put(gzf ? "x.gz" : "x", gzf ? z : s); for (int fail = 0; fail < 6; fail++) { quiet(); io.fail = fail; io.chunk = vector<int>(100000, 2); io.on = true; int r = slurp(d.p + "/x", fail % 3, out); io.on = false; CHECK(r == (io.calls > fail ? 2 : 0), "failing", "read " << fail << " of " << io.calls << " result " << r); c.step(); } } }
    else if (kind == 3) { int r = slurp(d.p + "/x", 0, out); CHECK(r == 2, "missing", r); mkdir((d.p + "/d").c_str(), 0755); r = slurp(d.p + "/d", 0, out); CHECK(r == 2, "directory", "result " << r); c.step(); }
    else { d.put("x.gz", s); c.require(k > 1); int r = slurp(d.p + "/x.gz", 0, out); CHECK(r == 2, "not-gzip", r); c.step(); }
    c.checked();
}
MC_SPACE(tables, 3) {    // the rule tables themselves
    Guard g; Dir d; int kind = c.choose(4), fault = c.choose(3); string s; for (int i = 0; i < 40; i++) s += kind < 2 ? "NP ( \"w" + to_string(i) + "\" ) ||| \"v" + to_string(i * 7919 % 97) + "\" ||| f=" + to_string(i * 31 % 17) + "\n" : "\"w" + to_string(i) + "\" @ NP ||| \"v" + to_string(i * 7919 % 97) + "\" @ NP ||| f=" + to_string(i * 31 % 17) + "\n"; string z = gz(s, 6); c.describe("table " + to_string(kind)); quiet(); cerr.setstate(ios::failbit);
    for (int part = 0; part < 12; part++) { d.clear(); d.put("y.gz", fault == 0 ? z.substr(0, z.size() * part / 12 + 1) : z); quiet(); if (fault == 1) { io.fail = part; io.chunk = vector<int>(100, 30); io.on = true; } else if (fault == 2) { io.chunk = vector<int>(2000, 1 + part); io.eintr = part % 2; io.on = true; } bool threw = false; string f = d.p + "/y.gz"; int cls = -1; try { if (kind == 0) delete travatar::LookupTableHash::ReadFromFile(f); else if (kind == 1) delete travatar::LookupTableMarisa::ReadFromFile(f); else delete travatar::LookupTableFSM::ReadFromFiles(vector<string>(1, f)); } catch (exception &) { threw = true; } (void)cls; io.on = false; bool must = fault == 0 || (fault == 1 && io.calls > part); CHECK(threw == must, "table", "part " << part << (threw ? " threw" : " was accepted")); c.step(); } cerr.clear();
}
#endif
int main(int argc, char ** argv) { quiet(); return mc::main(argc, argv); }
