// K04: packed storage returns exactly what was stored
#include "mc.h"
#include "util/bit_packing.hh"
#include "util/sorted_uniform.hh"
#include "util/probing_hash_table.hh"
#include "util/joint_sort.hh"
#include "util/sized_iterator.hh"
#include "util/multi_intersection.hh"
#include "util/pool.hh"
#include "util/murmur_hash.hh"
#include <marisa/marisa.h>
#include <marisa/iostream.h>
#include "marisa/grimoire/vector.h"
#include <set>
#include <map>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
using namespace std;
typedef unsigned __int128 u128;
// ---------------------------------------------------------------- bit packing
static uint64_t lowmask(int n) { return n >= 64 ? ~0ULL : (1ULL << n) - 1; }
static vector<uint64_t> values(int width) { set<uint64_t> s; uint64_t m = lowmask(width); if (width <= 6) { for (uint64_t v = 0; v <= m; v++) s.insert(v); } else { s.insert(0); s.insert(m); s.insert(0x5555555555555555ULL & m); s.insert(0xAAAAAAAAAAAAAAAAULL & m); s.insert(0x123456789ABCDEFULL & m); for (int i = 0; i < width; i++) { s.insert(1ULL << i); s.insert(m & ~(1ULL << i)); } } return vector<uint64_t>(s.begin(), s.end()); }
static bool bitat(const unsigned char * b, size_t i) { return b[i >> 3] >> (i & 7) & 1; }
// a field between two others: nothing else may change
MC_SPACE(bits_field, 3) {
    int w = c.range(1, 57), off = c.choose(16), kind = c.choose(3); c.require(kind != 1 || w <= 25); c.require(kind != 2 || w >= 31); c.describe("field of " + to_string(w) + " bits at " + to_string(off)); uint64_t n = 0;
    for (uint64_t v : values(w)) for (int around = 0; around < 2; around++) {
        unsigned char mem[40]; memset(mem, 0, sizeof mem); size_t base = 64 + off; if (around) for (size_t i = 0; i < sizeof(mem) * 8; i++) if (i < base || i >= base + w) mem[i >> 3] |= 1 << (i & 7);
        if (kind == 1) util::WriteInt25(mem, base, w, v); else util::WriteInt57(mem, base, w, v); n++;
        for (int i = 0; i < w; i++) CHECK(bitat(mem, base + i) == (v >> i & 1), "stored", "bit " << i << " of " << v); for (size_t i = 0; i < sizeof(mem) * 8; i++) if (i < base || i >= base + w) CHECK(bitat(mem, i) == (around == 1), "neighbour", "bit " << i << " around a field at " << base << " of " << w << " bits with value " << v);
        uint64_t got = kind == 1 ? util::ReadInt25(mem, base, w, lowmask(w)) : util::ReadInt57(mem, base, w, lowmask(w)); CHECK(got == v, "read", "reads " << got << " instead of " << v << " from " << w << " bits at " << base);
    } c.step(n); c.checked(n);
}
// arrays of fields of several widths, written in any order
MC_SPACE(bits_array, 3) {
    int n = c.range(2, 3), w[3]; for (int i = 0; i < n; i++) { static const int W[] = {1, 2, 3, 7, 8, 9, 15, 25, 31, 32, 33, 56, 57}; w[i] = W[c.choose(13)]; } int off = c.choose(8), order = c.choose(n == 3 ? 6 : 2); static const int P[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 0, 1}, {1, 2, 0}, {2, 1, 0}}; c.describe("fields of " + to_string(w[0]) + " " + to_string(w[1]) + " bits"); uint64_t steps = 0;
    vector<uint64_t> vs[3]; for (int i = 0; i < n; i++) { uint64_t m = lowmask(w[i]); vs[i] = {0, m, 0x123456789ABCDEFULL & m}; } for (int k = 0; k < (n == 3 ? 27 : 9); k++) { unsigned char mem[48]; memset(mem, 0, sizeof mem); uint64_t v[3] = {vs[0][k % 3], vs[1][k / 3 % 3], n == 3 ? vs[2][k / 9] : 0}; for (int q = 0; q < n; q++) { int i = P[order][q]; size_t p = off; for (int j = 0; j < i; j++) p += w[j]; util::WriteInt57(mem, p, w[i], v[i]); } size_t p = off; for (int i = 0; i < n; i++) { CHECK(util::ReadInt57(mem, p, w[i], lowmask(w[i])) == v[i], "array", "field " << i); p += w[i]; } for (size_t i = 0; i < sizeof(mem) * 8; i++) if (i < (size_t)off || i >= p) CHECK(!bitat(mem, i), "neighbour", "bit " << i); steps++; } c.step(steps); c.checked(steps);
}
MC_SPACE(bits_float, 3) {   // floats at all bit offsets: patterns by exponent and leading digits
    int off = c.choose(8), sign = c.choose(2), hi = c.choose(256); c.describe("floats with exponent " + to_string(hi)); int more = c.thorough ? 23 : 12; uint64_t n = 0; for (uint32_t m = 0; m < 1u << more; m++) { uint32_t bits = (uint32_t)sign << 31 | (uint32_t)hi << 23 | m << (23 - more) | (m & 1); float f; memcpy(&f, &bits, 4); unsigned char mem[24]; memset(mem, 0, sizeof mem); util::WriteFloat32(mem, 32 + off, f); float g = util::ReadFloat32(mem, 32 + off); uint32_t gb; memcpy(&gb, &g, 4); CHECK(gb == bits, "float", hex << bits << " reads as " << gb); uint64_t around; memcpy(&around, mem + 4, 8); CHECK(around == (uint64_t)bits << off, "neighbour", hex << around); CHECK(!mem[0] && !mem[3] && !mem[12], "neighbour", "");
        if (sign) { memset(mem, 0, sizeof mem); util::WriteNonPositiveFloat31(mem, 32 + off, f); g = util::ReadNonPositiveFloat31(mem, 32 + off); memcpy(&gb, &g, 4); CHECK(gb == bits, "float31", hex << bits << " reads as " << gb); memcpy(&around, mem + 4, 8); CHECK(around == (uint64_t)(bits & 0x7fffffff) << off, "neighbour", hex << around); memset(mem, 255, sizeof mem); for (int i = 0; i < 31; i++) mem[(32 + off + i) >> 3] &= ~(1 << ((32 + off + i) & 7)); util::WriteNonPositiveFloat31(mem, 32 + off, f); g = util::ReadNonPositiveFloat31(mem, 32 + off); memcpy(&gb, &g, 4); CHECK(gb == bits, "float31", "between other fields: " << hex << bits << " reads as " << gb); }
        n++; } c.step(n); c.checked(n);
}
MC_SPACE(bits_size, 3) { int w = c.choose(64); c.describe("bits for values around 2^" + to_string(w)); for (int d = -1; d < 2; d++) { uint64_t v = (1ULL << w) + d; if (w == 0 && d < 0) v = 0; int need = 0; while (need < 64 && (need == 0 ? v > 0 : v >> need)) need++; CHECK(util::RequiredBits(v) == need, "bits", v << " needs " << need << " bits, not " << (int)util::RequiredBits(v)); if (need <= 57) { util::BitsMask m = util::BitsMask::ByMax(v), b = util::BitsMask::ByBits(need); CHECK(m.bits == need && m.mask == lowmask(need) && b.bits == need && b.mask == lowmask(need), "mask", v); } c.step(); } util::BitPackingSanity(); }
// ---------------------------------------------------------------- searching sorted arrays
template <class T> static void searchall(mc::Ctx & c, const vector<T> & a, const vector<T> & keys) {
    typedef util::IdentityAccessor<T> A; A acc; for (T k : keys) { const T * b = a.empty() ? 0 : &a[0], * e = b + a.size(), * out = 0; bool want = binary_search(a.begin(), a.end(), k); bool g1 = util::SortedUniformFind<const T *, A, typename util::PivotSelect<sizeof(T)>::T>(acc, b, e, k, out); ostringstream s; for (T x : a) s << (uint64_t)x << " "; CHECK(g1 == want && (!want || *out == k), "uniform", "key " << (uint64_t)k << " in " << s.str()); out = 0; bool g2 = util::BinaryFind<const T *, A>(acc, b, e, k, out); CHECK(g2 == want && (!want || *out == k), "binary", "key " << (uint64_t)k << " in " << s.str()); if (a.size() >= 2 && k > a[0] && k < a.back()) { bool g3 = util::BoundedSortedUniformFind<const T *, A, typename util::PivotSelect<sizeof(T)>::T>(acc, b, a[0], e - 1, a.back(), k, out); CHECK(g3 == want && (!want || *out == k), "bounded", "key " << (uint64_t)k << " in " << s.str()); } c.step(); } c.checked(keys.size());
}
template <class T> static void search(mc::Ctx & c, int most) {
    T top = numeric_limits<T>::max(); vector<T> pool = {0, 1, 2, 3, 5, 8, 9, 10, 100, 101, (T)(top / 3), (T)(top / 2), (T)(top - 2), (T)(top - 1), top}; vector<T> keys = pool; for (T p : pool) { if (p) keys.push_back(p - 1); if (p != top) keys.push_back(p + 1); } int n = pool.size(); int hi = c.choose(32); c.describe("sorted arrays of " + to_string(sizeof(T)) + " bytes, part " + to_string(hi)); for (int m = 0; m < 1 << (n - 5); m++) { int bits = m << 5 | hi; if (__builtin_popcount(bits) > most) continue; vector<T> a; for (int i = 0; i < n; i++) if (bits >> i & 1) { a.push_back(pool[i]); } searchall(c, a, keys); c.state((uint64_t)sizeof(T) << 40 | bits); }
}
MC_SPACE(sorted, 3) { int k = c.choose(3); int most = c.thorough ? 15 : 6; if (k == 0) search<uint64_t>(c, most); else if (k == 1) search<uint32_t>(c, most); else search<uint16_t>(c, most); }
MC_SPACE(sorted_repeats, 3) { int n = c.range(0, 7); c.describe("arrays of " + to_string(n) + " with repeated values"); vector<uint32_t> a(n); function<void(int, uint32_t)> rec = [&](int i, uint32_t lo) { if (i == n) { vector<uint32_t> k = {0, 1, 2, 3, 4, 5}; searchall(c, a, k); return; } for (uint32_t v = lo; v < 6; v++) { a[i] = v; rec(i + 1, v); } }; rec(0, 0); }
// ---------------------------------------------------------------- hash tables
struct Entry { typedef uint64_t Key; uint64_t key, val; uint64_t GetKey() const { return key; } void SetKey(uint64_t k) { key = k; } };
struct Mod { uint64_t operator()(uint64_t k) const { return k == 99 ? 99 : k % 7; } };     // keys from 7 on clash
struct Same { uint64_t operator()(uint64_t) const { return 2; } };
typedef map<uint64_t, uint64_t> Ref;
template <class H> static void table(mc::Ctx & c, int buckets, int ops, int keys) {
    typedef util::ProbingHashTable<Entry, H> T; vector<Entry> mem(buckets * 4); T t(&mem[0], buckets * sizeof(Entry), 99); t.Clear(); Ref ref; string log; size_t size = buckets; c.describe([&] { return to_string(buckets) + " buckets: " + log; }); int doubled = 0;
    for (int i = 0; i < ops; i++) {
        int o = c.choose(2 * keys + 2); if (o == 2 * keys + 1) { if (doubled == 2) return; doubled++; log += "double "; t.Double(&mem[0]); size *= 2; } else if (o == 2 * keys) { log += "move "; vector<Entry> m2(mem.size()); memcpy(&m2[0], &mem[0], mem.size() * sizeof(Entry)); mem.swap(m2); t.Relocate(&mem[0]); }
        else { uint64_t k = o / 2 * 7 + (o / 2 == 2 ? 3 : 1); k = (uint64_t[]){5, 12, 6, 13, 0, 19}[o / 2]; Entry e; e.key = k; e.val = i + 1; bool ins = o % 2; if (ins && ref.count(k)) return; log += (ins ? "insert " : "find-or-insert ") + to_string(k) + " "; bool full = ref.size() + 1 >= size && (ins || !ref.count(k)); bool threw = false; try { if (ins) { Entry * p = t.Insert(e); CHECK(p->key == k && p->val == (uint64_t)i + 1, "insert", log); } else { Entry * p; bool f = t.FindOrInsert(e, p); CHECK(f == (ref.count(k) == 1), "find-or-insert", log); CHECK(p->key == k && p->val == (f ? ref[k] : i + 1), "find-or-insert", log); } } catch (util::ProbingSizeException &) { threw = true; } CHECK(threw == full, "full", log); if (threw) return; if (!ref.count(k)) ref[k] = i + 1; }
        c.step(); c.state(std::hash<string>()(log) ^ buckets); CHECK(t.SizeNoSerialization() == ref.size(), "size", log); for (uint64_t k : {5, 12, 6, 13, 0, 19, 1, 26}) { const Entry * p = 0; bool f = t.Find((uint64_t)k, p); CHECK(f == (ref.count(k) == 1) && (!f || (p->key == k && p->val == ref[k])), "find", "key " << k << " after " << log); Entry * q; CHECK(t.UnsafeMutableFind((uint64_t)k, q) == f && (!f || q == p), "find", log); if (f) CHECK(t.MustFind((uint64_t)k) == p && t.UnsafeMutableMustFind((uint64_t)k) == p, "find", log); }
    }
}
MC_SPACE(probing, 3) { int b = c.range(2, 5), h = c.choose(2); if (h) table<Same>(c, b, 4, 4); else table<Mod>(c, b, 4, 5); }
MC_SPACE(probing_long, 2) { int b = c.range(2, 6), h = c.choose(2); if (h) table<Same>(c, b, 5, 6); else table<Mod>(c, b, 5, 6); }
MC_SPACE(growing, 3) {     // tables that grow by themselves
    typedef util::AutoProbing<Entry, Mod> T; int init = c.choose(5), mode = c.choose(2); T t(init, 99); Ref ref; string log; c.describe([&] { return "initial size " + to_string(init) + ": " + log; }); static const uint64_t K[] = {5, 12, 6, 13, 0}; int seed = c.choose(32); uint64_t n = 0;
    for (int i = 0; i < 14; i++) { uint64_t k = i < 5 ? K[(i + seed) % 5] + (seed >> i & 1 ? 70 : 0) : (uint64_t)i * (seed % 4 == 0 ? 7 : seed % 4 == 1 ? 8 : seed % 4 == 2 ? 1 : 14) + 200; Entry e; e.key = k; e.val = i + 1; log += to_string(k) + " "; if (mode && ref.count(k)) continue; if (mode) { Entry * p = t.Insert(e); CHECK(p->key == k && p->val == (uint64_t)i + 1, "insert", log); ref[k] = i + 1; } else for (int twice = 0; twice < 2; twice++) { Entry * p; bool f = t.FindOrInsert(e, p); CHECK(f == (ref.count(k) == 1), "find-or-insert", log); if (!f) ref[k] = i + 1; CHECK(p->key == k && p->val == ref[k], "find-or-insert", log); }
        n++; CHECK(t.Size() == ref.size(), "size", t.Size() << " after " << log); for (auto & r : ref) { const Entry * p; CHECK(t.Find(r.first, p) && p->val == r.second, "find", r.first << " after " << log); } const Entry * p; CHECK(!t.Find((uint64_t)1, p) && !t.Find((uint64_t)8, p), "absent", log); } t.Clear(); CHECK(t.Size() == 0, "clear", log); for (auto & r : ref) { const Entry * p; CHECK(!t.Find(r.first, p), "clear", log); } c.step(n); c.checked(n);
}
MC_SPACE(capacity, 3) { int n = c.choose(60), m = c.choose(5); static const float M[] = {0.5, 1, 1.2, 1.5, 3}; typedef util::ProbingHashTable<Entry, Mod> T; uint64_t s = T::Size(n, M[m]); c.describe(to_string(n) + " entries x " + to_string(M[m])); vector<Entry> mem(s / sizeof(Entry)); T t(&mem[0], s, 99); t.Clear(); for (int i = 0; i < n; i++) { Entry e; e.key = 100 + i * 3; e.val = i; t.Insert(e); } for (int i = 0; i < n; i++) { const Entry * p; CHECK(t.Find((uint64_t)(100 + i * 3), p) && p->val == (uint64_t)i, "capacity", i); } const Entry * p; CHECK(!t.Find((uint64_t)101, p), "absent", ""); c.step(n + 1); }
// ---------------------------------------------------------------- joint sorting
MC_SPACE(joint, 3) {
    int n = c.range(0, c.thorough ? 9 : 7), k = n <= 4 ? 4 : 3, less = c.choose(2); long tot = 1; for (int i = 0; i < n; i++) tot *= k; c.describe("all arrays of " + to_string(n)); for (long x = 0; x < tot; x++) { vector<char> key(n); vector<double> val(n); long y = x; for (int i = 0; i < n; i++) { key[i] = 'a' + y % k; y /= k; val[i] = key[i] * 100 + i; } if (less) util::JointSort(key.begin(), key.end(), val.begin()); else util::JointSort(key.begin(), key.end(), val.begin(), greater<char>()); set<double> seen; for (int i = 0; i < n; i++) { CHECK(i == 0 || (less ? key[i - 1] <= key[i] : key[i - 1] >= key[i]), "order", "array " << x); CHECK((int)(val[i] / 100) == key[i] && seen.insert(val[i]).second, "pairs", "array " << x << " of " << n); } } c.step(tot); c.checked(tot);
}
MC_SPACE(joint_big, 3) {    // long enough for every stage of the sorting algorithm
    int n = c.range(15, c.thorough ? 20 : 18), part = c.choose(16); c.describe("all 0/1 arrays of " + to_string(n)); long cnt = 0; for (long x = part; x < 1L << n; x += 16) { int key[24]; short val[24]; for (int i = 0; i < n; i++) { key[i] = x >> i & 1; val[i] = key[i] * 100 + i; } util::JointSort((int *)key, (int *)key + n, (short *)val); uint32_t seen = 0; bool ok = true; for (int i = 0; i < n; i++) { ok &= i == 0 || key[i - 1] <= key[i]; ok &= val[i] / 100 == key[i]; seen |= 1u << (val[i] % 100); } CHECK(ok && seen == (1u << n) - 1, "pairs", "array " << x << " of " << n); cnt++; } c.step(cnt); c.checked(cnt);
}
struct Bytes { bool operator()(const void * a, const void * b) const { return *(const unsigned char *)a < *(const unsigned char *)b; } };
MC_SPACE(sized, 3) {        // entries whose size is known only at run time
    int n = c.range(0, 6), size = c.range(1, 9), big = c.choose(2); long tot = 1; for (int i = 0; i < n; i++) tot *= 3; if (big) tot = 1L << 10; c.describe(to_string(n) + " entries of " + to_string(size) + " bytes"); for (long x = 0; x < tot; x++) { int m = big ? 17 + n : n; vector<unsigned char> mem(m * size + 1, 7); long y = x; for (int i = 0; i < m; i++) { int k = big ? (x * (i + 3) >> (i % 10)) & 3 : y % 3; y /= 3; for (int b = 0; b < size; b++) mem[i * size + b] = b == 0 ? k : size > 2 && b == size - 1 ? i : (k * 10 + b); } vector<unsigned char> before = mem; util::SizedCompare<Bytes> cmp; sort(util::SizedIt(&mem[0], size), util::SizedIt(&mem[0] + m * size, size), cmp); multiset<string> a, b; for (int i = 0; i < m; i++) { a.insert(string((char *)&before[i * size], size)); b.insert(string((char *)&mem[i * size], size)); CHECK(i == 0 || mem[(i - 1) * size] <= mem[i * size], "order", x); } CHECK(a == b && mem[m * size] == 7, "entries", "array " << x); } c.step(tot); c.checked(tot);
}
// ---------------------------------------------------------------- intersection of sorted sequences
struct Collect { vector<int> * v; void operator()(int x) { v->push_back(x); } };
MC_SPACE(intersection, 3) {
    int n = c.range(1, 4), width = n == 1 ? 8 : n == 2 ? 6 : n == 3 ? 4 : 3, first = c.choose(1 << width); c.describe(to_string(n) + " sets, the first is " + to_string(first)); long tot = 1; for (int i = 1; i < n; i++) tot <<= width; for (long x = 0; x < tot; x++) { vector<vector<int> > s(n); long y = x; int common = (1 << width) - 1; for (int i = 0; i < n; i++) { int b = i == 0 ? first : y & ((1 << width) - 1); if (i) y >>= width; common &= b; for (int k = 0; k < width; k++) if (b >> k & 1) s[i].push_back(k); } typedef boost::iterator_range<vector<int>::const_iterator> R; for (int all = 0; all < 2; all++) { vector<R> r; for (auto & v : s) r.push_back(R(v.begin(), v.end())); vector<int> got, want; for (int k = 0; k < width; k++) if (common >> k & 1) want.push_back(k); if (all) { Collect col = {&got}; util::AllIntersection(r, col); CHECK(got == want, "all", "sets " << first << " " << x); } else { boost::optional<int> f = util::FirstIntersection(r); CHECK(bool(f) == !want.empty() && (!f || *f == want[0]), "first", "sets " << first << " " << x); } } } c.step(tot); c.checked(tot);
}
// ---------------------------------------------------------------- arena, hashing
MC_SPACE(arena, 3) { util::Pool p; vector<pair<unsigned char *, size_t> > got; string log; c.describe([&] { return log; }); static const size_t S[] = {0, 1, 8, 31, 32, 33, 64, 100}; int n = c.range(1, c.thorough ? 6 : 4); for (int i = 0; i < n; i++) { int o = c.choose(9); c.step(); if (o == 8) { log += "free "; p.FreeAll(); got.clear(); continue; } log += to_string(S[o]) + " "; unsigned char * q = (unsigned char *)p.Allocate(S[o]); memset(q, 17 + i, S[o]); for (auto & g : got) if (S[o] && g.second) CHECK(q + S[o] <= g.first || g.first + g.second <= q, "overlap", log); got.push_back(make_pair(q, S[o])); int k = 0; for (auto & g : got) { for (size_t b = 1; b < g.second; b++) CHECK(g.first[b] == g.first[0], "contents", log); k++; } } }
static uint64_t murmur(const unsigned char * d, size_t len, uint64_t seed) { const uint64_t m = 0xc6a4a7935bd1e995ULL; uint64_t h = seed ^ (len * m); size_t i = 0; for (; i + 8 <= len; i += 8) { uint64_t k = 0; for (int b = 7; b >= 0; b--) k = k << 8 | d[i + b]; k *= m; k ^= k >> 47; k *= m; h ^= k; h *= m; } if (len & 7) { for (size_t b = 0; b < (len & 7); b++) h ^= (uint64_t)d[i + b] << (8 * b); h *= m; } h ^= h >> 47; h *= m; h ^= h >> 47; return h; }
MC_SPACE(murmur_, 3) { int len = c.choose(40), at = c.choose(8), seed = c.choose(3); c.describe("hash of " + to_string(len) + " bytes"); static const uint64_t SEED[] = {0, 1, 0xffffffffffffffffULL}; vector<unsigned char> mem(64, 0xee); for (int v = 0; v < 256; v++) { for (int i = 0; i < len; i++) mem[at + i] = v * (i + 1) + (v >> (i % 8)); uint64_t w = murmur(&mem[at], len, SEED[seed]); CHECK(util::MurmurHash64A(&mem[at], len, SEED[seed]) == w && util::MurmurHashNative(&mem[at], len, SEED[seed]) == w, "hash", len << " bytes at " << at << " pattern " << v); c.step(); } }
// ---------------------------------------------------------------- succinct vectors of the trie
using marisa::grimoire::vector::BitVector; using marisa::grimoire::vector::FlatVector;
static string save(const function<void(marisa::grimoire::Writer &)> & f) { ostringstream os; marisa::grimoire::Writer w; w.open(os); f(w); return os.str(); }
static void checkbits(mc::Ctx & c, const BitVector & v, const vector<bool> & b, const string & what) {
    CHECK(v.size() == b.size(), "size", what); size_t ones = 0, zeros = 0; for (size_t i = 0; i < b.size(); i++) { CHECK(v.rank1(i) == ones && v.rank0(i) == zeros, "rank", what << " at " << i); CHECK(v[i] == b[i], "bit", what); if (b[i]) { CHECK(v.select1(ones) == i, "select1", what << " number " << ones << " is " << v.select1(ones) << " instead of " << i); ones++; } else { CHECK(v.select0(zeros) == i, "select0", what << " number " << zeros << " is " << v.select0(zeros) << " instead of " << i); zeros++; } } CHECK(v.num_1s() == ones && v.num_0s() == zeros, "count", what);
}
static void bitvector(mc::Ctx & c, const vector<bool> & b, const string & what, bool io) {
    BitVector v; for (bool x : b) v.push_back(x); v.build(true, true); checkbits(c, v, b, what); c.step(); if (!io) return; string s = save([&](marisa::grimoire::Writer & w) { v.write(w); }); CHECK(s.size() == v.io_size(), "io-size", what); { istringstream is(s); marisa::grimoire::Reader r; r.open(is); BitVector u; u.read(r); checkbits(c, u, b, what + " read again"); } { vector<uint64_t> mem((s.size() + 7) / 8); memcpy(&mem[0], s.data(), s.size()); marisa::grimoire::Mapper m; m.open(&mem[0], s.size()); BitVector u; u.map(m); checkbits(c, u, b, what + " mapped"); }
}
MC_SPACE(bitvector_short, 3) { int n = c.range(0, c.thorough ? 18 : 14), part = c.choose(8); c.describe("all vectors of " + to_string(n) + " bits"); for (long x = part; x < 1L << n; x += 8) { vector<bool> b(n); for (int i = 0; i < n; i++) b[i] = x >> i & 1; bitvector(c, b, "vector " + to_string(x) + " of " + to_string(n), n < 8); } c.checked(); }
MC_SPACE(bitvector_long, 3) {   // repeated patterns around the limits of blocks, with one run somewhere
    int per = c.range(1, 6), bits = c.choose(1 << per), base = c.choose(5), run = c.choose(4); static const int N[] = {64, 448, 512, 1024, 1536}; c.describe("pattern " + to_string(bits) + " of " + to_string(per) + " bits"); for (int n = N[base] - 2; n <= N[base] + 2; n++) { vector<bool> b(n); for (int i = 0; i < n; i++) b[i] = bits >> (i % per) & 1; if (run) for (int i = n / 4; i < n - n / 8; i++) b[i] = run == 1 ? true : run == 2 ? false : i % 65 == 0; bitvector(c, b, "pattern " + to_string(bits) + "/" + to_string(per) + " of " + to_string(n) + " bits with run " + to_string(run), true); } c.checked();
}
MC_SPACE(flatvector, 3) {
    int w = c.range(0, 32), n = c.choose(6); static const int N[] = {0, 1, 2, 5, 64, 131}; c.describe(to_string(N[n]) + " values of " + to_string(w) + " bits"); for (int k = 0; k < 8; k++) { marisa::grimoire::Vector<marisa::UInt32> in; vector<uint32_t> ref; uint64_t m = lowmask(w); for (int i = 0; i < N[n]; i++) { uint64_t x = k == 0 ? m : k == 1 ? 0 : k == 2 ? (i % 2 ? m : 0) : k == 3 ? (1ULL << (w ? i % w : 0)) & m : k == 4 ? 0x9E3779B9ULL * (i + 1) & m : k == 5 ? (i == 0 ? m : 0) : k == 6 ? (i == N[n] - 1 ? m : 0) : (i % 3 == 0 ? m : i % 3) & m; in.push_back(x); ref.push_back(x); } FlatVector f; f.build(in); auto check = [&](const FlatVector & g, const char * what) { CHECK(g.size() == ref.size(), "size", what); for (size_t i = 0; i < ref.size(); i++) CHECK(g[i] == ref[i], "flat", what << " value " << i << " of " << ref.size() << " with " << w << " bits is " << g[i] << " instead of " << ref[i]); }; check(f, "built"); string s = save([&](marisa::grimoire::Writer & q) { f.write(q); }); CHECK(s.size() == f.io_size(), "io-size", ""); { istringstream is(s); marisa::grimoire::Reader r; r.open(is); FlatVector g; g.read(r); check(g, "read"); } { vector<uint64_t> mem((s.size() + 7) / 8 + 1); memcpy(&mem[0], s.data(), s.size()); marisa::grimoire::Mapper q; q.open(&mem[0], s.size()); FlatVector g; g.map(q); check(g, "mapped"); } c.step(); } c.checked();
}
// ---------------------------------------------------------------- the string trie
static vector<string> strings(const string & alpha, int len) { vector<string> r(1), last(1); for (int l = 1; l <= len; l++) { vector<string> nx; for (auto & s : last) for (char ch : alpha) nx.push_back(s + ch); r.insert(r.end(), nx.begin(), nx.end()); last = nx; } return r; }
static string printable(const string & s) { string r = "'"; for (unsigned char ch : s) { if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; } else r += ch; } return r + "'"; }
static void checktrie(mc::Ctx & c, const marisa::Trie & t, const vector<string> & keys, const vector<string> & queries, const map<string, size_t> * ids, const string & what, map<string, size_t> & out) {
    set<string> ks(keys.begin(), keys.end()); CHECK(t.size() == ks.size() && t.num_keys() == ks.size() && t.empty() == ks.empty(), "size", what << " has " << t.size()); out.clear(); set<size_t> used; marisa::Agent a;
    for (auto & q : queries) { a.set_query(q.data(), q.size()); bool f = t.lookup(a); CHECK(f == (ks.count(q) == 1), "lookup", printable(q) << " in " << what); if (f) { size_t id = a.key().id(); CHECK(id < ks.size() && used.insert(id).second, "id", what); CHECK(string(a.key().ptr(), a.key().length()) == q, "lookup-key", what); out[q] = id; marisa::Agent r; r.set_query(id); t.reverse_lookup(r); CHECK(string(r.key().ptr(), r.key().length()) == q && r.key().id() == id, "reverse", printable(q) << " comes back as " << printable(string(r.key().ptr(), r.key().length())) << " in " << what); }
        vector<string> pre; a.set_query(q.data(), q.size()); while (t.common_prefix_search(a)) { string k(a.key().ptr(), a.key().length()); CHECK(pre.empty() || k.size() > pre.back().size(), "prefix-order", what); pre.push_back(k); CHECK(pre.size() <= q.size() + 1, "prefix", what); } vector<string> wp; for (size_t l = 0; l <= q.size(); l++) if (ks.count(q.substr(0, l))) wp.push_back(q.substr(0, l)); CHECK(pre == wp, "prefix", "prefixes of " << printable(q) << " in " << what);
        set<string> pred, wd; a.set_query(q.data(), q.size()); while (t.predictive_search(a)) { string k(a.key().ptr(), a.key().length()); CHECK(pred.insert(k).second, "predict-twice", printable(k) << " in " << what); CHECK(!out.count(k) || out[k] == a.key().id(), "id", what); } for (auto & k : ks) if (k.compare(0, q.size(), q) == 0) wd.insert(k); CHECK(pred == wd, "predict", pred.size() << " instead of " << wd.size() << " completions of " << printable(q) << " in " << what); }
    CHECK(out.size() == ks.size(), "keys", what); marisa::Agent r; r.set_query(ks.size()); bool threw = false; try { t.reverse_lookup(r); } catch (marisa::Exception &) { threw = true; } CHECK(threw, "reverse-range", what); if (ids) CHECK(out == *ids, "ids", what); c.checked();
}
static void trie(mc::Ctx & c, const vector<string> & keys, const vector<string> & queries, int flags, int io, const string & extra = "") {
    string what = "{"; for (auto & k : keys) what += printable(k) + " "; what += "} flags " + to_string(flags) + extra; marisa::Keyset ks; for (size_t i = 0; i < keys.size(); i++) ks.push_back(keys[i].data(), keys[i].size(), 1.0f + (i * 7) % 5); marisa::Trie t; t.build(ks, flags); map<string, size_t> ids, again; checktrie(c, t, keys, queries, 0, what, ids); c.step(); for (size_t i = 0; i < keys.size(); i++) CHECK(ks[i].id() == ids[keys[i]], "keyset-id", what);
    if (!io) return; stringstream ss; ss << t; string s = ss.str(); CHECK(s.size() == t.io_size(), "io-size", what); { marisa::Trie u; istringstream is(s); is >> u; checktrie(c, u, keys, queries, &ids, what + " read from a stream", again); } { vector<uint64_t> mem((s.size() + 7) / 8); memcpy(&mem[0], s.data(), s.size()); marisa::Trie u; u.map(&mem[0], s.size()); checktrie(c, u, keys, queries, &ids, what + " mapped", again); }
    if (io > 1) { char path[] = "/tmp/k04XXXXXX"; int fd = mkstemp(path); t.write(fd); { marisa::Trie u; lseek(fd, 0, SEEK_SET); u.read(fd); checktrie(c, u, keys, queries, &ids, what + " read from a descriptor", again); } close(fd); try { t.save(path); { marisa::Trie u; u.load(path); checktrie(c, u, keys, queries, &ids, what + " loaded", again); } { marisa::Trie u; u.mmap(path); checktrie(c, u, keys, queries, &ids, what + " mmapped", again); } } catch (...) { unlink(path); throw; } unlink(path); 
        for (size_t cut = 0; cut < s.size(); cut += s.size() > 400 && cut > 64 ? 37 : 1) { bool threw = false; try { istringstream is(s.substr(0, cut)); marisa::Trie u; marisa::grimoire::Reader r; is >> u; } catch (exception &) { threw = true; } CHECK(threw, "truncated", what << " cut at " << cut << " of " << s.size()); threw = false; vector<uint64_t> mem((cut + 7) / 8 + 1); memcpy(&mem[0], s.data(), cut); try { marisa::Trie u; u.map(&mem[0], cut); } catch (exception &) { threw = true; } CHECK(threw, "truncated-map", what << " cut at " << cut << " of " << s.size()); c.step(); } }
}
static int flagset(int k) { static const int F[] = {0, 1 | MARISA_TEXT_TAIL | MARISA_LABEL_ORDER | MARISA_TINY_CACHE, 2 | MARISA_BINARY_TAIL | MARISA_WEIGHT_ORDER | MARISA_HUGE_CACHE, 127 | MARISA_BINARY_TAIL | MARISA_LABEL_ORDER | MARISA_SMALL_CACHE, 1 | MARISA_BINARY_TAIL, 3 | MARISA_TEXT_TAIL | MARISA_LABEL_ORDER | MARISA_LARGE_CACHE}; return F[k]; }
MC_SPACE(trie_sets, 3) {     // all sets of strings over two letters
    vector<string> pool = strings("ab", 3), queries = strings("ab", 4); queries.push_back("c"); queries.push_back("ac"); int f = c.choose(c.thorough ? 6 : 3), hi = c.choose(128); c.describe("sets of strings up to 3 letters, part " + to_string(hi) + " flags " + to_string(f)); for (int lo = 0; lo < 256; lo++) { int m = lo << 7 | hi; if (!c.thorough && __builtin_popcount(m) > 5 && __builtin_popcount(m) < 13) continue; vector<string> keys; for (int i = 0; i < 15; i++) if (m >> i & 1) keys.push_back(pool[i]); c.state((uint64_t)f << 32 | m); trie(c, keys, queries, flagset(f), lo % 16 == 0); }
}
MC_SPACE(trie_bytes, 3) {   // zero bytes, high bytes, long tails, keys that share their endings
    static const vector<string> P = {string("\0", 1), string("a\0", 2), string("\0a", 2), "\377\200", "a", "abcdefgh", "xbcdefgh", "abcdefgi", "", "cdefgh", string("a\0b", 3), "S ( x0:NP \"", string(300, 'q'), string(300, 'q') + "r"}; int f = c.choose(6), hi = c.choose(64); c.describe("special keys, part " + to_string(hi) + " flags " + to_string(f)); vector<string> q = P; for (auto & p : P) { q.push_back(p + "a"); q.push_back(p + string("\0", 1)); if (p.size()) q.push_back(p.substr(0, p.size() - 1)); } sort(q.begin(), q.end()); q.erase(unique(q.begin(), q.end()), q.end()); int most = c.thorough ? 6 : 4; for (int lo = 0; lo < 256; lo++) { int m = lo << 6 | hi; if (__builtin_popcount(m) > most) continue; vector<string> keys; for (int i = 0; i < 14; i++) if (m >> i & 1) keys.push_back(P[i]); c.state((uint64_t)f << 32 | m | 1 << 30); trie(c, keys, q, flagset(f), lo % 8 == 0); }
}
MC_SPACE(trie_orders, 3) {  // any order of insertion, and repeated keys
    static const vector<string> P = {"a", "ab", "b", "", "abc", "bc"}; int n = c.range(0, c.thorough ? 5 : 4), f = c.choose(3); vector<string> keys; for (int i = 0; i < n; i++) keys.push_back(P[c.choose(6)]); vector<string> q = strings("abc", 3); c.describe("keys in order"); trie(c, keys, q, flagset(f), n <= 2 ? 2 : 0);
}
MC_SPACE(trie_large, 3) {   // many keys: blocks of the succinct vectors
    int k = c.choose(8), f = c.choose(6); vector<string> keys; c.describe("large set " + to_string(k) + " flags " + to_string(f)); int n = 300; for (int i = 0; i < n; i++) { string s; if (k == 0) s = to_string(i); else if (k == 1) s = string(i, 'x'); else if (k == 2) { for (int b = 0; b < 9; b++) s += "ab"[i >> b & 1]; } else if (k == 3) s = "common prefix " + to_string(i * 7919 % 1000) + " common suffix"; else if (k == 4) { s = string(1, i % 256); s += string(1, i / 256); } else if (k == 5) { for (int x = i; x; x /= 3) s += "abc"[x % 3]; } else if (k == 6) s = to_string(i * i) + string(i % 5, '\0'); else s = string(i % 17, 'a') + string(i / 17, 'b'); keys.push_back(s); } set<string> u(keys.begin(), keys.end()); vector<string> q(u.begin(), u.end()); for (auto & x : keys) { string y = x + "!"; if (!u.count(y)) q.push_back(y); } sort(q.begin(), q.end()); q.erase(unique(q.begin(), q.end()), q.end()); if (!c.thorough) { vector<string> r; for (size_t i = 0; i < q.size(); i++) if (u.count(q[i]) || i % 5 == 0) r.push_back(q[i]); q = r; } trie(c, keys, q, flagset(f), 1);
}
int main(int argc, char ** argv) { return mc::main(argc, argv); }
