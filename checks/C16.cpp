// The public C interface delivers what was stored, within the caller's buffers, in agreement with the library beneath it.
// flavour: asan
#include "items.h"
#include "irr.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace items; using ts::MISS;
static const char* const F0 = "/mc/a.dss";
struct Dss { dss_file* d = nullptr; bool open(const string& key, const char* n = F0) { int rc = hec_dss_open(n, &d); if (rc || !d) { fail(key, "opening returned %d", rc); d = nullptr; return false; } return true; } void close(const string& key) { if (d) { int rc = hec_dss_close(d); d = nullptr; if (rc) fail(key, "closing returned %d", rc); } } ~Dss() { if (d) hec_dss_close(d); } operator dss_file*() { return d; } };
// an output array of exactly n elements; an access beyond them is caught by the address sanitizer
template <class T> struct Out { T* p; int n; Out(int n, T fill = (T)0) : n(n) { memset(&fill, 0x23, sizeof fill); p = (T*)malloc(n ? n * sizeof(T) : 1); for (int i = 0; i < n; i++) p[i] = fill; if (!n) { free(p); p = (T*)malloc(0); } } ~Out() { free(p); } Out(const Out&) = delete;
  bool kept(int from = 0) const { for (int i = from; i < n; i++) for (size_t b = 0; b < sizeof(T); b++) if (((unsigned char*)(p + i))[b] != 0x23) return false; return true; } };
struct Str : Out<char> { Str(int n) : Out<char>(n) {}
  // holds `w` as far as it fits, terminated, with nothing after it touched
  bool is(const string& w, const string& key, const char* what) const { if (!n) return true; size_t m = std::min<size_t>(w.size(), n - 1); if (memcmp(p, w.data(), m) || p[m]) { fail(key, "%s delivered as '%s' in a buffer of %d, expected '%s'", what, show(string(p, n)).c_str(), n, show(w.substr(0, m)).c_str()); return false; } return true; } };
static string word(int n, int seed) { string s = chars(n, seed); for (auto& c : s) if (c == ' ' || c == '\n') c = 'q'; return s; }
typedef cal::ll ll;
struct Got { int status = -9, n = -9, base = -9, gran = -9; vector<ll> t; vector<double> v; vector<int> q; };
// retrieve through the public interface; checks the buffers, and that nothing beyond the number delivered is touched
static bool get(dss_file* d, const string& p, const char* d1, const char* t1, const char* d2, const char* t2, int size, bool wantQ, const string& units, const string& type, const string& tz, int lu, int lt, int lz, Got& g, const string& key, const char* what) {
  Out<int> t(size), q(wantQ ? size : 0); Out<double> v(size); Str u(lu), y(lt), z(lz); transition();
  g.status = hec_dss_tsRetrieve(d, p.c_str(), d1, t1, d2, t2, t.p, v.p, size, &g.n, q.p, wantQ ? 1 : 0, &g.base, &g.gran, u.p, lu, y.p, lt, z.p, lz);
  if (g.status) { if (g.n) { fail(key, "%s: status %d but %d values reported", what, g.status, g.n); return false; } if (!t.kept() || !v.kept() || !q.kept() || !u.kept() || !y.kept() || !z.kept()) { fail(key, "%s: status %d but output was written", what, g.status); return false; } return true; }
  if (g.n < 0 || g.n > size) { fail(key, "%s: %d values reported for arrays of %d", what, g.n, size); return false; }
  if (!t.kept(g.n) || !v.kept(g.n) || (wantQ && !q.kept(g.n))) { fail(key, "%s: elements beyond the %d values reported were written", what, g.n); return false; }
  for (int i = 0; i < g.n; i++) { g.t.push_back(g.base * 86400LL + (ll)t.p[i] * g.gran); g.v.push_back(v.p[i]); if (wantQ) g.q.push_back(q.p[i]); }
  return u.is(units, key, "units") && y.is(type, key, "type") && z.is(tz, key, "time zone"); }
static int putReg(dss_file* d, const string& p, ll t0, vector<double> v, vector<int> q, bool flt, const string& u, const string& ty, const string& tz, int flag) { string D = cal::date(t0), T = cal::time(t0); transition(); return hec_dss_tsStoreRegular(d, p.c_str(), D.c_str(), T.c_str(), v.data(), v.size(), q.data(), q.size(), flt, u.c_str(), ty.c_str(), tz.c_str(), flag); }
static int putIrr(dss_file* d, const string& p, const irr::Series& s, int gran, const char* base, bool quality, bool flt, const string& u, const string& ty, const string& tz, int flag) { vector<int> t, q; vector<double> v; ll b = base && *base ? dateToJulian(base) * 86400LL : 0; for (auto& e : s) { t.push_back((int)((e.first - b) / gran)); v.push_back(e.second.v); if (quality) q.push_back(e.second.q); } transition(); return hec_dss_tsStoreIregular(d, p.c_str(), base, t.data(), gran, v.data(), v.size(), q.data(), q.size(), flt, u.c_str(), ty.c_str(), tz.c_str(), flag); }
// what is expected of a retrieval: n values in order of time
struct Want { vector<ll> t; vector<double> v; vector<int> q; };
static bool same(const Got& g, const Want& w, int size, bool q, const string& key, const char* what) {
  if (g.status) { fail(key, "%s: status %d, expected %zu values", what, g.status, w.v.size()); return false; } int n = std::min<int>(size, w.v.size()); if (g.n != n) { fail(key, "%s: %d values delivered into arrays of %d, expected %d", what, g.n, size, n); return false; }
  for (int i = 0; i < n; i++) { if (g.t[i] != w.t[i]) { fail(key, "%s: time %d is %s, expected %s", what, i, ts::tstr(g.t[i]).c_str(), ts::tstr(w.t[i]).c_str()); return false; } if (g.v[i] != w.v[i]) { fail(key, "%s: value %d at %s is %.17g, expected %.17g", what, i, ts::tstr(w.t[i]).c_str(), g.v[i], w.v[i]); return false; } if (q && g.q[i] != w.q[i]) { fail(key, "%s: quality %d at %s is %d, expected %d", what, i, ts::tstr(w.t[i]).c_str(), g.q[i], w.q[i]); return false; } }
  state(hashBytes(g.v.data(), g.v.size() * 8, g.n)); return true; }
static Want slots(const ts::Model& m, ll k0, ll k1) { Want w; for (ll k = k0; k <= k1; k++) { w.t.push_back(cal::slotTime(*m.iv, k)); w.v.push_back(m.at(k)); auto i = m.q.find(k); w.q.push_back(i == m.q.end() ? 0 : i->second[0]); } return w; }
static double val(int i, bool flt) { double d = i * 1.37 - 3; return flt ? (double)(float)d : d; }
static const char* const T8[] = {"/P/Q/TEXT///F/", "/P/Q/ARRAY///F/", "/P/Q/CURVE///F/", "/P/Q/GRID/01JAN2000:0100/01JAN2000:0200/F/", "/P/Q/FLOW//1Hour/F/", "/P/Q/STAGE//IR-Day/F/", "/P/Q/LOC///F/"};
// --- one record of every kind through the public interface
struct AnyRec { int kind, seed; ts::Model m; irr::Series s; vector<double> o, v; vector<int> ai; vector<float> af; vector<double> ad; string text; vector<float> cells; 
  AnyRec(int kind, int seed) : kind(kind), seed(seed) { int n = 2 + seed % 5; text = chars(5 + seed * 11 % 97, seed); for (int i = 0; i < n; i++) { o.push_back(i + seed); v.push_back(i * 1.1 + seed); v.push_back(-i * 0.7 + seed); ai.push_back(i * 7 + seed); af.push_back(i * 0.3f + seed); ad.push_back(i * 0.1 - seed); } for (int i = 0; i < n * 3; i++) cells.push_back(i * 0.5f + seed); }
  string path() const { return T8[kind]; }
  static int gridPut(dss_file* d, const char* p, int seed, int nx, int ny, vector<float>& data, vector<float>& lim, vector<int>& num, const string s[5], int comp = 0) { transition(); return hec_dss_gridStore(d, p, 430, seed % 6, -seed - 1, seed + 2, nx, ny, lim.size(), seed % 3, seed * 3600, seed & 1, !(seed & 1), comp, s[0].c_str(), s[1].c_str(), s[2].c_str(), s[3].c_str(), s[4].c_str(), 2000.5f + seed, -1.5f * seed, 0.25f * seed, -3.4028234e38f, 99.25f + seed, -1.5f - seed, 10.1f * seed, lim.data(), num.data(), data.data()); }
  static bool gridSame(dss_file* d, const char* p, int seed, int nx, int ny, const vector<float>& data, const vector<float>& lim, const vector<int>& num, const string s[5], int withData, const int len[5], int nl, int nd, const string& key, const char* what) {
    int A[11]; for (auto& a : A) a = -77; Str b0(len[0]), b1(len[1]), b2(len[2]), b3(len[3]), b4(len[4]); float c[7] = {-7, -7, -7, -7, -7, -7, -7}; Out<float> L(nl), D(nd); Out<int> N(nl); transition();
    int rc = hec_dss_gridRetrieve(d, p, withData, &A[0], &A[1], &A[2], &A[3], &A[4], &A[5], &A[6], &A[7], &A[8], &A[9], &A[10], b0.p, len[0], b1.p, len[1], b2.p, len[2], b3.p, len[3], b4.p, len[4], &c[0], &c[1], &c[2], &c[3], &c[4], &c[5], &c[6], L.p, nl, N.p, D.p, nd);
    if (rc) { fail(key, "%s: retrieving the grid returned %d", what, rc); return false; } int W[11] = {430, seed % 6, -seed - 1, seed + 2, nx, ny, (int)lim.size(), seed % 3, seed * 3600, seed & 1, !(seed & 1)}; for (int k = 0; k < 11; k++) if (A[k] != W[k]) { fail(key, "%s: description %d of the grid is %d, stored %d", what, k, A[k], W[k]); return false; }
    if (!b0.is(trim(s[0]), key, "data units") || !b1.is(trim(s[1]), key, "data source") || !b2.is(trim(s[2]), key, "reference system") || !b3.is(trim(s[3]), key, "reference definition") || !b4.is(trim(s[4]), key, "time zone")) return false;
    float Wc[7] = {2000.5f + seed, -1.5f * seed, 0.25f * seed, -3.4028234e38f, 99.25f + seed, -1.5f - seed, 10.1f * seed}; for (int k = 0; k < (withData ? 7 : 4); k++) if (c[k] != Wc[k]) { fail(key, "%s: number %d of the grid is %g, stored %g", what, k, c[k], Wc[k]); return false; }
    if (!withData) { if (!D.kept()) { fail(key, "%s: cells written although not asked for", what); return false; } return true; } int ml = std::min<int>(nl, lim.size()), md = std::min<int>(nd, data.size()); for (int k = 0; k < ml; k++) if (L.p[k] != lim[k] || N.p[k] != num[k]) { fail(key, "%s: range %d is %g (%d), stored %g (%d)", what, k, L.p[k], N.p[k], lim[k], num[k]); return false; } for (int k = 0; k < md; k++) if (D.p[k] != data[k]) { fail(key, "%s: cell %d is %g, stored %g", what, k, D.p[k], data[k]); return false; }
    if (!D.kept(md) || !L.kept(ml) || !N.kept(ml)) { fail(key, "%s: elements beyond those stored were written", what); return false; } state(hashBytes(data.data(), data.size() * 4, nx)); return true; }
  int put(dss_file* d) { int n = o.size(); transition(); switch (kind) { case 0: return hec_dss_textStore(d, T8[0], text.c_str(), text.size()); case 1: return hec_dss_arrayStore(d, T8[1], ai.data(), n, af.data(), n, ad.data(), n); case 2: return hec_dss_pdStore(d, T8[2], o.data(), n, v.data(), 2 * n, n, 2, "ft", "UNT", "cfs", "LIN", "one\0two", 8, "UTC");
    case 3: { string s[5] = {"mm", "src", "srs", "def", "UTC"}; vector<float> lim = {1.f, 2.f + seed}; vector<int> num = {5, 4}; return gridPut(d, T8[3], seed, n, 3, cells, lim, num, s); }
    case 4: { m.iv = &cal::iv("1Hour"); ll k0 = cal::julian(2001, 12, 31) * 24 + 12 + seed % 3; vector<double> x; for (int i = 0; i < 20; i++) x.push_back(val(i + seed, false)); m.store(k0, x, 0); return putReg(d, T8[4], cal::slotTime(*m.iv, k0), x, {}, false, "cfs", "INST-VAL", "UTC", 0); }
    case 5: { irr::Series a; for (int i = 0; i < n; i++) a[cal::julian(2001, 12, 31) * 86400LL + 600 * (i * (3 + seed % 2) + seed)] = {val(i + seed, false), 0, 0, ""}; irr::apply(s, a, 0); return putIrr(d, T8[5], a, 60, "31Dec2001", false, false, "ft", "INST-VAL", "UTC", 0); }
    default: return hec_dss_locationStore(d, T8[6], seed + 0.5, -seed - 0.25, seed * 3, 1, seed, 2, 3, 4, 5, "PST", text.c_str(), 1); } }
  void follow(const AnyRec& old) { if (kind == 4) { m = old.m; } if (kind == 5) s = old.s; }
  bool check(dss_file* d, const string& key, const char* what) { int n = o.size(); transition(); switch (kind) {
    case 0: { Out<char> b(text.size() + 1); int rc = hec_dss_textRetrieve(d, T8[0], b.p, b.n); if (rc || string(b.p, text.size()) != text || b.p[text.size()]) { fail(key, "%s: text '%s' (status %d), stored '%s'", what, show(string(b.p, b.n)).c_str(), rc, show(text).c_str()); return false; } return true; }
    case 1: { int a = -1, b = -1, c = -1; int rc = hec_dss_arrayRetrieveInfo(d, T8[1], &a, &b, &c); if (rc || a != n || b != n || c != n) { fail(key, "%s: arrays of %d, %d, %d elements (status %d), stored %d of each", what, a, b, c, rc, n); return false; } Out<int> I(n); Out<float> F(n); Out<double> D(n); rc = hec_dss_arrayRetrieve(d, T8[1], I.p, n, F.p, n, D.p, n); if (rc || memcmp(I.p, ai.data(), n * 4) || memcmp(F.p, af.data(), n * 4) || memcmp(D.p, ad.data(), n * 8)) { fail(key, "%s: arrays differ from those stored (status %d)", what, rc); return false; } return true; }
    case 2: { Out<double> O(n), V(2 * n); int no = -1, nc = -1; Str a(9), b(9), c(9), e(9), z(9); Out<char> l(8); int rc = hec_dss_pdRetrieve(d, T8[2], O.p, n, V.p, 2 * n, &no, &nc, a.p, 9, b.p, 9, c.p, 9, e.p, 9, l.p, 8, z.p, 9); if (rc || no != n || nc != 2 || memcmp(O.p, o.data(), 8 * n) || memcmp(V.p, v.data(), 16 * n) || memcmp(l.p, "one\0two", 8)) { fail(key, "%s: paired data differ from those stored (status %d, %d ordinates, %d curves)", what, rc, no, nc); return false; } return a.is("ft", key, "units of the ordinates") && b.is("UNT", key, "type of the ordinates") && c.is("cfs", key, "units of the values") && e.is("LIN", key, "type of the values") && z.is("UTC", key, "time zone"); }
    case 3: { string s[5] = {"mm", "src", "srs", "def", "UTC"}; int len[5] = {9, 9, 9, 9, 9}; return gridSame(d, T8[3], seed, n, 3, cells, {1.f, 2.f + seed}, {5, 4}, s, 1, len, 2, cells.size(), key, what); }
    case 4: { Got g; ll k0 = m.v.begin()->first, k1 = m.v.rbegin()->first; ll a = cal::slotTime(*m.iv, k0), b = cal::slotTime(*m.iv, k1); string d1 = cal::date(a), t1 = cal::time(a), d2 = cal::date(b), t2 = cal::time(b); return get(d, T8[4], d1.c_str(), t1.c_str(), d2.c_str(), t2.c_str(), 60, false, "cfs", "INST-VAL", "UTC", 9, 9, 9, g, key, what) && same(g, slots(m, k0, k1), 60, false, key, what); }
    case 5: { Got g; Want w; for (auto& e : s) { w.t.push_back(e.first); w.v.push_back(e.second.v); } return get(d, T8[5], nullptr, nullptr, nullptr, nullptr, 60, false, "ft", "INST-VAL", "UTC", 9, 9, 9, g, key, what) && same(g, w, 60, false, key, what); }
    default: { double x = 0, y = 0, z = 0; int A[6]; Str t(9), u(200); int rc = hec_dss_locationRetrieve(d, T8[6], &x, &y, &z, &A[0], &A[1], &A[2], &A[3], &A[4], &A[5], t.p, 9, u.p, 200); if (rc || x != seed + 0.5 || y != -seed - 0.25 || z != seed * 3 || A[0] != 1 || A[1] != seed || A[2] != 2 || A[3] != 3 || A[4] != 4 || A[5] != 5) { fail(key, "%s: location differs from the one stored (status %d)", what, rc); return false; } return t.is("PST", key, "time zone") && u.is(trim(text), key, "supplemental information"); } } } };
// every retrieval of a pathname that holds no record of that kind: refused, nothing written
static const char* const RET[] = {"text", "array sizes", "arrays", "paired data sizes", "paired data", "grid", "grid without cells", "series", "series, all times", "series information", "location", "series sizes"};
static bool refused(dss_file* d, int r, const char* p, const string& key, const char* what) { int rc = 0; bool kept = true; transition(); Out<char> s(20), s2(20), s3(20), s4(20), s5(20); Out<int> i(20); Out<float> f(20); Out<double> v(20), v2(20); Out<int> n(11); Out<float> c(7);
  switch (r) { case 0: rc = hec_dss_textRetrieve(d, p, s.p, 20); break; case 1: rc = hec_dss_arrayRetrieveInfo(d, p, n.p, n.p + 1, n.p + 2); break; case 2: rc = hec_dss_arrayRetrieve(d, p, i.p, 20, f.p, 20, v.p, 20); break; case 3: { int x; rc = hec_dss_pdRetrieveInfo(d, p, &x, &x, s.p, 20, s2.p, 20, s3.p, 20, s4.p, 20, &x); break; }
    case 4: rc = hec_dss_pdRetrieve(d, p, v.p, 20, v2.p, 20, n.p, n.p + 1, s.p, 20, s2.p, 20, s3.p, 20, s4.p, 20, s5.p, 20, s5.p, 20); break; case 5: case 6: rc = hec_dss_gridRetrieve(d, p, r == 5, n.p, n.p + 1, n.p + 2, n.p + 3, n.p + 4, n.p + 5, n.p + 6, n.p + 7, n.p + 8, n.p + 9, n.p + 10, s.p, 20, s2.p, 20, s3.p, 20, s4.p, 20, s5.p, 20, c.p, c.p + 1, c.p + 2, c.p + 3, c.p + 4, c.p + 5, c.p + 6, f.p, 20, i.p, v.n ? f.p : f.p, 20); break;
    case 7: case 8: { int nr = 7; rc = hec_dss_tsRetrieve(d, p, r == 7 ? "01Jan2000" : nullptr, r == 7 ? "0100" : nullptr, r == 7 ? "01Jan2000" : nullptr, r == 7 ? "0500" : nullptr, i.p, v.p, 20, &nr, i.p, 0, n.p, n.p + 1, s.p, 20, s2.p, 20, s3.p, 20); if (nr) { fail(key, "%s: asked as %s, %d values reported", what, RET[r], nr); return false; } break; }
    case 9: rc = hec_dss_tsRetrieveInfo(d, p, s.p, 20, s2.p, 20); break; case 10: rc = hec_dss_locationRetrieve(d, p, v.p, v.p + 1, v.p + 2, n.p, n.p + 1, n.p + 2, n.p + 3, n.p + 4, n.p + 5, s.p, 20, s2.p, 20); break; default: { int a = 0, b = 0; rc = hec_dss_tsGetSizes(d, p, "01Jan2000", "0100", "01Jan2000", "0500", &a, &b); if (rc == 0 && a == 0) return true; break; } }
  kept = s.kept() && s2.kept() && s3.kept() && s4.kept() && s5.kept() && i.kept() && f.kept() && v.kept() && v2.kept() && n.kept() && c.kept(); if (rc == 0) { fail(key, "%s: asked as %s, the answer was success", what, RET[r]); return false; } if (!kept) { fail(key, "%s: asked as %s, refused with %d but output was written", what, RET[r], rc); return false; } return true; }
static string fullLoc(const string& p) { return p; }
static const int OWN[] = {0, 1, 1, 2, 2, 3, 3, -1, -1, -1, 6, -1};
int main(int argc, char** argv) {
  Check c; c.id = "C16"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system", "ASCII texts; one quality value per point"};
  c.build = [](bool th, std::vector<Family>& fs) {
    auto add = [&](const char* name, const string& rule, uint64_t n, int chunk, std::function<string(uint64_t)> desc, std::function<void(uint64_t, const string&)> run) { Family f; f.name = name; f.rule = rule; f.n = n; f.chunk = chunk; string nm = name; f.describe = desc; f.run = [=](uint64_t i) { string key = strf("%s:%llu", nm.c_str(), (unsigned long long)i); freshWorld(); run(i, key); }; fs.push_back(f); };
    // regular series
    { static const char* const IV[] = {"1Hour", "15Minute", "1Day", "1Month", "6Minute"}; static const int N[] = {1, 2, 3, 30}; static const char* const MODE[] = {"its window", "a wider window", "an inner window", "no dates (null)", "no dates (empty)", "no dates (null), a block in the pathname", "no dates (empty), a block in the pathname"};
      struct S { int iv, n, flt, q, mode, sz, wq; }; static auto dec = [](uint64_t i) { S s; s.iv = digit(i, 5); s.n = N[digit(i, 4)]; s.flt = digit(i, 2); s.q = digit(i, 2); s.mode = digit(i, 7); s.wq = digit(i, 2); s.sz = digit(i, 7); return s; };
      add("regular", "regular series of five intervals across a block boundary x 1..30 values as float or double, with or without quality, x retrieved by windows, no dates or empty dates x arrays of none to more elements than there are, x quality asked for or not: values, times, quality, and the sizes told beforehand", 5ull * 4 * 2 * 2 * 7 * 2 * 7, 64, [](uint64_t i) { S s = dec(i); return strf("%d %s values as %s%s, %s, arrays of size class %d%s", s.n, IV[s.iv], s.flt ? "float" : "double", s.q ? " with quality" : "", MODE[s.mode], s.sz, s.wq ? ", quality asked for" : ""); },
        [](uint64_t i, const string& key) { S s = dec(i); const cal::Iv& iv = cal::iv(IV[s.iv]); ts::Model m; m.iv = &iv; ll cut = iv.secs == 2592000 ? cal::julian(2010, 1, 1) : cal::julian(2002, 1, 1); ll k0 = cal::slotOf(iv, cut * 86400) - s.n / 2 + (s.n == 3); vector<double> v; vector<int> q; for (int k = 0; k < s.n; k++) { v.push_back(s.n == 30 && k == 4 ? MISS : val(k, s.flt)); if (s.q) q.push_back(k % 7 ? (k * 5 + 3) << 2 : 0); } ts::Extra e; e.q = q; e.qe = s.q; m.store(k0, v, 0, &e);
          Dss d; if (!d.open(key)) return; string p = ts::path(IV[s.iv]); int rc = putReg(d, p, cal::slotTime(iv, k0), v, q, s.flt, "cfs", "INST-VAL", "America/Denver", 0); if (rc) { fail(key, "storing returned %d", rc); return; }
          ll a = k0, b = k0 + s.n - 1; if (s.mode == 1) { a -= 2; b += 3; } if (s.mode == 2) { a += s.n / 3; b -= s.n / 4; } string d1, t1, d2, t2; if (s.mode < 3) { ll x = cal::slotTime(iv, a), y = cal::slotTime(iv, b); d1 = cal::date(x); t1 = cal::time(x); d2 = cal::date(y); t2 = cal::time(y); } if (s.mode >= 5) p = ts::path(IV[s.iv], s.wq ? cal::dateStr(cal::blockStart(iv, cal::slotTime(iv, k0))).c_str() : "01Jan1950");
          if (s.mode >= 3) { Got g0; if (!get(d, p, nullptr, nullptr, nullptr, nullptr, 6100, false, "cfs", "INST-VAL", "America/Denver", 20, 20, 20, g0, key, "retrieved without dates")) return; if (g0.status || !g0.n || g0.t[0] > cal::slotTime(iv, a) || g0.t.back() < cal::slotTime(iv, b)) { fail(key, "without dates: status %d, %d values from %s to %s, stored %s to %s", g0.status, g0.n, g0.n ? ts::tstr(g0.t[0]).c_str() : "", g0.n ? ts::tstr(g0.t.back()).c_str() : "", ts::tstr(cal::slotTime(iv, a)).c_str(), ts::tstr(cal::slotTime(iv, b)).c_str()); return; } a = cal::slotOf(iv, g0.t[0]); b = cal::slotOf(iv, g0.t.back()); if (!same(g0, slots(m, a, b), 6100, false, key, "retrieved without dates")) return; } Want w = slots(m, a, b); int full = w.v.size(); int SZ[] = {0, 1, full - 1, full, full + 1, full + 9, full / 2}; int size = SZ[s.sz]; const char* none = s.mode == 4 || s.mode == 6 ? "" : nullptr; bool win = s.mode < 3; Got g;
          if (!get(d, p, win ? d1.c_str() : none, win ? t1.c_str() : none, win ? d2.c_str() : none, win ? t2.c_str() : none, size, s.wq, "cfs", "INST-VAL", "America/Denver", 20, 20, 20, g, key, "retrieved") || !same(g, w, size, s.wq, key, "retrieved")) return;
          int nv = -5, qe = -5; ll x = cal::slotTime(iv, k0), y = cal::slotTime(iv, k0 + s.n - 1); rc = hec_dss_tsGetSizes(d, ts::path(IV[s.iv]).c_str(), cal::date(x).c_str(), cal::time(x).c_str(), cal::date(y).c_str(), cal::time(y).c_str(), &nv, &qe); if (rc || nv < s.n || qe != s.q) { fail(key, "the sizes told are %d values, quality of %d (status %d); stored are %d, %d", nv, qe, rc, s.n, s.q); return; } int np = hec_dss_numberPeriods(iv.secs, cal::dayOf(x), cal::secOf(x), cal::dayOf(y), cal::secOf(y)); if (np != s.n - 1 && np != s.n) { fail(key, "%d periods between the first and last of %d values", np, s.n); return; }
          int j1 = 0, s1 = 0, j2 = 0, s2 = 0; rc = hec_dss_tsGetDateTimeRange(d, ts::path(IV[s.iv]).c_str(), 1, &j1, &s1, &j2, &s2); if (rc || j1 * 86400LL + s1 != x || j2 * 86400LL + s2 != y) { fail(key, "range of times %s to %s (status %d), stored %s to %s", ts::tstr(j1 * 86400LL + s1).c_str(), ts::tstr(j2 * 86400LL + s2).c_str(), rc, ts::tstr(x).c_str(), ts::tstr(y).c_str()); return; } string bp = ts::path(IV[s.iv], cal::dateStr(cal::blockStart(iv, x)).c_str()); int rt = hec_dss_recordType(d, bp.c_str()), want = s.flt ? 100 : 105; if (rt != want || hec_dss_dataType(d, bp.c_str()) != want) { fail(key, "record type %d, data type %d, stored %d", rt, hec_dss_dataType(d, bp.c_str()), want); return; } d.close(key); }); }
    // stores over stores, compared with the library beneath
    { struct St { int flag, flt, q, at, n; }; static auto op = [](int k) { St s; s.flag = k % 5; k /= 5; s.flt = k & 1; s.q = k >> 1 & 1; s.at = 0; s.n = 0; return s; }; int D = th ? 3 : 2; uint64_t K = 20 * 3; add("regular-sequences", strf("every sequence of %d stores (five flags, float or double, with or without quality, at three places) through the public interface and through the library beneath, into two files: the same values, quality, units and time zone by either interface from either file", D), (uint64_t)pow((double)K, D), 100, [=](uint64_t i) { string o; for (int s = 0; s < D; s++) { int k = digit(i, K); St x = op(k / 3); o += strf("%sflag %d, %s%s, place %d", s ? "; " : "", x.flag, x.flt ? "float" : "double", x.q ? ", quality" : "", k % 3); } return o; },
        [=](uint64_t i, const string& key) { const cal::Iv& iv = cal::iv("1Hour"); ll base = cal::slotOf(iv, cal::julian(2002, 1, 1) * 86400LL); Dss d; if (!d.open(key)) return; File f; if (f.open("/mc/b.dss", 0, 0, 0)) { fail(key, "open"); return; } string p = ts::path("1Hour"); for (int s = 0; s < D; s++) { int k = digit(i, K); St x = op(k / 3); int at = k % 3; ll k0 = base + (at == 0 ? -5 : at == 1 ? -2 : 3); int n = at == 1 ? 4 : 9; vector<double> v; vector<int> q; for (int j = 0; j < n; j++) { v.push_back(j % 3 == s ? MISS : val(j + 10 * s, x.flt)); if (x.q) q.push_back(j + 100 * s + 1); } ts::Extra e; e.q = q; e.qe = x.q; e.tz = "UTC"; string u = s ? "cms" : "cfs"; int rc = putReg(d, p, cal::slotTime(iv, k0), v, q, x.flt, u, "INST-VAL", "UTC", x.flag), rc2 = ts::store(f, p, cal::slotTime(iv, k0), v, x.flag, !x.flt, &e, u.c_str()); if (rc != rc2) { fail(key, "store %d returned %d, through the library beneath %d", s + 1, rc, rc2); return; } }
          d.close(key); f.close(); ll a = cal::slotTime(iv, base - 7), b = cal::slotTime(iv, base + 14); for (int file = 0; file < 2; file++) { const char* nm = file ? "/mc/b.dss" : F0; Dss e; if (!e.open(key, nm)) return; Got g; File h; if (h.open("/mc/b.dss", 1, 0, 0)) { fail(key, "reopen"); return; } ts::Got w = ts::retrieve(h, p, a, b); h.close(); if (w.status) { if (!get(e, p, cal::date(a).c_str(), cal::time(a).c_str(), cal::date(b).c_str(), cal::time(b).c_str(), 40, true, "", "", "", 20, 20, 20, g, key, "retrieved")) return; if (g.status == 0) { fail(key, "status 0, through the library beneath %d", w.status); return; } continue; }
            Want x; x.t = w.times; x.v = w.v; x.q = w.qn == 1 ? w.q : vector<int>(w.v.size(), 0); if (!get(e, p, cal::date(a).c_str(), cal::time(a).c_str(), cal::date(b).c_str(), cal::time(b).c_str(), 40, true, w.units, w.type, w.tz, 20, 20, 20, g, key, file ? "stored beneath, retrieved" : "retrieved") || !same(g, x, 40, true, key, file ? "stored beneath, retrieved" : "retrieved")) return; } }); }
    // irregular series
    { struct S { int e, g, base, n, flt, q, mode, wq, sz; }; static auto dec = [](uint64_t i) { S s; s.e = digit(i, 3); s.g = digit(i, 2); s.base = digit(i, 3); s.n = 1 + digit(i, 4) * 3; s.flt = digit(i, 2); s.q = digit(i, 2); s.mode = digit(i, 3); s.wq = digit(i, 2); s.sz = digit(i, 6); return s; };
      add("irregular", "irregular series of three block sizes x minutes or seconds x with, without (empty or null) base date x 1..10 values as float or double, with or without quality x retrieved by window, no dates or empty dates x array sizes x quality asked for", 3ull * 2 * 3 * 4 * 2 * 2 * 3 * 2 * 6, 64, [](uint64_t i) { S s = dec(i); return strf("%d %s values as %s%s, %s, base %d, retrieval mode %d, array size class %d%s", s.n, irr::BLK[s.e].e, s.flt ? "float" : "double", s.q ? " with quality" : "", s.g ? "seconds" : "minutes", s.base, s.mode, s.sz, s.wq ? ", quality asked for" : ""); },
        [](uint64_t i, const string& key) { S s = dec(i); int gran = s.g ? 1 : 60; bool early = s.g && s.base; ll t0 = (early ? cal::julian(1950, 3, 1) : cal::julian(2002, 3, 1)) * 86400LL; if (s.base && !s.g) t0 = cal::julian(2002, 3, 1) * 86400LL; irr::Series x; for (int k = 0; k < s.n; k++) x[t0 + (k - s.n / 2) * 7260LL * (k % 3 + 1) * (s.e == 2 ? 200 : 1) + (s.g ? k : 0)] = {val(k, s.flt), k * 3 + 1, 0, ""}; Dss d; if (!d.open(key)) return; string p = ts::path(irr::BLK[s.e].e); string bd = cal::dateStr(cal::dayOf(t0) - 40); int rc = putIrr(d, p, x, gran, s.base == 0 ? bd.c_str() : s.base == 1 ? "" : nullptr, s.q, s.flt, "ft", "INST-VAL", "UTC", 0); if (rc) { fail(key, "storing returned %d", rc); return; }
          Want w; for (auto& e : x) { w.t.push_back(e.first); w.v.push_back(e.second.v); w.q.push_back(s.q ? e.second.q : 0); } int full = w.v.size(); int SZ[] = {0, 1, full - 1, full, full + 1, full + 9}; int size = SZ[s.sz]; string d1 = cal::date(w.t[0]), t1 = cal::time(w.t[0]), d2 = cal::date(w.t.back()), t2 = cal::time(w.t.back()); const char* none = s.mode == 2 ? "" : nullptr; bool win = s.mode == 0; Got g;
          if (!get(d, p, win ? d1.c_str() : none, win ? t1.c_str() : none, win ? d2.c_str() : none, win ? t2.c_str() : none, size, s.wq, "ft", "INST-VAL", "UTC", 20, 20, 20, g, key, "retrieved") || !same(g, w, size, s.wq, key, "retrieved")) return; int nv = -5, qe = -5; rc = hec_dss_tsGetSizes(d, p.c_str(), d1.c_str(), t1.c_str(), d2.c_str(), t2.c_str(), &nv, &qe); if (rc || nv < full || qe != s.q) { fail(key, "the sizes told are %d values, quality of %d (status %d); stored are %d, %d", nv, qe, rc, full, s.q); return; } d.close(key); }); }
    { int D = th ? 3 : 2; const uint64_t K = 24; add("irregular-sequences", strf("every sequence of %d stores (merging or replacing, float or double, quality or not, at three places) through both interfaces into two files: the same result", D), (uint64_t)pow((double)K, D), 48, [=](uint64_t i) { string o; for (int s = 0; s < D; s++) { int k = digit(i, K); o += strf("%sflag %d, %s%s, place %d", s ? "; " : "", k & 1, k & 2 ? "float" : "double", k & 4 ? ", quality" : "", k / 8); } return o; },
        [=](uint64_t i, const string& key) { Dss d; if (!d.open(key)) return; File f; if (f.open("/mc/b.dss", 0, 0, 0)) { fail(key, "open"); return; } string p = ts::path("IR-Day"); ll t0 = cal::julian(2002, 3, 1) * 86400LL; for (int s = 0; s < D; s++) { int k = digit(i, K); int at = k / 8; irr::Series x; for (int j = 0; j < 6; j++) x[t0 + (j - 3 + at * 2) * (at == 1 ? 3600 : 7200LL)] = {val(j + 20 * s, k & 2), j + s * 50 + 1, 0, ""}; int rc = putIrr(d, p, x, 60, "01Jan2002", k & 4, k & 2, "ft", "INST-VAL", "", k & 1), rc2 = irr::store(f, p, x, k & 1, !(k & 2), 60, true, k & 4 ? 1 : 0, "ft"); if (rc != rc2) { fail(key, "store %d returned %d, beneath %d", s + 1, rc, rc2); return; } }
          ts::Got w = ts::retrieve(f, p, t0 - 86400 * 2, t0 + 86400 * 2, 0); if (w.status) { fail(key, "beneath: %d", w.status); return; } Want x; x.t = w.times; x.v = w.v; x.q = w.qn == 1 ? w.q : vector<int>(w.v.size(), 0); ll a = t0 - 86400 * 2, b = t0 + 86400 * 2; Got g; if (get(d, p, cal::date(a).c_str(), cal::time(a).c_str(), cal::date(b).c_str(), cal::time(b).c_str(), 60, true, "ft", "INST-VAL", "", 20, 20, 20, g, key, "retrieved")) same(g, x, 60, true, key, "retrieved"); }); }
    // text buffers of series
    { static const int L[] = {0, 1, 3, 8, 12, 40, 70, 200}; add("series-strings", "units, type and time zone of 0..200 characters x buffers of none to more characters: what fits, terminated; an absent one is delivered empty", 8ull * 8 * 8 * 6, 64, [](uint64_t i) { int a = digit(i, 8), b = digit(i, 8), z = digit(i, 8); return strf("units of %d, type of %d, time zone of %d characters, buffer class %d", L[a], L[b], L[z], (int)i); },
        [](uint64_t i, const string& key) { string u = word(L[digit(i, 8)], 1), y = word(L[digit(i, 8)], 2), z = word(L[digit(i, 8)], 3); int cl = i; auto len = [&](const string& s) { int n = s.size(); int C[] = {0, 1, n, n + 1, n + 2, n / 2 + 1}; return C[cl]; }; for (int k = 0; k < 2; k++) { Dss d; string nm = strf("/mc/%d.dss", k); if (!d.open(key, nm.c_str())) return; ll t0 = cal::julian(2002, 3, 1) * 86400LL + 3600; string p = ts::path(k ? "IR-Day" : "1Hour"); irr::Series s; s[t0] = {5, 0, 0, ""}; s[t0 + 3600] = {6, 0, 0, ""}; int rc = k ? putIrr(d, p, s, 60, "01Mar2002", false, false, u, y, z, 0) : putReg(d, p, t0, {5, 6}, {}, false, u, y, z, 0); if (rc) { fail(key, "storing returned %d", rc); return; } Want w; w.t = {t0, t0 + 3600}; w.v = {5, 6}; Got g; if (!get(d, p, "01Mar2002", "0100", "01Mar2002", "0200", 4, false, u, y, z, len(u), len(y), len(z), g, key, "retrieved") || !same(g, w, 4, false, key, "retrieved")) return; string bp = ts::path(k ? "IR-Day" : "1Hour", "01Mar2002"); Str a(len(u)), b(len(y)); transition(); rc = hec_dss_tsRetrieveInfo(d, bp.c_str(), a.p, a.n, b.p, b.n); if (rc) { fail(key, "the series information returned %d", rc); return; } if (!a.is(u, key, "units (information)") || !b.is(y, key, "type (information)")) return; } }); }
    // paired data
    { static const int L[] = {1, 7, 30, 100}, M[] = {31, 0, 30, 29, 27, 23, 15, 5}; static const char* const LABS[] = {"no labels", "labels of one character", "labels of different lengths", "empty labels", "labels, the first empty", "long labels"}; int NM = th ? 32 : 8; auto labels = [](int kind, int nc) { string l; for (int k = 0; k < nc && kind; k++) { int n = kind == 1 ? 1 : kind == 2 ? 3 + 2 * k : kind == 3 ? 0 : kind == 4 ? k * 5 : 31 - k; l += word(n, k + 5) + string(1, 0); } return l; };
      add("paired", strf("1..4 ordinates x 1..3 curves x none or six sets of labels x %d subsets of the descriptions x description lengths x description buffers x label buffers shorter, equal and longer: all delivered as stored, and as told beforehand; arrays of another size are refused untouched", NM), 4ull * 3 * 6 * 4 * 5 * 4 * NM, 64, [=](uint64_t i) { int o = digit(i, 4) + 1, cu = digit(i, 3) + 1, l = digit(i, 6), s = digit(i, 4), b = digit(i, 5), m = digit(i, NM); return strf("%d ordinates, %d curves, %s, descriptions %d of %d.. characters, buffer class %d, label buffer class %d", o, cu, LABS[l], NM == 8 ? M[m] : m, L[s], b, (int)i); },
        [=](uint64_t i, const string& key) { int no = digit(i, 4) + 1, nc = digit(i, 3) + 1, lb = digit(i, 6), sl = L[digit(i, 4)], cl = digit(i, 5), mk = digit(i, NM), lc = i; if (NM == 8) mk = M[mk]; string lab = labels(lb, nc); int LL = lab.size(); vector<double> o, v; for (int k = 0; k < no; k++) o.push_back(k * 1.5 + 1); for (int k = 0; k < no * nc; k++) v.push_back(k * 0.7 - 2); string s[5]; for (int k = 0; k < 5; k++) s[k] = word(mk >> k & 1 ? sl + k : 0, k); Dss d; if (!d.open(key)) return; const char* P = "/A/B/STAGE-FLOW///F/"; transition(); int rc = hec_dss_pdStore(d, P, o.data(), no, v.data(), no * nc, no, nc, s[0].c_str(), s[1].c_str(), s[2].c_str(), s[3].c_str(), LL ? lab.data() : nullptr, LL, s[4].c_str()); if (rc) { fail(key, "storing returned %d", rc); return; }
          auto len = [&](const string& x) { int n = x.size(); int C[] = {0, 1, n, n + 1, n + 4}; return C[cl]; }; { Str a(len(s[0])), b(len(s[2])), c1(len(s[1])), e(len(s[3])); int n1 = -1, n2 = -1, ll = -1; rc = hec_dss_pdRetrieveInfo(d, P, &n1, &n2, a.p, a.n, b.p, b.n, c1.p, c1.n, e.p, e.n, &ll); if (rc || n1 != no || n2 != nc || ll != LL) { fail(key, "told beforehand: %d ordinates, %d curves, labels of %d (status %d); stored %d, %d, %d", n1, n2, ll, rc, no, nc, LL); return; } if (!a.is(s[0], key, "units of the ordinates (told)") || !b.is(s[2], key, "units of the values (told)") || !c1.is(s[1], key, "type of the ordinates (told)") || !e.is(s[3], key, "type of the values (told)")) return; }
          int lbn = lc == 0 ? LL : lc == 1 ? 0 : lc == 2 ? LL / 2 : LL + 5; for (int w = 0; w < 5; w++) { int dn = w == 1 ? 1 : w == 2 ? -1 : 0, dv = w == 3 ? 1 : w == 4 ? -1 : 0; Out<double> O(no + dn), V(no * nc + dv); Str a(len(s[0])), b(len(s[1])), c1(len(s[2])), e(len(s[3])), z(len(s[4])); Out<char> l(lbn); int n1 = -1, n2 = -1; transition(); rc = hec_dss_pdRetrieve(d, P, O.p, O.n, V.p, V.n, &n1, &n2, a.p, a.n, b.p, b.n, c1.p, c1.n, e.p, e.n, l.p, lbn, z.p, z.n); if (w) { if (rc == 0 || !O.kept() || !V.kept() || !a.kept() || !l.kept() || !z.kept()) { fail(key, "arrays of %d and %d for %d ordinates and %d values: status %d, or output written", O.n, V.n, no, no * nc, rc); return; } continue; }
            if (rc || n1 != no || n2 != nc) { fail(key, "%d ordinates, %d curves (status %d), stored %d, %d", n1, n2, rc, no, nc); return; } if (memcmp(O.p, o.data(), no * 8) || memcmp(V.p, v.data(), no * nc * 8)) { fail(key, "ordinates or values differ"); return; } int m = std::min(lbn, LL); if ((m && memcmp(l.p, lab.data(), m)) || !l.kept(m)) { fail(key, "labels '%s' differ from those stored", show(string(l.p, lbn)).c_str()); return; } if (!a.is(s[0], key, "units of the ordinates") || !b.is(s[1], key, "type of the ordinates") || !c1.is(s[2], key, "units of the values") || !e.is(s[3], key, "type of the values") || !z.is(s[4], key, "time zone")) return; state(mix(no * 8 + nc, lb)); } }); }
    // grids
    { static const int L[] = {0, 1, 9, 80}; add("grid", "grids of 1..4 by 1..3 cells x 0..4 ranges x description lengths x description buffers x buffers of cells and ranges shorter, equal and longer, with and without the cells", 4ull * 3 * 5 * 4 * 5 * 4 * 2, 64, [](uint64_t i) { int x = digit(i, 4) + 1, y = digit(i, 3) + 1, r = digit(i, 5), s = digit(i, 4), b = digit(i, 5), n = digit(i, 4); return strf("%d x %d cells, %d ranges, descriptions of %d characters, buffer class %d, array class %d%s", x, y, r, L[s], b, n, i ? "" : ", without cells"); },
        [](uint64_t i, const string& key) { int nx = digit(i, 4) + 1, ny = digit(i, 3) + 1, r = digit(i, 5), sl = L[digit(i, 4)], cl = digit(i, 5), ac = digit(i, 4), wd = i; string s[5]; for (int k = 0; k < 5; k++) s[k] = word(sl ? sl + k : 0, k); vector<float> data, lim; vector<int> num; for (int k = 0; k < nx * ny; k++) data.push_back(k % 4 == 3 ? -3.4028234e38f : k * 1.25f); for (int k = 0; k < r; k++) { lim.push_back(k * 2.5f); num.push_back(nx * ny - k); } Dss d; if (!d.open(key)) return; int seed = nx + ny * 5 + r; const char* P = T8[3]; vector<float> d0 = data, l0 = lim; vector<int> n0 = num; int rc = AnyRec::gridPut(d, P, seed, nx, ny, data, lim, num, s); if (rc) { fail(key, "storing returned %d", rc); return; } if (memcmp(d0.data(), data.data(), 4 * data.size()) || lim != l0 || num != n0) { fail(key, "storing changed the caller's arrays"); return; } int len[5]; for (int k = 0; k < 5; k++) { int n = s[k].size(); int C[] = {0, 1, n, n + 1, n + 4}; len[k] = C[cl]; } int nl[] = {0, r, r / 2, r + 2}, nd[] = {0, nx * ny, nx * ny / 2, nx * ny + 3}; if (!AnyRec::gridSame(d, P, seed, nx, ny, data, lim, num, s, wd, len, nl[ac], nd[ac], key, "retrieved")) return; d.close(key); Dss e; if (e.open(key)) AnyRec::gridSame(e, P, seed, nx, ny, data, lim, num, s, wd, len, nl[ac], nd[ac], key, "after reopening"); }); }
    // arrays
    { int N = th ? 8 : 6; add("array", strf("0..%d ints x 0..%d floats x 0..%d doubles x retrieved into arrays of that size, or with one, two or all of another size: those of the right size filled, the others untouched", N - 1, N - 1, N - 1), (uint64_t)(N * N * N - 1) * 27, 128, [=](uint64_t i) { int w = digit(i, 27); i++; int a = digit(i, N), b = digit(i, N); return strf("%d ints, %d floats, %d doubles, array sizes off by %d, %d, %d", a, b, (int)i, w % 3 - 1, w / 3 % 3 - 1, w / 9 - 1); },
        [=](uint64_t i, const string& key) { int w = digit(i, 27); i++; int a = digit(i, N), b = digit(i, N), cc = i; vector<int> I; vector<float> Fl; vector<double> D; for (int k = 0; k < a; k++) I.push_back(k * 77 - 5); for (int k = 0; k < b; k++) Fl.push_back(k * 0.3f); for (int k = 0; k < cc; k++) D.push_back(k * 0.1 + 3); Dss d; if (!d.open(key)) return; const char* P = "/A/B/C/D/E/F/"; transition(); int rc = hec_dss_arrayStore(d, P, I.data(), a, Fl.data(), b, D.data(), cc); if (rc) { fail(key, "storing returned %d", rc); return; } int n1 = -1, n2 = -1, n3 = -1; rc = hec_dss_arrayRetrieveInfo(d, P, &n1, &n2, &n3); if (rc || n1 != a || n2 != b || n3 != cc) { fail(key, "told %d, %d, %d elements (status %d), stored %d, %d, %d", n1, n2, n3, rc, a, b, cc); return; } Out<int> oi(std::max(0, a + w % 3 - 1)); Out<float> of(std::max(0, b + w / 3 % 3 - 1)); Out<double> od(std::max(0, cc + w / 9 - 1)); transition(); rc = hec_dss_arrayRetrieve(d, P, oi.p, oi.n, of.p, of.n, od.p, od.n); if (rc) { fail(key, "retrieving returned %d", rc); return; }
          if (oi.n == a ? memcmp(oi.p, I.data(), a * 4) : !oi.kept()) { fail(key, "%d ints into an array of %d: wrong", a, oi.n); return; } if (of.n == b ? memcmp(of.p, Fl.data(), b * 4) : !of.kept()) { fail(key, "%d floats into an array of %d: wrong", b, of.n); return; } if (od.n == cc ? memcmp(od.p, D.data(), cc * 8) : !od.kept()) { fail(key, "%d doubles into an array of %d: wrong", cc, od.n); return; } state(mix(a * 64 + b, cc)); }); }
    // text
    { int N = th ? 60 : 26; add("text", strf("texts of 1..%d characters (with blanks at the end and line ends) x every stated length from 1 to three more than there is x buffers of none to more characters: the stated part of the text, terminated where there is room; a buffer too small is reported", N), (uint64_t)N * 3 * 6 * 7, 64, [=](uint64_t i) { int n = digit(i, N) + 1, k = digit(i, 3), l = digit(i, 6); return strf("text of %d characters, kind %d, stated length class %d, buffer class %d", n, k, l, (int)i); },
        [=](uint64_t i, const string& key) { int n = digit(i, N) + 1, kind = digit(i, 3), lc = digit(i, 6), bc = i; string t = chars(n, n); if (kind == 1) for (int k = n - n / 2; k < n; k++) t[k] = ' '; if (kind == 2) t[n - 1] = '\n'; int LC[] = {n, n + 1, std::max(1, n - 1), n + 3, (n + 1) / 2, n + 100}; int st = LC[lc], eff = std::min(st, n); char* src = (char*)malloc(n + 1); memcpy(src, t.c_str(), n + 1); Dss d; if (!d.open(key)) { free(src); return; } const char* P = "/A/B/C/D/E/F/"; transition(); int rc = hec_dss_textStore(d, P, src, st); free(src); if (rc) { fail(key, "storing returned %d", rc); return; } string w = t.substr(0, eff); int BC[] = {0, 1, eff - 1, eff, eff + 1, eff + 2, eff + 40}; int b = BC[bc]; if (b < 0) b = 0; Out<char> o(b); transition(); rc = hec_dss_textRetrieve(d, P, o.p, b); int m = std::min(b, eff); if (b < eff ? rc != HEC_DSS_BUFFER_TOO_SMALL : (rc && !(rc == HEC_DSS_BUFFER_TOO_SMALL && st > n && b == eff))) { fail(key, "a buffer of %d for a text of %d returned %d", b, eff, rc); return; } if (memcmp(o.p, w.data(), m)) { fail(key, "text '%s', stored '%s'", show(string(o.p, m)).c_str(), show(w).c_str()); return; } if (b > eff && o.p[eff]) { fail(key, "text of %d in a buffer of %d is not terminated", eff, b); return; } state(hashBytes(w.data(), w.size(), b)); }); }
    // locations
    { static const int L[] = {0, 1, 5, 20, 60}; add("location", "time zone names and supplemental texts of 0..60 characters x buffers of none to more characters x stored once, over another with and without replacing it, or read by another pathname of the place", 5ull * 5 * 5 * 4, 50, [](uint64_t i) { int a = digit(i, 5), b = digit(i, 5), cc = digit(i, 5); return strf("time zone of %d, supplemental of %d characters, buffer class %d, order %d", L[a], L[b], cc, (int)i); },
        [](uint64_t i, const string& key) { string tz = word(L[digit(i, 5)], 3), su = word(L[digit(i, 5)], 4); int cl = digit(i, 5), order = i; Dss d; if (!d.open(key)) return; auto put = [&](int k, int rep) { transition(); return hec_dss_locationStore(d, "/A/B/C//E/F/", k + 1.25, k + 2.5, k - 3.75, k + 1, k + 2, k + 3, k + 4, k + 5, k + 6, k ? "OTHER" : tz.c_str(), k ? "OTHER SUPPLEMENT" : su.c_str(), rep); }; int rc = 0; if (order == 1) rc = put(1, 1); if (!rc) rc = put(0, 1); if (rc) { fail(key, "storing returned %d", rc); return; } if (order == 2) put(1, 0); auto len = [&](const string& x) { int n = x.size(); int C[] = {0, 1, n, n + 1, n + 4}; return C[cl]; }; Str a(len(tz)), b(len(su)); double x, y, z; int A[6]; transition(); rc = hec_dss_locationRetrieve(d, order == 3 ? "/A/B/FLOW/01Jan2000/1Hour/G/" : "/A/B/C//E/F/", &x, &y, &z, A, A + 1, A + 2, A + 3, A + 4, A + 5, a.p, a.n, b.p, b.n); if (rc || x != 1.25 || y != 2.5 || z != -3.75) { fail(key, "coordinates %g %g %g (status %d), stored 1.25 2.5 -3.75", x, y, z, rc); return; } for (int k = 0; k < 6; k++) if (A[k] != k + 1) { fail(key, "description %d of the location is %d, stored %d", k, A[k], k + 1); return; } if (a.is(tz, key, "time zone")) b.is(su, key, "supplemental information"); }); }
    // one interface stores, the other reads
    { static const char* const K[] = {"text stored beneath", "text", "arrays stored beneath", "arrays", "a location stored beneath", "a location", "a grid stored beneath", "paired data stored beneath as floats", "paired data", "a series with several quality columns and notes stored beneath", "an irregular series with quality and notes stored beneath"};
      add("both-interfaces", "text (with tables or only a table), arrays, locations, grids, paired data, series with up to three columns of quality and with notes, of 5 x 5 x 3 shapes: stored through one interface, the same through the other", 11ull * 5 * 5 * 3, 15, [](uint64_t i) { int k = digit(i, 11), a = digit(i, 5), b = digit(i, 5); return strf("%s, shape %d %d %d", K[k], a, b, (int)i); },
        [](uint64_t i, const string& key) { int k = digit(i, 11), a = digit(i, 5), b = digit(i, 5), cc = i; bool pub = k == 1 || k == 3 || k == 5 || k == 8; const char* P = k == 9 ? "/A/B/C//1Hour/F/" : k == 10 ? "/A/B/C//IR-Day/F/" : k == 6 ? "/A/B/C/01JAN2000:0100/01JAN2000:0200/F/" : "/A/B/C///F/"; Dss d; File f; int rc = 0; auto fin = [&](Item& it) { d.close(key); if (f.open(F0, 1, 0, 0)) { fail(key, "opening beneath"); return; } it.check(f, key, "read beneath"); f.close(); }; if (pub) { if (!d.open(key)) return; } else if (f.open(F0, 0, 0, 0)) { fail(key, "opening beneath"); return; }
          auto put = [&](Item& it) { if ((rc = it.put(f))) { fail(key, "storing beneath returned %d", rc); return false; } f.close(); return d.open(key); };
          if (k < 2) { static const int N[] = {0, 1, 20, 21, 300}; auto t = Text::make(P, N[a], k ? 0 : b % 3, k ? 0 : b > 2 ? 2 : b ? 1 : 0, cc, k ? 0 : b, a + b + cc); if (k == 0) { if (t->text.empty() && t->table.empty()) return; if (!put(*t)) return; int n = N[a] + b; Out<char> o(n); transition(); rc = hec_dss_textRetrieve(d, P, o.p, n); if (rc || memcmp(o.p, t->text.data(), N[a]) || (b && o.p[N[a]])) fail(key, "text '%s' (status %d), stored '%s'", show(string(o.p, n)).c_str(), rc, show(t->text).c_str()); return; } if (!N[a]) return; transition(); rc = hec_dss_textStore(d, P, t->text.c_str(), N[a]); if (rc) { fail(key, "storing returned %d", rc); return; } fin(*t); return; }
          if (k < 4) { static const int N[] = {0, 1, 2, 7, 50}; auto t = Array::make(P, N[a], N[b], cc * 3, k == 2 ? b : 0, a); if (!N[a] && !N[b] && !cc) return; if (k == 2) { if (!put(*t)) return; int n1 = -1, n2 = -1, n3 = -1; transition(); rc = hec_dss_arrayRetrieveInfo(d, P, &n1, &n2, &n3); if (rc || n1 != N[a] || n2 != N[b] || n3 != cc * 3) { fail(key, "%d, %d, %d elements (status %d), stored %d, %d, %d", n1, n2, n3, rc, N[a], N[b], cc * 3); return; } Out<int> I(n1); Out<float> F(n2); Out<double> D(n3); rc = hec_dss_arrayRetrieve(d, P, I.p, n1, F.p, n2, D.p, n3); if (rc || (n1 && memcmp(I.p, t->i.data(), n1 * 4)) || (n2 && memcmp(F.p, t->f.data(), n2 * 4)) || (n3 && memcmp(D.p, t->d.data(), n3 * 8))) fail(key, "the arrays differ (status %d)", rc); return; } transition(); rc = hec_dss_arrayStore(d, P, t->i.data(), N[a], t->f.data(), N[b], t->d.data(), cc * 3); if (rc) { fail(key, "storing returned %d", rc); return; } fin(*t); return; }
          if (k < 6) { static const int N[] = {0, 1, 5, 12, 60}; auto t = Loc::make(P, 0, N[b], a + 5 * cc); t->tz = word(N[a], cc + 1); for (auto& x : t->sup) if (x == '\n' || x == ' ') x = 'q'; if (k == 4) { if (!put(*t)) return; double x, y, z; int A[6]; Str u(N[a] + 1), v(N[b] + 1); transition(); rc = hec_dss_locationRetrieve(d, P, &x, &y, &z, A, A + 1, A + 2, A + 3, A + 4, A + 5, u.p, u.n, v.p, v.n); int W[] = {t->cs, t->id, t->hu, t->hd, t->vu, t->vd}; if (rc || x != t->x || y != t->y || z != t->z || memcmp(A, W, sizeof W)) { fail(key, "the location differs (status %d)", rc); return; } if (u.is(t->tz, key, "time zone")) v.is(t->sup, key, "supplemental information"); return; } transition(); rc = hec_dss_locationStore(d, P, t->x, t->y, t->z, t->cs, t->id, t->hu, t->hd, t->vu, t->vd, t->tz.c_str(), t->sup.c_str(), 1); if (rc) { fail(key, "storing returned %d", rc); return; } t->path = fullLoc(t->path); fin(*t); return; }
          if (k == 6) { static const int TY[] = {400, 410, 420, 430, 430}; auto t = Grid::make(P, TY[a], b + 1, a + 1, cc == 1 ? 26 : 1, cc * 2, a, b * 3, a); if (!put(*t)) return; int A[11]; Out<float> L(cc * 2), D((a + 1) * (b + 1)); Out<int> N(cc * 2); float c[7]; Str s0(30), s1(30), s2(30), s3(400), s4(30); transition(); rc = hec_dss_gridRetrieve(d, P, 1, A, A + 1, A + 2, A + 3, A + 4, A + 5, A + 6, A + 7, A + 8, A + 9, A + 10, s0.p, 30, s1.p, 30, s2.p, 30, s3.p, 400, s4.p, 30, c, c + 1, c + 2, c + 3, c + 4, c + 5, c + 6, L.p, L.n, N.p, D.p, D.n); int W[] = {t->type, t->dt, t->llx, t->lly, t->nx, t->ny, cc * 2, t->srsType, t->rawOff, t->isInt, t->isTs}; float Wc[] = {t->cell, t->x0, t->y0, t->nul, t->mx, t->mn, t->mean};
            if (rc || memcmp(A, W, sizeof W)) { for (int j = 0; j < 11; j++) if (A[j] != W[j]) { fail(key, "description %d of the grid is %d (status %d), stored %d", j, A[j], rc, W[j]); return; } fail(key, "retrieving returned %d", rc); return; } if (memcmp(c, Wc, sizeof Wc) || memcmp(D.p, t->data.data(), 4 * D.n) || (cc && (memcmp(L.p, t->lim.data(), 4 * L.n) || memcmp(N.p, t->num.data(), 4 * N.n)))) { fail(key, "numbers, ranges or cells of the grid differ"); return; } (void)(s0.is(trim(t->units), key, "data units") && s1.is(trim(t->source), key, "data source") && s2.is(trim(t->srs), key, "reference system") && s3.is(trim(t->def), key, "reference definition") && s4.is(trim(t->tz), key, "time zone")); return; }
          if (k < 9) { int no = a + 1, nc = b + 1; vector<double> o, v; for (int j = 0; j < no; j++) o.push_back(j * 1.5 + cc); for (int j = 0; j < no * nc; j++) v.push_back(j * 0.75 - cc); string lab; for (int j = 0; cc && j < nc; j++) lab += strf("%.*s", j + cc, "curve number") + string(1, 0); if (k == 7) { vector<float> fo(o.begin(), o.end()), fv(v.begin(), v.end()); zStructPairedData* z = zstructPdNewFloats(P, fo.data(), fv.data(), no, nc, "ft", "UNT", "cfs", "LOG"); if (lab.size()) { z->labels = &lab[0]; z->labelsLength = lab.size(); } rc = zpdStore(f.ifltab, z, 0); zstructFree(z); if (rc) { fail(key, "storing beneath returned %d", rc); return; } f.close(); if (!d.open(key)) return; Out<double> O(no), V(no * nc); Out<char> l(lab.size()); int n1 = -1, n2 = -1; Str s0(9), s1(9), s2(9), s3(9), s4(9); transition(); rc = hec_dss_pdRetrieve(d, P, O.p, no, V.p, no * nc, &n1, &n2, s0.p, 9, s1.p, 9, s2.p, 9, s3.p, 9, l.p, l.n, s4.p, 9); if (rc || n1 != no || n2 != nc || memcmp(O.p, o.data(), 8 * no) || memcmp(V.p, v.data(), 8 * no * nc) || (lab.size() && memcmp(l.p, lab.data(), l.n))) { fail(key, "the paired data differ (status %d)", rc); return; } (void)(s0.is("ft", key, "units") && s1.is("UNT", key, "type") && s2.is("cfs", key, "units") && s3.is("LOG", key, "type") && s4.is("", key, "time zone")); return; }
            transition(); rc = hec_dss_pdStore(d, P, o.data(), no, v.data(), no * nc, no, nc, "ft", "UNT", "cfs", "LOG", lab.size() ? lab.data() : nullptr, lab.size(), "PST"); if (rc) { fail(key, "storing returned %d", rc); return; } d.close(key); if (f.open(F0, 1, 0, 0)) { fail(key, "opening beneath"); return; } zStructPairedData* z = zstructPdNew(P); rc = zpdRetrieve(f.ifltab, z, 2); auto is = [](const char* p, const char* w) { return p && !strcmp(p, w); }; if (rc || z->numberOrdinates != no || z->numberCurves != nc || memcmp(z->doubleOrdinates, o.data(), 8 * no) || memcmp(z->doubleValues, v.data(), 8 * no * nc) || z->labelsLength != (int)lab.size() || (lab.size() && memcmp(z->labels, lab.data(), lab.size())) || !is(z->unitsIndependent, "ft") || !is(z->typeIndependent, "UNT") || !is(z->unitsDependent, "cfs") || !is(z->typeDependent, "LOG") || !is(z->timeZoneName, "PST")) fail(key, "read beneath: the paired data differ (status %d)", rc); zstructFree(z); f.close(); return; }
          { int n = 3 + 5 * a, qe = k == 9 ? cc + 1 : 1; ll t0 = cal::julian(2002, 1, 1) * 86400LL - 3600LL * (n / 2); vector<double> v; ts::Extra e; e.qe = qe; Want w; irr::Series x; for (int j = 0; j < n; j++) { v.push_back(val(j, b & 1)); for (int c2 = 0; c2 < qe; c2++) e.q.push_back((j * 8 + c2 + 1) << 1); w.t.push_back(t0 + 3600LL * j); w.v.push_back(v.back()); } if (k == 9) { if (b > 1) { e.ne = b - 1; for (int j = 0; j < n * e.ne; j++) e.notes.push_back(j + 1); } rc = ts::store(f, P, t0, v, 0, !(b & 1), &e); for (int j = 0; j < n; j++) w.q.push_back(e.q[j * qe]); } else { for (int j = 0; j < n; j++) x[w.t[j]] = {v[j], j * 3 + 1, j, ""}; rc = irr::store(f, P, x, 0, !(b & 1), 60, true, 1 << cc, "cfs"); for (int j = 0; j < n; j++) w.q.push_back(j * 3 + 1); }
            if (rc) { fail(key, "storing beneath returned %d", rc); return; } string un = "cfs", ty = "INST-VAL", tz; { ts::Got g = ts::retrieve(f, P, w.t[0], w.t.back()); tz = g.tz; if (g.units != un) { fail(key, "units '%s' beneath", g.units.c_str()); return; } ty = g.type; } f.close(); if (!d.open(key)) return; string d1 = cal::date(w.t[0]), t1 = cal::time(w.t[0]), d2 = cal::date(w.t.back()), t2 = cal::time(w.t.back()); Got g; int nv = 0, q = -1; transition(); rc = hec_dss_tsGetSizes(d, P, d1.c_str(), t1.c_str(), d2.c_str(), t2.c_str(), &nv, &q); if (rc || nv < n || q != qe) { fail(key, "the sizes told are %d, %d (status %d); stored %d, %d", nv, q, rc, n, qe); return; } if (get(d, P, d1.c_str(), t1.c_str(), d2.c_str(), t2.c_str(), n, true, un, ty, tz, 20, 20, 20, g, key, "retrieved")) same(g, w, n, true, key, "retrieved"); } }); }
    // absent and other kinds
    add("other-kinds", "a record of each of seven kinds x every retrieval of another kind, of the same pathname, and every retrieval of an absent pathname: refused, with nothing delivered; the record still there", 7ull * 12 * 2, 12, [](uint64_t i) { int k = digit(i, 7), r = digit(i, 12); return strf("%s holds its record; %s is asked as %s", T8[k], i ? "an absent pathname" : "it", RET[r]); },
      [](uint64_t i, const string& key) { int k = digit(i, 7), r = digit(i, 12), absent = i; Dss d; if (!d.open(key)) return; AnyRec a(k, 3); int rc = a.put(d); if (rc) { fail(key, "storing returned %d", rc); return; } static const char* const ABS[] = {"/NO/NO/TEXT///F/", "/NO/NO/A///F/", "/NO/NO/A///F/", "/NO/NO/C///F/", "/NO/NO/C///F/", "/NO/NO/G/01JAN2000:0100/01JAN2000:0200/F/", "/NO/NO/G/01JAN2000:0100/01JAN2000:0200/F/", "/NO/NO/FLOW//1Hour/F/", "/NO/NO/FLOW//1Hour/F/", "/NO/NO/FLOW/01Jan2000/1Hour/F/", "/NO/NO/L///F/", "/NO/NO/FLOW//1Hour/F/"}; if (!absent && (OWN[r] == k || (OWN[r] == -1 && (k == 4 || k == 5)))) return; refused(d, r, absent ? ABS[r] : T8[k], key, T8[k]); if (!failed()) a.check(d, key, "afterwards"); });
    // histories over all kinds
    { int D = th ? 5 : 4; static const int A = 11; static const char* const O[] = {"store text", "store arrays", "store paired data", "store a grid", "store a series", "store an irregular series", "store a location", "delete the text", "delete the arrays", "squeeze", "reopen"}; add("histories", strf("every sequence of up to %d stores of seven kinds, deletions, squeezes and reopenings: after each, every record present is delivered as last stored, and the number of records agrees", D), seqCount(A, 1, D), 64, [=](uint64_t i) { string o; for (int k : seqDecode(i, A, 1, D)) o += string(o.empty() ? "" : "; ") + O[k]; return o; },
        [=](uint64_t i, const string& key) { Dss d; if (!d.open(key)) return; std::map<int, std::shared_ptr<AnyRec>> have; int n = 0; for (int k : seqDecode(i, A, 1, D)) { ++n; ++*vfs::nowMs; int rc = 0; if (k < 7) { auto r = std::make_shared<AnyRec>(k, n * 3); if (have.count(k)) r->follow(*have[k]); rc = r->put(d); if (rc) { fail(key, "%s returned %d", O[k], rc); return; } have[k] = r; } else if (k < 9) { transition(); rc = hec_dss_delete(d, T8[k - 7]); if (have.count(k - 7) ? rc != 0 : rc == 0) { fail(key, "%s returned %d", O[k], rc); return; } have.erase(k - 7); } else { d.close(key); if (k == 9) { transition(); rc = hec_dss_squeeze(F0); if (rc) { fail(key, "squeezing returned %d", rc); return; } } if (!d.open(key)) return; } }
          int records = 0; for (auto& h : have) { if (!h.second->check(d, key, "at the end")) return; if (h.first == 4) { std::set<ll> b; for (auto& e : h.second->m.v) b.insert(h.second->m.blk(e.first)); records += b.size(); } else if (h.first == 5) { std::set<ll> b; for (auto& e : h.second->s) b.insert(irr::bstart(1, e.first)); records += b.size(); } else records++; } transition(); int rc = hec_dss_record_count(d); if (rc != records) { fail(key, "%d records counted, expected %d", rc, records); return; } if (hec_dss_getVersion(d) != 7) { fail(key, "version %d", hec_dss_getVersion(d)); return; } static const int TY[] = {300, 90, 205, 430}; for (int k = 0; k < 4; k++) { int t = hec_dss_dataType(d, T8[k]), w = hec_dss_recordType(d, T8[k]); if (have.count(k) ? t != TY[k] || w != TY[k] : t > 0 || w > 0) { fail(key, "%s: data type %d, record type %d, %s %d", T8[k], t, w, have.count(k) ? "stored" : "absent, once", TY[k]); return; } } d.close(key); int v = hec_dss_getFileVersion(F0); if (v != 7) fail(key, "file version %d", v); }); }
    // memory: nothing is kept between calls
    { static const int NOPS = 7 + 7 + 12 + 12 + 6 + 9; add("memory", "every store, retrieval, refused retrieval, catalog, count and open-and-close, over and over: the memory in use does not grow", NOPS, 1, [](uint64_t i) { int k = i; return k < 7 ? strf("storing %s", T8[k]) : k < 14 ? strf("retrieving %s", T8[k - 7]) : k < 26 ? strf("retrieving an absent record as %s", RET[k - 14]) : k < 38 ? strf("retrieving a record of another kind as %s", RET[k - 26]) : strf("operation %d", k - 38); },
        [](uint64_t i, const string& key) { int k = i; Dss d; if (!d.open(key)) return; vector<std::shared_ptr<AnyRec>> r; for (int j = 0; j < 7; j++) { r.push_back(std::make_shared<AnyRec>(j, 3)); int rc = r[j]->put(d); if (rc) { fail(key, "storing %s returned %d", T8[j], rc); return; } } static const char* const ABS[] = {"/NO/NO/TEXT///F/", "/NO/NO/FLOW//1Hour/F/"}; auto step = [&] { if (k < 7) r[k]->put(d); else if (k < 14) r[k - 7]->check(d, key, "again"); else if (k < 26) refused(d, k - 14, OWN[k - 14] == -1 ? ABS[1] : ABS[0], key, "absent"); else if (k < 38) refused(d, k - 26, k == 36 ? ABS[0] : OWN[k - 26] == 0 ? T8[1] : T8[0], key, "another kind"); else if (k == 38) { char b[200]; int t[5]; hec_dss_catalog(d, b, t, nullptr, 5, 40); } else if (k == 39) { char b[200]; int t[5]; hec_dss_catalog(d, b, t, "not a pattern", 5, 40); } else if (k == 40) { Dss e; e.open(key, "/mc/b.dss"); e.close(key); } else if (k == 41) { dss_file* x = nullptr; vfs::put("/mc/no.dss", string(5000, 'n')); if (hec_dss_open("/mc/no.dss", &x) == 0) fail(key, "a file that is no DSS file was opened"); } else if (k == 42) { int a, b, cc, e; hec_dss_tsGetDateTimeRange(d, T8[4], 1, &a, &b, &cc, &e); hec_dss_tsGetDateTimeRange(d, "/NO/NO/FLOW//1Hour/F/", 1, &a, &b, &cc, &e); } else if (k >= 44) { ll t0 = cal::julian(2002, 3, 1) * 86400LL + 3600; irr::Series s; s[t0] = {5, 3, 0, ""}; s[t0 + 3600] = {6, 4, 0, ""}; int rc = 0, x = 0, y = 0; char b[20], b2[20], b3[20], b4[20]; 
            switch (k) { case 44: rc = putReg(d, "/X/Y/FLOW//1Hour/F/", t0, {5, 6}, {3, 4}, true, "cfs", "INST-VAL", "UTC", 0); break; case 45: rc = putReg(d, "/X/Y/FLOW//1Hour/F/", t0, {5, 6}, {3, 4}, false, "cfs", "INST-VAL", "UTC", 0); break; case 46: rc = putIrr(d, "/X/Y/FLOW//IR-Day/F/", s, 60, "01Mar2002", true, true, "cfs", "INST-VAL", "UTC", 0); break; case 47: rc = putIrr(d, "/X/Y/FLOW//IR-Day/F/", s, 60, "01Mar2002", true, false, "cfs", "INST-VAL", "UTC", 1); break;
              case 48: rc = hec_dss_tsGetSizes(d, T8[4], "31Dec2001", "1200", "01Jan2002", "0500", &x, &y); break; case 49: rc = hec_dss_pdRetrieveInfo(d, T8[2], &x, &y, b, 20, b2, 20, b3, 20, b4, 20, &x); break; case 50: rc = hec_dss_tsRetrieveInfo(d, "/P/Q/FLOW/01Jan2002/1Hour/F/", b, 20, b2, 20); break; case 51: hec_dss_textStore(d, T8[1], "text", 4); hec_dss_arrayStore(d, T8[0], &x, 1, nullptr, 0, nullptr, 0); break; default: putReg(d, "/X/Y/FLOW/////", t0, {5, 6}, {3, 4}, true, "cfs", "INST-VAL", "UTC", 0); putIrr(d, "/X/Y/FLOW//IR-Nothing/F/", s, 60, "01Mar2002", true, true, "cfs", "INST-VAL", "UTC", 0); break; } if (rc) fail(key, "operation %d returned %d", k - 38, rc); } else { hec_dss_recordType(d, T8[0]); hec_dss_recordType(d, ABS[0]); hec_dss_dataType(d, T8[0]); hec_dss_delete(d, ABS[0]); hec_dss_record_count(d); } };
          size_t last = 0; int grew = 0; for (int n = 0; n < 12 && !failed(); n++) { step(); size_t now = __sanitizer_get_current_allocated_bytes(); if (n > 4 && now > last) grew++; last = now; transition(); } if (grew > 5) fail(key, "the memory in use grew with each of %d repetitions", grew); }); }
  };
  return run(argc, argv, c);
}
