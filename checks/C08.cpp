// Everything attached to a series comes back exactly: values under repeat compression, quality, notes, user header, units, ...
// flavour: asan
#include "ts.h"
using namespace ts;
struct Spec { bool reg = true, dbl = true; int ival = 0; std::vector<double> v; int qe = 0, ne = 0; bool cn = false; std::vector<int> q, n; std::vector<std::string> c; std::vector<int> uh; std::string units = "cfs", type = "INST-VAL", tz; int prec = -1; ll start = 0; int depths = 0; std::vector<double> dep; std::string du = "feet"; int gran = 60; std::vector<ll> t; };
static const cal::Iv& IV(int i) { return cal::intervals()[i]; }
static std::string pathOf(const Spec& s) { return s.reg ? path(IV(s.ival).name, "", "F") : path("IR-Month"); }
static int put(File& f, const Spec& s0, int flag = 0) { Spec s = s0; std::vector<float> fv(s.v.begin(), s.v.end()), fd(s.dep.begin(), s.dep.end()); std::string D = cal::date(s.start), T = cal::time(s.start), c; std::vector<int> tm; ll base = cal::dayOf(s.start); int n = s.depths ? s.v.size() / s.depths : s.v.size(); for (auto& x : s.c) { c += x; c += '\0'; }
  if (!s.reg) for (ll t : s.t) tm.push_back((int)((t - base * 86400) / s.gran)); std::string bd = cal::dateStr(base);
  zStructTimeSeries* z; if (s.depths) { z = zstructTsNew(pathOf(s).c_str()); z->numberValues = n; z->profileDepthsNumber = s.depths; if (s.dbl) { z->doubleProfileDepths = s.dep.data(); z->doubleProfileValues = s.v.data(); } else { z->floatProfileDepths = fd.data(); z->floatProfileValues = fv.data(); } z->unitsProfileDepths = mallocAndCopy(s.du.c_str()); z->allocated[zSTRUCT_TS_profileUnitsDepths] = 1; z->unitsProfileValues = mallocAndCopy(s.units.c_str()); z->allocated[zSTRUCT_TS_profileUnitsValues] = 1; z->type = mallocAndCopy(s.type.c_str()); z->allocated[zSTRUCT_TS_type] = 1; z->startJulianDate = base; z->startTimeSeconds = s.start - base * 86400; if (!s.reg) { z->times = tm.data(); z->timeGranularitySeconds = s.gran; z->julianBaseDate = base; } }
  else if (s.reg) z = s.dbl ? zstructTsNewRegDoubles(pathOf(s).c_str(), s.v.data(), n, D.c_str(), T.c_str(), s.units.c_str(), s.type.c_str()) : zstructTsNewRegFloats(pathOf(s).c_str(), fv.data(), n, D.c_str(), T.c_str(), s.units.c_str(), s.type.c_str());
  else z = s.dbl ? zstructTsNewIrregDoubles(pathOf(s).c_str(), s.v.data(), n, tm.data(), s.gran, bd.c_str(), s.units.c_str(), s.type.c_str()) : zstructTsNewIrregFloats(pathOf(s).c_str(), fv.data(), n, tm.data(), s.gran, bd.c_str(), s.units.c_str(), s.type.c_str());
  if (s.qe) { z->quality = s.q.data(); z->qualityElementSize = s.qe; } if (s.ne) { z->inotes = s.n.data(); z->inoteElementSize = s.ne; } if (s.cn) { z->cnotes = &c[0]; z->cnotesLengthTotal = c.size(); } if (s.uh.size()) { z->userHeader = s.uh.data(); z->userHeaderNumber = s.uh.size(); } if (s.tz.size()) { z->timeZoneName = mallocAndCopy(s.tz.c_str()); z->allocated[zSTRUCT_timeZoneName] = 1; } z->precision = s.prec;
  int rc = ztsStore(f.ifltab, z, flag); zstructFree(z); return rc; }
// expected: series s; window is exactly its span
static bool check(File& f, const Spec& s, int flag, int dbl, const std::string& key, const char* what, bool withQ = true) { int n = s.depths ? s.v.size() / s.depths : s.v.size(), D = s.depths ? s.depths : 1; ll a = s.start, b = s.reg ? cal::slotTime(IV(s.ival), cal::slotOf(IV(s.ival), a) + n - 1) : s.t.back();
  int lo = 0, hi = n; auto mis = [&](int i) { for (int k = 0; k < D; k++) if (!missing(s.v[i * D + k])) return false; return true; }; if (s.reg && (flag == -1 || flag == -3)) { while (lo < hi && mis(lo)) lo++; while (hi > lo && mis(hi - 1)) hi--; }
  zStructTimeSeries* z = zstructTsNewTimes(pathOf(s).c_str(), cal::date(a).c_str(), cal::time(a).c_str(), cal::date(b).c_str(), cal::time(b).c_str()); int rc = ztsRetrieve(f.ifltab, z, flag, dbl, withQ); struct G { zStructTimeSeries* z; ~G() { zstructFree(z); } } g{z};
  bool all = lo == hi; if (all) { if (rc == 0 && z->numberValues > 0 && s.reg) { fail(key, "%s: %d values of a window trimmed to nothing", what, z->numberValues); return false; } return true; }
  if (rc) { fail(key, "%s: retrieve returned %d", what, rc); return false; } if (z->numberValues != hi - lo) { fail(key, "%s: %d values, expected %d", what, z->numberValues, hi - lo); return false; }
  const double* dv = s.depths ? z->doubleProfileValues : z->doubleValues; const float* fv = s.depths ? z->floatProfileValues : z->floatValues; bool asF = dbl == 1 || (dbl == 0 && !s.dbl); if (asF ? !fv || dv : !dv || fv) { fail(key, "%s: values delivered in the wrong precision", what); return false; }
  int N = hi - lo; for (int i = 0; i < N; i++) { for (int k = 0; k < D; k++) { double w = s.v[(lo + i) * D + k], x = asF ? (double)fv[i * D + k] : dv[i * D + k]; if (!(missing(w) && missing(x)) && x != (s.dbl && !asF ? w : (double)(float)w)) { fail(key, "%s: value %d%s is %.17g, stored %.17g", what, i, s.depths ? strf(" depth %d", k).c_str() : "", x, w); return false; } } if (flag == 0 || flag == -1 || !s.reg) { if (!z->times) { fail(key, "%s: no times", what); return false; } ll t = ((ll)z->julianBaseDate * 86400 + (ll)z->times[i] * z->timeGranularitySeconds), w = s.reg ? cal::slotTime(IV(s.ival), cal::slotOf(IV(s.ival), a) + lo + i) : s.t[lo + i]; if (t != w) { fail(key, "%s: time %d is %s, expected %s", what, i, tstr(t).c_str(), tstr(w).c_str()); return false; } } }
  if (withQ) { if (s.qe) { if (!z->quality || z->qualityElementSize != s.qe) { fail(key, "%s: quality size %d, stored %d", what, z->quality ? z->qualityElementSize : 0, s.qe); return false; } for (int i = 0; i < N * s.qe; i++) if (z->quality[i] != s.q[lo * s.qe + i]) { fail(key, "%s: quality word %d is %d, stored %d", what, i, z->quality[i], s.q[lo * s.qe + i]); return false; } } else if (z->quality) { fail(key, "%s: quality delivered, none stored", what); return false; }
    if (s.ne) { if (!z->inotes || z->inoteElementSize != s.ne) { fail(key, "%s: note size %d, stored %d", what, z->inotes ? z->inoteElementSize : 0, s.ne); return false; } for (int i = 0; i < N * s.ne; i++) if (z->inotes[i] != s.n[lo * s.ne + i]) { fail(key, "%s: note word %d is %d, stored %d", what, i, z->inotes[i], s.n[lo * s.ne + i]); return false; } } else if (z->inotes) { fail(key, "%s: notes delivered, none stored", what); return false; }
    if (s.cn) { const char* c = z->cnotes; const char* e = c ? c + z->cnotesLengthTotal : c; for (int i = 0; i < N; i++) { std::string x = c && c < e ? std::string(c, strnlen(c, e - c)) : std::string("(absent)"); if (c) c += x.size() + 1; if (x != s.c[lo + i]) { fail(key, "%s: text note %d is '%s', stored '%s'", what, i, x.c_str(), s.c[lo + i].c_str()); return false; } } } }
  std::string u = s.depths ? (z->unitsProfileValues ? z->unitsProfileValues : "") : (z->units ? z->units : ""), ty = z->type ? z->type : "", tz = z->timeZoneName ? z->timeZoneName : ""; if (u != s.units || ty != s.type || tz != s.tz) { fail(key, "%s: units '%s' type '%s' time zone '%s'", what, u.c_str(), ty.c_str(), tz.c_str()); return false; }
  if (z->precision != s.prec) { fail(key, "%s: precision %d, stored %d", what, z->precision, s.prec); return false; }
  if (s.depths) { if (z->profileDepthsNumber != s.depths) { fail(key, "%s: %d depths", what, z->profileDepthsNumber); return false; } for (int k = 0; k < s.depths; k++) { double x = asF ? (z->floatProfileDepths ? z->floatProfileDepths[k] : -77) : (z->doubleProfileDepths ? z->doubleProfileDepths[k] : -77); if (x != (s.dbl && !asF ? s.dep[k] : (double)(float)s.dep[k])) { fail(key, "%s: depth %d is %g, stored %g", what, k, x, s.dep[k]); return false; } } if (s.du != (z->unitsProfileDepths ? z->unitsProfileDepths : "")) { fail(key, "%s: depth units '%s'", what, z->unitsProfileDepths ? z->unitsProfileDepths : "none"); return false; } }
  if (withQ) { size_t w = (s.uh.size() + 1) / 2 * 2; if (s.uh.empty() ? z->userHeaderNumber != 0 : ((size_t)z->userHeaderNumber != s.uh.size() && (size_t)z->userHeaderNumber != w)) { fail(key, "%s: user header has %d words, stored %zu", what, z->userHeaderNumber, s.uh.size()); return false; } for (size_t i = 0; i < s.uh.size(); i++) if (z->userHeader[i] != s.uh[i]) { fail(key, "%s: user header word %zu", what, i); return false; } }
  uint64_t h = hashBytes(s.v.data(), s.v.size() * 8, N); state(mix(mix(h, hashBytes(s.q.data(), s.q.size() * 4)), hashBytes(s.n.data(), s.n.size() * 4))); return true; }
// the part i..j of a series
static Spec slice(const Spec& s, int i, int j) { Spec r = s; int D = s.depths ? s.depths : 1; r.v = std::vector<double>(s.v.begin() + i * D, s.v.begin() + (j + 1) * D); if (s.qe) r.q = std::vector<int>(s.q.begin() + i * s.qe, s.q.begin() + (j + 1) * s.qe); if (s.ne) r.n = std::vector<int>(s.n.begin() + i * s.ne, s.n.begin() + (j + 1) * s.ne); if (s.cn) r.c = std::vector<std::string>(s.c.begin() + i, s.c.begin() + j + 1); if (s.reg) r.start = cal::slotTime(IV(s.ival), cal::slotOf(IV(s.ival), s.start) + i); else { r.t = std::vector<ll>(s.t.begin() + i, s.t.begin() + j + 1); r.start = r.t[0]; } return r; }
// run r, kind: 0 all different, 1 repeated, 2 missing (zero for quality and notes)
static void runs(const std::vector<int>& len, const std::vector<int>& kind, int el, bool quality, std::vector<double>& v, std::vector<int>& q) { int c = 0; for (size_t r = 0; r < len.size(); r++) for (int i = 0; i < len[r]; i++, c++) for (int e = 0; e < el; e++) { if (quality) q.push_back(kind[r] == 0 ? c * 4 + e + 1 : kind[r] == 1 ? 7000 + (int)r * 10 + e : 0); else v.push_back(kind[r] == 0 ? c * 1.25 + e + 1 : kind[r] == 1 ? 500.5 + r : MISS); } }
static void at(Spec& s, int where) { int n = s.depths ? s.v.size() / s.depths : s.v.size(); const cal::Iv& iv = IV(s.ival); ll b = (iv.secs == 86400 ? cal::julian(2001, 1, 1) : cal::julian(2000, 3, 1)) * 86400; if (!s.reg) { s.start = where ? b - 60 * (n / 2) : b + 600; if (!where) s.start = b + 60; for (int i = 0; i < n; i++) s.t.push_back(s.start + 60 * i); return; } ll k = cal::slotOf(iv, b) + 1; if (where) k -= n / 2; s.start = cal::slotTime(iv, k); }
static int ivIndex(const char* n) { for (size_t i = 0; i < cal::intervals().size(); i++) if (!strcmp(cal::intervals()[i].name, n)) return i; abort(); }
int main(int argc, char** argv) {
  Check c; c.id = "C08"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system", "bounds: series of up to three runs of up to 64 values in one or two records; up to five profile depths"};
  c.build = [](bool th, std::vector<Family>& fs) {
    static const int HOUR = ivIndex("1Hour"), DAY = ivIndex("1Day");
    // repeat compression
    std::vector<int> L = th ? std::vector<int>{1, 2, 5, 13, 31, 32, 33, 64} : std::vector<int>{1, 13, 32, 33}; uint64_t NL = L.size();
    for (int reg = 0; reg < 2; reg++) for (int dbl = 0; dbl < 2; dbl++) for (int at3 = 0; at3 < 6; at3++) { // attribute sizes: none, q1, q2, q1+n1, n2, q1+cnotes
      static const int Q[] = {0, 1, 2, 1, 0, 1}, Nn[] = {0, 0, 0, 1, 2, 0}; int nk = at3 ? 3 : 1;
      Family f; f.name = strf("runs-%s-%s-%d", reg ? "regular" : "irregular", dbl ? "double" : "float", at3); f.n = NL * NL * NL * 27 * nk * 2; f.chunk = 128; f.rule = strf("every series of three runs of lengths from {1..%d} (%zu lengths), each all different, repeated or missing, x attributes of constant, varying or mixed content (%d+%d words%s) x within one record or across two", L.back(), L.size(), Q[at3], Nn[at3], at3 == 5 ? ", text notes" : "");
      auto dec = [=](uint64_t i, std::vector<int>& len, std::vector<int>& kind, int& ak, int& where) { len.clear(); kind.clear(); for (int r = 0; r < 3; r++) len.push_back(L[digit(i, NL)]); for (int r = 0; r < 3; r++) kind.push_back(digit(i, 3)); ak = digit(i, nk); where = digit(i, 2); };
      f.describe = [=](uint64_t i) { std::vector<int> l, k; int ak, w; dec(i, l, k, ak, w); static const char* K[] = {"different", "repeated", "missing"}; return strf("%s %s: %d %s, %d %s, %d %s, attributes kind %d/%d, %s", reg ? "regular" : "irregular", dbl ? "double" : "float", l[0], K[k[0]], l[1], K[k[1]], l[2], K[k[2]], at3, ak, w ? "two records" : "one record"); };
      f.run = [=](uint64_t i) { Spec s; std::vector<int> len, kind; int ak, where; dec(i, len, kind, ak, where); if (kind[0] == 2 && kind[1] == 2 && kind[2] == 2) return; s.reg = reg; s.dbl = dbl; s.ival = HOUR; std::vector<double> dummy; std::vector<int> dq; runs(len, kind, 1, false, s.v, dq); s.qe = Q[at3]; s.ne = Nn[at3]; std::vector<int> k2 = kind, k3 = {ak, (ak + 1) % 3, ak}; if (ak == 2) k2 = {1, 1, 1}; else if (ak == 1) k2 = {0, 2, 1}; else k2 = {2, 0, 0};
        std::vector<int> l1 = {(int)s.v.size()}; if (s.qe) { if (ak == 2) runs(l1, {1}, s.qe, true, dummy, s.q); else runs(len, k2, s.qe, true, dummy, s.q); } if (s.ne) { if (ak == 0) runs(l1, {1}, s.ne, true, dummy, s.n); else runs(len, k3, s.ne, true, dummy, s.n); } s.cn = at3 == 5; if (s.cn) for (size_t j = 0; j < s.v.size(); j++) s.c.push_back((j + ak) % 3 ? std::string(1 + j % 7, (char)('a' + j % 26)) : std::string()); at(s, where);
        std::string key = strf("%d%d%d:%d,%d,%d:%d%d%d:%d:%d", reg, dbl, at3, len[0], len[1], len[2], kind[0], kind[1], kind[2], ak, where); freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } int rc = put(f, s); transition(); if (rc) { fail(key, "store returned %d", rc); return; } check(f, s, 0, 0, key, "retrieved"); if (!failed() && reg && i % 5 == 0) check(f, s, -1, 0, key, "trimmed"); if (!failed() && i % 7 == 0) check(f, s, 0, dbl ? 1 : 2, key, "in the other precision"); int n = s.v.size(); std::set<int> st = {1, len[0], len[0] + 1, len[0] + len[1] - 1, n / 2}; for (int x : st) if (x > 0 && x < n && !failed()) { Spec w = slice(s, x, x % 2 ? n - 1 : std::min(n - 1, x + 4)); check(f, w, 0, x % 3, key + strf(":%d", x), "window"); } f.close(); };
      fs.push_back(f); }
    // descriptive attributes
    { static const char* U[] = {"cfs", "F", "degF", "m3/s", "tons/acre", "Units that are quite long"}; static const char* T[] = {"INST-VAL", "PER-AVER", "PER-CUM", "INST-CUM", "X"}; static const char* Z[] = {"", "PST", "UTC", "America/Argentina/Buenos_Aires", "Z"}; static const int UH[] = {0, 1, 2, 3, 10, 33}; static const int P[] = {-1, 0, 3, 9};
      Family f; f.name = "attributes"; f.n = 2 * 2 * 6 * 5 * 5 * 6 * 4 * 2; f.chunk = 128; f.rule = "regular and irregular x precision x units x type x time zone x user header size x decimal places x one or two records";
      f.describe = [=](uint64_t i) { return strf("attribute combination %llu", (unsigned long long)i); };
      f.run = [=](uint64_t i) { std::string key = strf("attributes:%llu", (unsigned long long)i); Spec s; s.reg = digit(i, 2); s.dbl = digit(i, 2); s.units = U[digit(i, 6)]; s.type = T[digit(i, 5)]; s.tz = Z[digit(i, 5)]; int u = UH[digit(i, 6)]; s.prec = P[digit(i, 4)]; int where = digit(i, 2); for (int k = 0; k < u; k++) s.uh.push_back(k * 77 + 5); s.ival = DAY; for (int k = 0; k < 6; k++) s.v.push_back(k + 0.5); if (u % 2) { s.qe = 1; for (int k = 0; k < 6; k++) s.q.push_back(k + 9); }
        at(s, where); freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } int rc = put(f, s); transition(); if (rc) { fail(key, "store returned %d", rc); return; } check(f, s, 0, 0, key, "retrieved"); f.close(); };
      fs.push_back(f); }
    // profiles
    for (int reg = 0; reg < 2; reg++) for (int dbl = 0; dbl < 2; dbl++) { static const int DN[] = {1, 2, 3, 5}; int nv = th ? 5 : 4; uint64_t M = 1; for (int k = 0; k < nv; k++) M *= 4;
      Family f; f.name = strf("profiles-%s-%s", reg ? "regular" : "irregular", dbl ? "double" : "float"); f.n = 4 * M * 3 * 2 * 2; f.chunk = 128; f.rule = strf("profile series of %d times, 1-5 depths, every pattern of complete, partly missing, differently missing and all-missing profiles x attributes x one or two records x time interval, retrieved in both precisions and trimmed", nv);
      f.describe = [=](uint64_t i) { int d = DN[digit(i, 4)]; std::string p; for (int k = 0; k < nv; k++) p += "fpqm"[digit(i, 4)]; int a = digit(i, 3), w = digit(i, 2); return strf("%s %s profile of %d depths, %s, attributes %d, %s", reg ? "regular" : "irregular", dbl ? "double" : "float", d, p.c_str(), a, w ? "two records" : "one record"); };
      f.run = [=](uint64_t i) { std::string key = strf("profile:%d%d:%llu", reg, dbl, (unsigned long long)i); Spec s; s.reg = reg; s.dbl = dbl; s.depths = DN[digit(i, 4)]; bool any = false; for (int k = 0; k < nv; k++) { int p = digit(i, 4); for (int d = 0; d < s.depths; d++) { bool m = p == 3 || (p == 1 && d == 0) || (p == 2 && d == s.depths - 1); if (!m) any = true; s.v.push_back(m ? MISS : k * 10 + d + 0.25); } } int a = digit(i, 3), where = digit(i, 2); s.ival = digit(i, 2) ? DAY : HOUR; if (!any) return; for (int d = 0; d < s.depths; d++) s.dep.push_back(1.5 + d * 5.1);
        if (a) { s.qe = 1; for (int k = 0; k < nv; k++) s.q.push_back(k + 3); } if (a == 2) { s.ne = 1; for (int k = 0; k < nv; k++) s.n.push_back(k * 3 + 1); s.uh = {1, 2, 3, 4}; s.tz = "PST"; } s.units = "degC"; at(s, where); freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } int rc = put(f, s); transition(); if (rc) { fail(key, "store returned %d", rc); return; }
        for (int p = 0; p < 3 && !failed(); p++) check(f, s, 0, p, key, p == 0 ? "retrieved" : p == 1 ? "retrieved as single precision" : "retrieved as double precision"); if (!failed() && reg) check(f, s, -1, 0, key, "trimmed"); if (a < 2) for (int x = 0; x < nv && !failed(); x++) for (int y = x; y < nv && !failed(); y++) if (y - x + 1 < nv) { Spec w = slice(s, x, y); check(f, w, reg && (x + y) % 2 ? -1 : 0, a, key + strf(":%d-%d", x, y), "window"); } f.close(); };
      fs.push_back(f); }
    // stores over stored profiles
    for (int reg = 0; reg < 2; reg++) { uint64_t N = th ? 6 : 5;
      Family f; f.name = strf("profile-stores-%s", reg ? "regular" : "irregular"); f.n = N * N * N * N * 2 * 2 * 3 * 2; f.chunk = 128; f.rule = strf("two stores of profiles, each of any span of %d times, across two records or in one, both precisions, with quality and notes, replacing or merging", (int)N);
      f.describe = [=](uint64_t i) { return strf("%s profile stores %llu", reg ? "regular" : "irregular", (unsigned long long)i); };
      f.run = [=](uint64_t i) { std::string key = strf("profile-stores:%d:%llu", reg, (unsigned long long)i); int a1 = digit(i, N), b1 = digit(i, N), a2 = digit(i, N), b2 = digit(i, N), where = digit(i, 2); bool dbl = digit(i, 2); int at3 = digit(i, 3), flag = digit(i, 2); if (b1 < a1 || b2 < a2) return; Spec base; base.reg = reg; base.dbl = dbl; base.ival = HOUR; base.depths = 2; base.units = "degC"; base.dep = {1.5, 4.25}; base.qe = at3 > 0; base.ne = at3 > 1;
        auto mk = [&](int g) { Spec s = base; for (int k = 0; k < (int)N; k++) { s.v.push_back(g * 100 + k + 0.5); s.v.push_back(g * 100 + k + 0.75); if (s.qe) s.q.push_back(g * 1000 + k); if (s.ne) s.n.push_back(g * 2000 + k); } at(s, where); return s; }; Spec A = mk(1), B = mk(2); if (reg && flag) flag = 2;
        freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } int rc = put(f, slice(A, a1, b1)); if (!rc) rc = put(f, slice(B, a2, b2), flag); transition(2); if (rc) { fail(key, "store returned %d", rc); return; }
        Spec w = A; int lo = std::min(a1, a2), hi = std::max(b1, b2); if (!reg && (b2 < a1 - 1 || b1 < a2 - 1)) { // irregular: nothing in between
          std::vector<int> keep; for (int k = 0; k < (int)N; k++) if ((k >= a1 && k <= b1) || (k >= a2 && k <= b2)) keep.push_back(k); Spec z = base; for (int k : keep) { const Spec& S = k >= a2 && k <= b2 ? B : A; z.v.insert(z.v.end(), S.v.begin() + 2 * k, S.v.begin() + 2 * k + 2); if (z.qe) z.q.push_back(S.q[k]); if (z.ne) z.n.push_back(S.n[k]); z.t.push_back(S.t[k]); } z.start = z.t[0]; check(f, z, 0, 0, key, "after both stores"); f.close(); return; }
        for (int k = 0; k < (int)N; k++) { bool two = k >= a2 && k <= b2, one = k >= a1 && k <= b1; if (two) { w.v[2 * k] = B.v[2 * k]; w.v[2 * k + 1] = B.v[2 * k + 1]; if (w.qe) w.q[k] = B.q[k]; if (w.ne) w.n[k] = B.n[k]; } else if (!one) { w.v[2 * k] = w.v[2 * k + 1] = MISS; if (w.qe) w.q[k] = 0; if (w.ne) w.n[k] = 0; } }
        check(f, slice(w, lo, hi), 0, 0, key, "after both stores"); if (!failed()) check(f, slice(w, lo, hi), 0, 1 + !dbl, key, "after both stores, other precision"); f.close(); };
      fs.push_back(f); }
    // stores over a series of another kind
    { static const int DP[] = {0, 2, 3};
      Family f; f.name = "kinds"; f.n = 2 * 2 * 3 * 3 * 3 * 3 * 2 * 2 * 2 * 3 * 2; f.chunk = 128; f.rule = "regular and irregular x precision x a plain series or profiles of two or three depths, with no notes, numeric notes or text notes, stored over a series of the same times that is plain or has two or three depths, and no notes, numeric notes or text notes x quality in either x lengths x replacing or merging x one or two records: other numbers of depths are refused and change nothing, otherwise the new series comes back";
      f.describe = [=](uint64_t i) { bool reg = digit(i, 2), dbl = digit(i, 2); int d1 = DP[digit(i, 3)], d2 = DP[digit(i, 3)], n1 = digit(i, 3), n2 = digit(i, 3), q1 = digit(i, 2), q2 = digit(i, 2), where = digit(i, 2), len = digit(i, 3), flag = digit(i, 2); static const char* NK[] = {"no", "numeric", "text"}; return strf("%s %s series: %d depths, %s notes, quality %d, then %d depths, %s notes, quality %d; %s, length %d, flag %d", reg ? "regular" : "irregular", dbl ? "double" : "float", d1, NK[n1], q1, d2, NK[n2], q2, where ? "two records" : "one record", len, flag); };
      f.run = [=](uint64_t i) { std::string key = strf("kinds:%llu", (unsigned long long)i); bool reg = digit(i, 2), dbl = digit(i, 2); int d1 = DP[digit(i, 3)], d2 = DP[digit(i, 3)], n1 = digit(i, 3), n2 = digit(i, 3), q1 = digit(i, 2), q2 = digit(i, 2), where = digit(i, 2), len = digit(i, 3), flag = digit(i, 2); if ((n1 && !n2) || (q1 && !q2)) return; int N = len == 0 ? 2 : len == 1 ? 5 : 30;
        auto mk = [&](int g, int d, int nk, int q) { Spec s; s.reg = reg; s.dbl = dbl; s.ival = HOUR; s.depths = d; s.units = "degC"; for (int k = 0; k < d; k++) s.dep.push_back(1.5 + k * 2.75); s.qe = q; s.ne = nk == 1; s.cn = nk == 2; for (int k = 0; k < N; k++) { for (int j = 0; j < (d ? d : 1); j++) s.v.push_back(g * 100 + k + 0.5 + j * 0.25); if (q) s.q.push_back(g * 1000 + k); if (s.ne) s.n.push_back(g * 2000 + k); if (s.cn) s.c.push_back(strf("%d note %d", g, k).substr(0, 1 + (k * 3 + g) % 9)); } at(s, where); return s; };
        Spec A = mk(1, d1, n1, q1), B = mk(2, d2, n2, q2); freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } int rc = put(f, A); transition(); if (rc) { fail(key, "first store returned %d", rc); return; } rc = put(f, B, !flag ? 0 : reg ? 2 : 1); transition();
        if (d1 != d2) { if (!rc) { fail(key, "a series of %d depths was stored over one of %d", d2, d1); return; } check(f, A, 0, 0, key, "after the refused store"); } else { if (rc) { fail(key, "second store returned %d", rc); return; } check(f, B, 0, 0, key, "after both stores"); if (!failed()) check(f, B, 0, 1 + !dbl, key, "after both stores, other precision"); } f.close(); };
      fs.push_back(f); }
  };
  return run(argc, argv, c);
}
