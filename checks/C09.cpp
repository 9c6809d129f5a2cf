// Paired data: whole and partial stores and retrievals against a table of curves.
// flavour: asan
#include "dss.h"
#include "mc.h"
using namespace mc; using namespace dss;
struct PD { bool dbl = true; int O = 0, C = 0; std::vector<double> o, v; std::vector<std::string> lab; std::string at[4], tz; int xp = -1, yp = -1, bx = 0; std::vector<int> uh; };
static const char* const PATH = "/A/B/STAGE-FLOW///F/"; static const char* const NEXT = "/A/B/STAGE-DAMAGE///NEXT/";
static void fill(PD& p, int seed) { p.o.clear(); p.v.clear(); for (int i = 0; i < p.O; i++) p.o.push_back(seed * 1000 + i + 0.1); for (int c = 0; c < p.C; c++) for (int i = 0; i < p.O; i++) p.v.push_back(seed * 1000 + (c + 1) * 100 + i + 0.3); }
static std::string cat(const std::vector<std::string>& l) { std::string s; for (auto& x : l) { s += x; s += '\0'; } return s; }
static std::string labels(int C, int kind, int c) { (void)C; return kind == 1 ? strf("L%d", c + 1) : kind == 2 ? (c % 2 ? std::string() : std::string(9 + c, (char)('a' + c))) : kind == 3 ? std::string(1 + c * 3, (char)('p' + c)) : strf("Curve number %d", c + 1); }
static char* dupz(const std::string& s) { return mallocAndCopy(s.c_str()); }
struct Win { int sc = 0, ec = 0, so = 0, eo = 0; };
// store: asFloat = arrays given as floats; w: the part to store (values of the part), prealloc: values not given
static int put(File& f, const char* path, const PD& p, bool asFloat, int flag, const Win& w = Win(), const std::vector<double>* part = nullptr, const std::vector<std::string>* plab = nullptr) {
  zStructPairedData* z = zstructPdNew(path); const std::vector<double>& V = part ? *part : p.v; std::vector<float> fo(p.o.begin(), p.o.end()), fv(V.begin(), V.end()); std::vector<double> o = p.o, v = V; // exact-size copies so that overruns are seen
  if (asFloat) { z->floatOrdinates = fo.data(); z->floatValues = flag >= 10 ? nullptr : fv.data(); } else { z->doubleOrdinates = o.data(); z->doubleValues = flag >= 10 ? nullptr : v.data(); }
  z->numberOrdinates = p.O; z->numberCurves = p.C; z->startingCurve = w.sc; z->endingCurve = w.ec; z->startingOrdinate = w.so; z->endingOrdinate = w.eo;
  if (p.at[0] != "-") { z->unitsIndependent = dupz(p.at[0]); z->allocated[zSTRUCT_unitsIndependent] = 1; } if (p.at[1] != "-") { z->typeIndependent = dupz(p.at[1]); z->allocated[zSTRUCT_typeIndependent] = 1; } if (p.at[2] != "-") { z->unitsDependent = dupz(p.at[2]); z->allocated[zSTRUCT_unitsDependent] = 1; } if (p.at[3] != "-") { z->typeDependent = dupz(p.at[3]); z->allocated[zSTRUCT_typeDependent] = 1; }
  if (p.tz.size()) { z->timeZoneName = dupz(p.tz); z->allocated[zSTRUCT_timeZoneName] = 1; } std::string l = cat(plab ? *plab : part ? std::vector<std::string>() : p.lab); std::vector<char> lb(l.begin(), l.end()); if (lb.size()) { z->labels = lb.data(); z->labelsLength = lb.size(); } std::vector<int> uh = p.uh; if (uh.size()) { z->userHeader = uh.data(); z->userHeaderNumber = uh.size(); } z->xprecision = p.xp; z->yprecision = p.yp; z->boolIndependentIsXaxis = p.bx;
  int rc = zpdStore(f.ifltab, z, flag); zstructFree(z); return rc; }
static std::string norm(const char* s) { return s ? s : ""; }
static std::string want(const std::string& s) { return s == "-" ? "" : s; }
static bool check(File& f, const char* path, const PD& p, const Win& w, int how, const std::string& key, const char* what) { // w in stored numbering, zero = not given
  zStructPairedData* z = zstructPdNew(path); struct G { zStructPairedData* z; ~G() { zstructFree(z); } } g{z}; z->startingCurve = w.sc; z->endingCurve = w.ec; z->startingOrdinate = w.so; z->endingOrdinate = w.eo; int rc = zpdRetrieve(f.ifltab, z, how); if (rc) { fail(key, "%s: retrieve returned %d", what, rc); return false; }
  int c0 = w.sc > 0 ? w.sc - 1 : 0, c1 = w.ec > 0 ? w.ec : p.C, o0 = w.so > 0 ? w.so - 1 : 0, o1 = w.eo > 0 ? w.eo : p.O; bool part = c0 || o0 || w.ec || w.eo;
  if (z->numberOrdinates != p.O || z->numberCurves != p.C || z->numberOrdinatesInStruct != o1 - o0 || z->numberCurvesInStruct != c1 - c0) { fail(key, "%s: %d ordinates, %d curves, %d and %d in the struct; expected %d, %d, %d, %d", what, z->numberOrdinates, z->numberCurves, z->numberOrdinatesInStruct, z->numberCurvesInStruct, p.O, p.C, o1 - o0, c1 - c0); return false; }
  bool asF = how == 1 || (how == 0 && !p.dbl); if (asF ? !z->floatOrdinates || !z->floatValues || z->doubleOrdinates || z->doubleValues : !z->doubleOrdinates || !z->doubleValues || z->floatOrdinates || z->floatValues) { fail(key, "%s: delivered in the wrong precision", what); return false; }
  auto val = [&](double x) { return p.dbl && !asF ? x : (double)(float)x; };
  for (int i = o0; i < o1; i++) { double x = asF ? (double)z->floatOrdinates[i - o0] : z->doubleOrdinates[i - o0]; if (x != val(p.o[i])) { fail(key, "%s: ordinate %d is %.17g, stored %.17g", what, i + 1, x, p.o[i]); return false; } }
  for (int c = c0; c < c1; c++) for (int i = o0; i < o1; i++) { int k = (c - c0) * (o1 - o0) + i - o0; double x = asF ? (double)z->floatValues[k] : z->doubleValues[k]; if (x != val(p.v[c * p.O + i])) { fail(key, "%s: curve %d value %d is %.17g, stored %.17g", what, c + 1, i + 1, x, p.v[c * p.O + i]); return false; } }
  if (p.lab.empty() ? z->labelsLength > 0 && z->labels : false) { bool any = false; for (int i = 0; i < z->labelsLength; i++) any |= z->labels[i] != 0; if (any) { fail(key, "%s: labels delivered, none stored", what); return false; } }
  if (p.lab.size()) { int at = 0; for (int c = c0; c < c1; c++) { std::string x = z->labels && at < z->labelsLength ? std::string(z->labels + at, strnlen(z->labels + at, z->labelsLength - at)) : std::string(); if (z->labels) at += x.size() + 1; if (x != p.lab[c]) { fail(key, "%s: label of curve %d is '%s', stored '%s'", what, c + 1, x.c_str(), p.lab[c].c_str()); return false; } } }
  const char* A[4] = {z->unitsIndependent, z->typeIndependent, z->unitsDependent, z->typeDependent}; for (int k = 0; k < 4; k++) if (norm(A[k]) != want(p.at[k])) { fail(key, "%s: %s '%s', stored '%s'", what, k == 0 ? "units of the ordinates" : k == 1 ? "type of the ordinates" : k == 2 ? "units of the curves" : "type of the curves", norm(A[k]).c_str(), want(p.at[k]).c_str()); return false; }
  if (norm(z->timeZoneName) != p.tz) { fail(key, "%s: time zone '%s', stored '%s'", what, norm(z->timeZoneName).c_str(), p.tz.c_str()); return false; }
  if (z->xprecision != p.xp || z->yprecision != p.yp || z->boolIndependentIsXaxis != p.bx) { fail(key, "%s: precision %d/%d axis %d, stored %d/%d and %d", what, z->xprecision, z->yprecision, z->boolIndependentIsXaxis, p.xp, p.yp, p.bx); return false; }
  if (!part) { size_t n = z->userHeaderNumber, wn = p.uh.size(); if (n != wn && n != (wn + 1) / 2 * 2) { fail(key, "%s: user header of %zu words, stored %zu", what, n, wn); return false; } for (size_t i = 0; i < wn; i++) if (z->userHeader[i] != p.uh[i]) { fail(key, "%s: user header word %zu is %d (%#x), stored %d", what, i, z->userHeader[i], z->userHeader[i], p.uh[i]); return false; } }
  state(mix(mix(hashBytes(p.v.data(), p.v.size() * 8, p.O * 16 + p.C), hashBytes(&w, sizeof w, how)), p.lab.size())); return true; }
static std::vector<Win> windows(int C, int O, bool zeros) { std::vector<Win> r; for (int a = zeros ? 0 : 1; a <= C; a++) for (int b = zeros ? 0 : a; b <= C; b++) for (int c = zeros ? 0 : 1; c <= O; c++) for (int d = zeros ? 0 : c; d <= O; d++) { if ((b && a > b) || (d && c > d)) continue; Win w; w.sc = a; w.ec = b; w.so = c; w.eo = d; r.push_back(w); } return r; }
static bool whole(const Win& w, int C, int O) { return w.sc <= 1 && (w.ec == 0 || w.ec == C) && w.so <= 1 && (w.eo == 0 || w.eo == O); }
static bool intact(File& f, const PD& n, const std::string& key) { return check(f, NEXT, n, Win(), 0, key, "the neighbouring record"); }
static void structure(const std::string& key) { Walk k = walk(vfs::get("/mc/a.dss")); if (k.errors.size()) fail(key, "file structure: %s", k.errors[0].c_str()); }
static PD neighbour() { PD n; n.dbl = false; n.O = 3; n.C = 2; fill(n, 9); n.at[0] = n.at[2] = "ft"; n.at[1] = n.at[3] = "LIN"; return n; }
int main(int argc, char** argv) {
  Check c; c.id = "C09"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system", "bounds: up to six ordinates and four curves; up to two partial stores after a whole one"};
  c.build = [](bool th, std::vector<Family>& fs) {
    { int MO = th ? 9 : 6, MC = 4; Family f; f.name = "whole"; f.n = (uint64_t)MO * MC * 2 * 2 * 3 * 5 * 2; f.chunk = 128; f.rule = strf("1..%d ordinates x 1..%d curves x single or double arrays x store as given/single/double x label kinds x allocated in advance or not, retrieved as stored, single and double, whole and every part", MO, MC);
      f.describe = [=](uint64_t i) { int O = digit(i, MO) + 1, C = digit(i, MC) + 1; digit(i, 2); int af = digit(i, 2), fl = digit(i, 3), lk = digit(i, 5), pre = digit(i, 2); return strf("%d ordinates, %d curves, %s arrays, flag %d, labels kind %d%s", O, C, af ? "float" : "double", fl, lk, pre ? ", allocated first" : ""); };
      f.run = [=](uint64_t i) { std::string key = strf("whole:%llu", (unsigned long long)i); PD p; p.O = digit(i, MO) + 1; p.C = digit(i, MC) + 1; p.bx = digit(i, 2); bool af = digit(i, 2); int fl = digit(i, 3), lk = digit(i, 5); bool pre = digit(i, 2); p.dbl = fl ? fl == 2 : !af; fill(p, 1); if (af) for (auto& x : p.o) x = (float)x; if (af) for (auto& x : p.v) x = (float)x; for (int k = 0; lk && k < p.C; k++) p.lab.push_back(labels(p.C, lk, k)); p.at[0] = "ft"; p.at[1] = "LOG"; p.at[2] = "cfs"; p.at[3] = "PROB"; p.xp = 2; p.yp = 3; if (lk == 3) p.uh = {256, 512, 768};
        freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } PD nb = neighbour(); int rc; if (pre) { rc = put(f, PATH, p, af, fl ? 10 + fl : 10); if (rc) { fail(key, "allocating returned %d", rc); return; } if (put(f, NEXT, nb, true, 0)) { fail(key, "neighbour"); return; } Win w; w.sc = 1; w.ec = p.C; std::vector<std::string> no; rc = put(f, PATH, p, af, 0, w, &p.v, &no); } else { rc = put(f, PATH, p, af, fl); if (put(f, NEXT, nb, true, 0)) { fail(key, "neighbour"); return; } } transition(2); if (rc) { fail(key, "store returned %d", rc); return; }
        for (int h = 0; h < 3 && !failed(); h++) check(f, PATH, p, Win(), h, key, "retrieved"); if (!failed()) for (auto& w : windows(p.C, p.O, true)) { if (p.O > 4 && w.so && w.eo && w.eo - w.so > 1 && w.so > 1) continue; for (int h = 0; h < 3 && !failed(); h++) { if ((w.sc + w.ec + w.so + w.eo + h) % 3 && p.C * p.O > 4) continue; check(f, PATH, p, w, h, key + strf(":%d-%d,%d-%d:%d", w.sc, w.ec, w.so, w.eo, h), strf("curves %d-%d ordinates %d-%d", w.sc, w.ec, w.so, w.eo).c_str()); } if (failed()) break; } if (!failed()) intact(f, nb, key); f.close(); if (!failed()) structure(key); };
      fs.push_back(f); }
    { static const char* S[] = {"-", "", "x", "Eightchr", "feet above the datum", "7 chars"}; Family f; f.name = "attributes"; f.n = 6ull * 6 * 6 * 6 * 3 * 3; f.chunk = 128; f.rule = "units and types of ordinates and curves each absent, empty or of 1, 7, 8 or 20 characters x time zone x decimal places, user header";
      f.describe = [=](uint64_t i) { return strf("attribute combination %llu", (unsigned long long)i); };
      f.run = [=](uint64_t i) { std::string key = strf("attributes:%llu", (unsigned long long)i); PD p; p.O = 2; p.C = 2; for (auto& a : p.at) a = S[digit(i, 6)]; static const char* Z[] = {"", "PST", "America/Los_Angeles"}; int tz = digit(i, 3); p.tz = Z[tz]; int k = digit(i, 3); p.xp = k == 0 ? -1 : k == 1 ? 0 : 3; p.yp = k == 0 ? -1 : k == 1 ? 2 : 0; for (int j = 0; j < k + tz; j++) p.uh.push_back((j + 40) << 8); fill(p, 2); freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } int rc = put(f, PATH, p, false, 0); transition(); if (rc) { fail(key, "store returned %d", rc); return; } check(f, PATH, p, Win(), 0, key, "retrieved"); f.close(); };
      fs.push_back(f); }
    for (int two = 0; two < 2; two++) { int O = two ? (th ? 4 : 3) : (th ? 6 : 5), C = two ? 2 : 3; auto W = std::make_shared<std::vector<Win>>(); for (auto& w : windows(C, O, !two)) if (!whole(w, C, O)) W->push_back(w); uint64_t nw = W->size(); Family f; f.name = two ? "two-parts" : "one-part"; f.n = nw * (two ? nw : 1) * 2 * 2 * (two ? 2 : 5) * (two ? 1 : 5) * 2; f.chunk = 128; f.rule = strf("a table of %d ordinates and %d curves, stored or allocated, then %s x precision of record and of arrays x labels replaced", O, C, two ? "every pair of partial stores" : "every partial store");
      auto dec = [=](uint64_t i, Win& a, Win& b, int& dbl, int& af, int& l0, int& l1, int& pre) { a = (*W)[digit(i, nw)]; b = two ? (*W)[digit(i, nw)] : Win(); dbl = digit(i, 2); af = digit(i, 2); l0 = digit(i, two ? 2 : 5); l1 = two ? l0 * 3 : (int)digit(i, 5); pre = digit(i, 2); };
      f.describe = [=](uint64_t i) { Win a, b; int d, af, l0, l1, pre; dec(i, a, b, d, af, l0, l1, pre); return strf("%s record%s, labels %d; then curves %d-%d ordinates %d-%d%s from %s arrays, labels %d", d ? "double" : "float", pre ? " allocated" : "", l0, a.sc, a.ec, a.so, a.eo, two ? strf(", then curves %d-%d ordinates %d-%d", b.sc, b.ec, b.so, b.eo).c_str() : "", af ? "float" : "double", l1); };
      f.run = [=](uint64_t i) { std::string key = strf("%s:%llu", two ? "two-parts" : "one-part", (unsigned long long)i); Win ws[2]; int dbl, af, l0, l1, pre; dec(i, ws[0], ws[1], dbl, af, l0, l1, pre); PD p; p.dbl = dbl; p.O = O; p.C = C; fill(p, 1); p.at[0] = "ft"; p.at[1] = "LOG"; p.at[2] = "cfs"; p.at[3] = "LIN"; p.uh = {4, 5}; p.xp = 1; p.yp = 4; for (int k = 0; l0 && k < C; k++) p.lab.push_back(labels(C, l0, k));
        freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } int rc = put(f, PATH, p, !dbl, pre ? 10 : 0); if (rc) { fail(key, "first store returned %d", rc); return; } if (pre) std::fill(p.v.begin(), p.v.end(), 0.0); PD nb = neighbour(); if (put(f, NEXT, nb, true, 0)) { fail(key, "neighbour"); return; } transition(2);
        for (int s = 0; s < 1 + two && !failed(); s++) { const Win& w = ws[s]; int c0 = w.sc > 0 ? w.sc - 1 : 0, c1 = w.ec > 0 ? w.ec : C, o0 = w.so > 0 ? w.so - 1 : 0, o1 = w.eo > 0 ? w.eo : O; PD q; q.O = O; q.C = C; fill(q, 2 + s); if (af) { for (auto& x : q.v) x = (float)x; for (auto& x : q.o) x = (float)x; } std::vector<double> part; std::vector<std::string> pl; for (int cc = c0; cc < c1; cc++) { for (int o = o0; o < o1; o++) { part.push_back(q.v[cc * O + o]); p.v[cc * O + o] = q.v[cc * O + o]; } if (l1) pl.push_back(labels(C, l1, cc)); }
          if (l1) { if (p.lab.empty()) p.lab.resize(C); for (int cc = c0; cc < c1; cc++) p.lab[cc] = pl[cc - c0]; } rc = put(f, PATH, q, af, 0, w, &part, &pl); transition(); if (rc) { fail(key, "partial store returned %d", rc); return; } check(f, PATH, p, Win(), 0, key, "after the partial store"); if (!failed()) check(f, PATH, p, w, 1 + (i & 1), key, "the part stored"); }
        if (!failed()) intact(f, nb, key); f.close(); if (!failed()) structure(key); if (failed()) return; File g2; if (g2.open("/mc/a.dss", 1)) { fail(key, "reopen"); return; } check(g2, PATH, p, Win(), 0, key, "after closing"); g2.close(); };
      fs.push_back(f); }
    { int MO = 3, MC = 3; uint64_t k = MO * MC * 2 * 2; Family f; f.name = "stores"; f.n = k * k * (th ? k : 1); f.chunk = 128; f.rule = strf("every sequence of %d stores of tables of different sizes, precision and labels in one record, then the neighbouring record and the last table", th ? 3 : 2);
      f.describe = [=](uint64_t i) { std::string s; for (int j = 0; j < (th ? 3 : 2); j++) { int o = digit(i, MO), c2 = digit(i, MC), d = digit(i, 2), l = digit(i, 2); s += strf("%s%d x %d %s%s", j ? ", then " : "", o * 2 + 1, c2 + 1, d ? "double" : "float", l ? " with labels" : ""); } return s; };
      f.run = [=](uint64_t i) { std::string key = strf("stores:%llu", (unsigned long long)i); freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } PD nb = neighbour(), p; for (int j = 0; j < (th ? 3 : 2); j++) { p = PD(); p.O = digit(i, MO) * 2 + 1; p.C = digit(i, MC) + 1; p.dbl = digit(i, 2); int l = digit(i, 2); p.at[0] = j ? "ft" : "meters"; p.at[1] = p.at[3] = "LIN"; p.at[2] = "cfs"; if (l) for (int q = 0; q < p.C; q++) p.lab.push_back(labels(p.C, j ? 3 : 4, q)); if (j != 1) p.uh = {8, 9}; fill(p, j + 1); int rc = put(f, PATH, p, !p.dbl, 0); transition(); if (rc) { fail(key, "store %d returned %d", j + 1, rc); return; } if (!j && put(f, NEXT, nb, true, 0)) { fail(key, "neighbour"); return; } if (!check(f, PATH, p, Win(), 0, key, "after the store")) return; } intact(f, nb, key); f.close(); if (!failed()) structure(key); };
      fs.push_back(f); }
  };
  return run(argc, argv, c);
}
