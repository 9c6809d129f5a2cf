// Operations of every kind on a prepared file, for the checks of refusals and of reading.
#pragma once
#include "stores.h"
extern "C" { int zlocationDelete(long long*, const char*); int zundeleteAll(long long*); }
using namespace items; typedef cal::ll ll;
static const char* const F0 = "/mc/a.dss"; static const char* const REG = "/A/B/C/01Dec2001/1Hour/F/"; static const char* const IRR = "/A/B/C/01Dec2001/IR-Month/F/";
// --- stores of every kind to a given pathname
struct K { const char* name; int type; };
static const K KIND[] = {{"a text", 300}, {"a text table", 310}, {"arrays", 90}, {"a float series", 100}, {"a double series", 105}, {"an irregular float series", 110}, {"an irregular double series", 115}, {"paired data", 200}, {"double paired data", 205}, {"a grid", 430}, {"an undefined-projection grid", 400}, {"a TIN", 450}, {"an embedded file", 600}, {"a text from a file", 300}, {"a copied record", 90}, {"a duplicated record", 90}};
static const int NK = 16, NE = 13;   // the first NE create records
static bool irreg(int k) { return k == 5 || k == 6; } static bool reg(int k) { return k == 3 || k == 4; }
static int grid(File& f, const char* p, int type, int seed) { auto g = Grid::make(p, type, 2, 3, 1, 2, 1, 4, seed); return g->put(f); }
static int pd(File& f, const char* p, bool dbl, int seed, int flagAdd = 0) { double o[3] = {1, 2, 3}, v[6]; float fo[3] = {1, 2, 3}, fv[6]; for (int i = 0; i < 6; i++) fv[i] = v[i] = i + seed; zStructPairedData* z = dbl ? zstructPdNewDoubles(p, o, v, 3, 2, "ft", "UNT", "cfs", "UNT") : zstructPdNewFloats(p, fo, fv, 3, 2, "ft", "UNT", "cfs", "UNT"); int rc = zpdStore(f.ifltab, z, flagAdd); zstructFree(z); return rc; }
static File* other = nullptr;   // an open file with an array record at /O/O/O///O/
static const char* const SRC = "/DUP/SOURCE/ARRAY///F/";
static int put(File& f, int k, const char* p, int seed, int flag = 0) { transition(); vector<double> v; for (int i = 0; i < 12 + seed; i++) v.push_back(i * 0.5 + seed); ll t0 = cal::julian(2001, 12, 10) * 86400LL;
  switch (k) { case 0: return Text::make(p, 9 + seed, 0, 0, 0, 0, seed)->put(f); case 1: return Text::make(p, 20 + seed, 2, 2, 3, 0, seed)->put(f); case 2: return Array::make(p, 2 + seed, 1, 2, 1, seed)->put(f); case 3: case 4: return ts::store(f, p, t0 + 3600 * seed, v, flag, k == 4);
    case 5: case 6: { irr::Series s; for (int i = 0; i < 5 + seed; i++) s[t0 + i * 5040 + seed * 60] = {i * 2.0 + seed, 0, 0, ""}; return irr::store(f, p, s, flag & 1, k == 6, 60, true); } case 7: case 8: return pd(f, p, k == 8, seed); case 9: return grid(f, p, 430, seed); case 10: return grid(f, p, 400, seed); case 11: return Tin::make(p, 3, 6, 5, 4, seed)->put(f); case 12: return Blob::make(p, 17 + seed, seed)->put(f); case 13: return TextFile::make(p, "line one\nline two\n", 0)->put(f);
    case 14: return zcopyRecord(other->ifltab, f.ifltab, "/O/O/O///O/", p); default: return zduplicateRecord(f.ifltab, SRC, p); } }
static bool compatible(int e, int s) { int a = KIND[e].type, b = KIND[s].type; if (a == b) return true; if (e > s) std::swap(a, b); return (a == 100 && b == 105) || (a == 110 && b == 115) || (a == 200 && b == 205); }
static string firstDiff(const string& a, const string& b) { if (a.size() != b.size()) return strf("the file has %zu bytes instead of %zu", b.size(), a.size()); for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return strf("the file differs from byte %zu on (word %zu)", i, i / 8); return ""; }
static bool structure(const string& key) { Walk k = walk(vfs::get(F0)); if (k.errors.size()) fail(key, "file structure: %s", k.errors[0].c_str()); return k.errors.empty(); }
struct Bad { string name; bool must; std::function<int(File&)> run; };
static const char* const TX = "/R/ONE/TEXT///F/"; static const char* const AR = "/R/TWO/ARR///F/"; static const char* const SF = "/A/B/C/01Dec2001/1Hour/F/"; static const char* const SI = "/A/B/C/01Dec2001/IR-Month/F/"; static const char* const PA = "/R/ONE/STAGE-FLOW///F/"; static const char* const GR = "/R/G/PRECIP/01JAN2000:0100/01JAN2000:0200/F/"; static const char* const TI = "/R/N/TIN///F/"; static const char* const BL = "/R/B/FILE///F/"; static const char* const GONE = "/N/1/TEXT///GONE/"; static const char* const MOVED = "/N/1/TEXT///MOVED/"; static const char* const NEWN = "/N/1/TEXT///NEW/"; static const char* const NONE = "/NO/SUCH/RECORD///F/"; static const char* const FRESH = "/R/FRESH/X///F/";
static const ll T0 = cal::julian(2001, 12, 10) * 86400LL;
static int tsRaw(File& f, const char* p, const char* date, const char* time, int n, bool data, int flag, const char* units = "cfs", const char* type = "INST-VAL", bool dbl = false) { vector<float> v(n > 0 ? n : 1, 2.5f); vector<double> d(n > 0 ? n : 1, 2.5); zStructTimeSeries* t = dbl ? zstructTsNewRegDoubles(p, data ? d.data() : nullptr, n, date, time, units, type) : zstructTsNewRegFloats(p, data ? v.data() : nullptr, n, date, time, units, type); if (!t) return -9; int rc = ztsStore(f.ifltab, t, flag); zstructFree(t); return rc; }
static int tsIrr(File& f, const char* p, vector<int> times, bool data, int flag, int gran = 60, const char* base = nullptr) { vector<float> v(times.size() + 1, 1.5f); zStructTimeSeries* t = zstructTsNewIrregFloats(p, data ? v.data() : nullptr, times.size(), times.data(), gran, base, "cfs", "INST-VAL"); if (!t) return -9; int rc = ztsStore(f.ifltab, t, flag); zstructFree(t); return rc; }
static int pdRaw(File& f, const char* p, int ord, int curves, bool data, int flag, int startOrd = 0, int endOrd = 0, int startCurve = 0, int endCurve = 0) { vector<float> o(20, 1), v(60, 2); zStructPairedData* z = zstructPdNewFloats(p, data ? o.data() : nullptr, data ? v.data() : nullptr, ord, curves, "ft", "UNT", "cfs", "UNT"); z->startingOrdinate = startOrd; z->endingOrdinate = endOrd; z->startingCurve = startCurve; z->endingCurve = endCurve; int rc = zpdStore(f.ifltab, z, flag); zstructFree(z); return rc; }
// every operation that writes, each of which would succeed, and every one that reads
static vector<Bad> goods() { vector<Bad> b; auto must = [&](const string& n, std::function<int(File&)> r) { b.push_back({n, true, r}); };
  for (int k = 0; k < NK; k++) { const char* e[] = {TX, nullptr, AR, SF, SF, SI, SI, PA, PA, GR, nullptr, TI, BL, nullptr, AR, AR}; const char* n = reg(k) ? "/R/NEW/C/01Dec2001/1Hour/F/" : irreg(k) ? "/R/NEW/C/01Dec2001/IR-Month/F/" : FRESH; must(string("storing ") + KIND[k].name, [=](File& f) { return put(f, k, n, 3); }); if (e[k]) must(string("storing ") + KIND[k].name + " over the one there", [=](File& f) { return put(f, k, e[k], 4); }); if (reg(k)) for (int fl = 1; fl < 5; fl++) must(strf("storing %s over the one there with flag %d", KIND[k].name, fl), [=](File& f) { return put(f, k, e[k], 20, fl); }); }
  must("storing a location", [](File& f) { return Loc::make("/R/NEW/X///F/", 3, 4, 2)->put(f); }); must("storing a location over the one there", [](File& f) { return Loc::make("/R/ONE/X///F/", 3, 4, 5)->put(f); }); must("deleting the location", [](File& f) { return zlocationDelete(f.ifltab, "/R/ONE/X///F/"); });
  must("storing one curve", [](File& f) { return pdRaw(f, PA, 3, 1, true, 0, 0, 0, 1, 1); }); must("reserving paired data", [](File& f) { return pdRaw(f, FRESH, 3, 2, true, 11); }); for (auto p : {TX, AR, SF, SI, PA, GR, TI, BL}) { must(string("deleting ") + p, [=](File& f) { return zdelete(f.ifltab, p); }); must(string("renaming ") + p, [=](File& f) { return zrename(f.ifltab, p, p == SF ? "/A/B/NEW/01Dec2001/1Hour/F/" : p == SI ? "/A/B/NEW/01Dec2001/IR-Month/F/" : FRESH); }); must(string("duplicating ") + p, [=](File& f) { return zduplicateRecord(f.ifltab, p, p == SF ? "/A/B/NEW/01Dec2001/1Hour/F/" : p == SI ? "/A/B/NEW/01Dec2001/IR-Month/F/" : FRESH); }); }
  must("undeleting", [](File& f) { return zundelete(f.ifltab, GONE); }); must("an alias", [](File& f) { return zaliasAdd(f.ifltab, TX, FRESH); }); must("copying a record into the file", [](File& f) { return zcopyRecord(other->ifltab, f.ifltab, "/O/O/O///O/", FRESH); }); must("copying a file into the file", [](File& f) { return zcopyFile(other->ifltab, f.ifltab, 0); }); must("undeleting everything", [](File& f) { return zundeleteAll(f.ifltab); }); must("writing a raw record", [](File& f) { return f.write(FRESH, makeRec(90, 4, 2, 2, 10, 4, 2, 3)); });
  return b; }
static string cached;
static bool world(const string& key, File& f, int access) { freshWorld(); *vfs::nowMs = 1700000000000LL; { File o; if (o.open("/mc/other.dss", 0, 0, 0) || Array::make("/O/O/O///O/", 4, 2, 1, 0, 3)->put(o)) { fail(key, "the other file"); return false; } o.close(); }
  if (cached.empty()) { if (f.open(F0, 0, 1, 120)) { fail(key, "open"); return false; } static const int ks[] = {0, 2, 3, 5, 7, 9, 11, 12}; const char* const ps[] = {TX, AR, SF, SI, PA, GR, TI, BL}; bool bad = Array::make(SRC, 3, 1, 2, 1, 8)->put(f) || put(f, 0, GONE, 6) || put(f, 0, MOVED, 2) || put(f, 0, "/R/THREE/TEXT///F/", 3); for (int i = 0; i < 8; i++) bad = bad || put(f, ks[i], ps[i], 1); bad = bad || Loc::make("/R/ONE/X///F/", 3, 4, 2)->put(f) || zdelete(f.ifltab, GONE) || zrename(f.ifltab, MOVED, NEWN); if (bad) { fail(key, "making the file"); return false; } f.close(); cached = vfs::get(F0); } else vfs::put(F0, cached);
  *vfs::nowMs += 5000; if (f.open(F0, access)) { fail(key, "reopen"); return false; } return true; }
