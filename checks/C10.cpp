// Text, arrays, locations, grids, TINs and embedded files come back as stored, whatever is stored around and over them.
// flavour: asan
#include "items.h"
using namespace items;
static bool structure(const string& key) { Walk k = walk(vfs::get("/mc/a.dss")); if (k.errors.size()) fail(key, "file structure: %s", k.errors[0].c_str()); return k.errors.empty(); }
// Stores `it` between two neighbours, checks all three, then again after closing and reopening.
static void roundTrip(Item& it, const string& key, bool reopen = true) {
  freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } auto before = Array::make("/N/1/C/D/E/BEFORE/", 3, 1, 2, 1, 8), after = Array::make("/N/1/C/D/E/AFTER/", 1, 2, 1, 3, 9); int rc;
  if ((rc = before->put(f))) { fail(key, "neighbour"); return; } rc = it.put(f); transition(2); if (rc) { fail(key, "storing returned %d", rc); return; } if (after->put(f)) { fail(key, "neighbour"); return; }
  if (!it.check(f, key, "retrieved") || !before->check(f, key, "the record before") || !after->check(f, key, "the record after")) return; int ty = zdataType(f.ifltab, it.path.c_str()); if (it.type != 20 && ty != it.type) { fail(key, "record type %d, expected %d", ty, it.type); return; } f.close(); if (!structure(key) || !reopen) return;
  File g; if (g.open("/mc/a.dss", 1)) { fail(key, "reopen"); return; } it.check(g, key, "after closing"); g.close(); }
static void add(std::vector<Family>& fs, const char* name, const string& rule, uint64_t n, std::function<P(uint64_t)> make, int chunk = 128) { Family f; f.name = name; f.rule = rule; f.n = n; f.chunk = chunk; f.describe = [=](uint64_t i) { P p = make(i); return p->path + ": " + p->str(); }; string nm = name; f.run = [=](uint64_t i) { P p = make(i); roundTrip(*p, strf("%s:%llu", nm.c_str(), (unsigned long long)i)); }; fs.push_back(f); }
static const char* const D = "/MC/PLACE/THING/01JAN2000:0100/01JAN2000:0200/F/";
static string lines(int n, int len, bool lastNl, int seed) { string t; for (int i = 0; i < n; i++) { string l = chars((len + i * 7) % (len + 9), seed + i); for (auto& c : l) if (c == '\n') c = '\t'; t += l; if (i + 1 < n || lastNl) t += i == 1 ? "\r\n" : "\n"; } return t; }
// kinds used in sequences: same path, so that one replaces the other where the type allows it
static P kind(int k, int path, int seed) { string e = strf("%d", path); switch (k) {
  case 0: return Text::make("/S/T" + e + "/TEXT///F/", 5 + seed, 0, 0, 0, 0, seed); case 1: return Text::make("/S/T" + e + "/TEXT///F/", 200 + seed * 3, 0, 0, 0, 3, seed);
  case 2: return Array::make("/S/A" + e + "/ARR///F/", 2, 0, 1, 1, seed); case 3: return Array::make("/S/A" + e + "/ARR///F/", 0, 41, 30, 2, seed);
  case 4: return Loc::make("/S/L" + e + "/X///F/", 3, 4, seed); case 5: return Loc::make("/S/L" + e + "/Y///G/", 12, 150, seed);
  case 6: return Grid::make("/S/G" + e + "/PRECIP/01JAN2000:0100/01JAN2000:0200/F/", 430, 2, 3, 1, 2, 1, 4, seed); case 7: return Grid::make("/S/G" + e + "/PRECIP/01JAN2000:0100/01JAN2000:0200/F/", 430, 11, 9, 26, 3, 3, 6, seed);
  case 8: return Tin::make("/S/N" + e + "/TIN///F/", 3, 6, 5, 4, seed); case 9: return Tin::make("/S/N" + e + "/TIN///F/", 20, 31, 60, 7, seed);
  case 10: return Blob::make("/S/B" + e + "/FILE///F/", 7, seed); default: return Blob::make("/S/B" + e + "/FILE///F/", 700 + seed, seed); } }
int main(int argc, char** argv) {
  Check c; c.id = "C10"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system; the text and embedded files written by the library go to anonymous in-memory files"};
  c.build = [](bool th, std::vector<Family>& fs) {
    { int N = th ? 140 : 42; add(fs, "text", strf("texts of 1..%d characters, counted with and without the terminating null, x user header of 0..3 words", N), (uint64_t)N * 2 * 4, [=](uint64_t i) -> P { int n = digit(i, N) + 1, nul = digit(i, 2), u = digit(i, 4); return Text::make(D, n, 0, 0, 0, u, n % 5, nul); }); }
    add(fs, "table", "tables of 1..4 rows and 1..4 columns x cell lengths x label lengths 0..6 x text of 0..5 characters alongside x user header", 4ull * 4 * 6 * 7 * 6 * 2, [](uint64_t i) -> P { int r = digit(i, 4) + 1, cl = digit(i, 4) + 1, seed = digit(i, 6), lab = digit(i, 7), n = digit(i, 6), u = digit(i, 2); return Text::make(D, n, r, cl, lab, u * 3, seed); });
    { int N = th ? 9 : 6; add(fs, "array", strf("0..%d ints x 0..%d floats x 0..%d doubles (not all empty) x user header of 0..3 words", N - 1, N - 1, N - 1), (uint64_t)(N * N * N - 1) * 4, [=](uint64_t i) -> P { int u = digit(i, 4); i++; int a = digit(i, N), b = digit(i, N), d = digit(i, N); return Array::make(D, a, b, d, u, a + b); }); }
    { int N = th ? 72 : 20, M = th ? 40 : 18; add(fs, "location", strf("time zone names of 0..%d and 72 characters x supplemental text of 0..%d characters", N - 1, M - 1), (uint64_t)(N + 1) * M, [=](uint64_t i) -> P { int tz = digit(i, N + 1), s = digit(i, M); if (tz == N) tz = 72; return Loc::make("/MC/PLACE/STAGE/01JAN2000/1Hour/F/", tz, s, tz % 7 + 1); }); }
    { Family f; f.name = "location-fields"; f.n = 1u << 11; f.chunk = 128; f.rule = "every subset of the eleven fields of a location set; stored by one pathname of the place, retrieved by another; an entirely empty one is not stored"; f.describe = [](uint64_t i) { return strf("fields %llx", (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("location-fields:%llu", (unsigned long long)i); auto l = Loc::make("/MC/PLACE/STAGE/01JAN2000/1Hour/F/", 5, 9, 2); if (!(i & 1)) l->x = 0; if (!(i & 2)) l->y = 0; if (!(i & 4)) l->z = 0; if (!(i & 8)) l->cs = 0; if (!(i & 16)) l->id = 0; if (!(i & 32)) l->hu = 0; if (!(i & 64)) l->hd = 0; if (!(i & 128)) l->vu = 0; if (!(i & 256)) l->vd = 0; if (!(i & 512)) l->tz = ""; if (!(i & 1024)) l->sup = "";
        freshWorld(); File f2; if (f2.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } int rc = l->put(f2); transition(); if (rc) { fail(key, "storing returned %d", rc); return; } if (l->empty()) { zStructLocation* q = zstructLocationNew(l->path.c_str()); rc = zlocationRetrieve(f2.ifltab, q); zstructFree(q); if (rc != -1) fail(key, "retrieving a location never stored returned %d", rc); f2.close(); return; } l->checkVia(f2, "/MC/PLACE/FLOW//IR-Year/other/", key, "retrieved by another pathname of the place"); f2.close(); if (!failed()) structure(key); }; fs.push_back(f); }
    { Family f; f.name = "location-with-data"; f.n = 3ull * 3 * 3 * 3 * 4; f.chunk = 64; f.rule = "sequences of three stores of a place's location: by itself (overwriting or not), with a series, with paired data, each with none or one of several locations; then every way of retrieving it"; f.describe = [](uint64_t i) { return strf("sequence %llu", (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("location-with-data:%llu", (unsigned long long)i); freshWorld(); File f2; if (f2.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } std::shared_ptr<Loc> now; uint64_t k = i; int last = 0; for (int s = 0; s < 4; s++) { int how = s == 3 ? (int)digit(k, 4) : (int)digit(k, 3); auto l = Loc::make("/MC/PLACE/STAGE//1Hour/F/", 4 + s * 4, s == 1 ? 0 : 7 + s, s + 1); int rc;
          if (how == 0 || how == 3) { l->flag = how == 0 ? 0 : 1; rc = l->put(f2); if (!now || l->flag) now = l; } else if (how == 1) { double v[3] = {1, 2, 3}; zStructTimeSeries* t = zstructTsNewRegDoubles("/MC/PLACE/STAGE//1Hour/F/", v, 3, "02Jan2000", "0100", "ft", "INST-VAL"); t->locationStruct = zstructLocationNew("/MC/PLACE/STAGE//1Hour/F/"); t->allocated[zSTRUCT_TS_locationStruct] = 1; l->fillIn(t->locationStruct); rc = ztsStore(f2.ifltab, t, 0); zstructFree(t); if (!now) now = l; last |= 1; } else { double o[2] = {1, 2}, v[2] = {3, 4}; zStructPairedData* t = zstructPdNewDoubles("/MC/PLACE/STAGE-FLOW///F/", o, v, 2, 1, "ft", "LIN", "cfs", "LIN"); t->locationStruct = zstructLocationNew("/MC/PLACE/STAGE-FLOW///F/"); t->allocated[zSTRUCT_PD_locationStruct] = 1; l->fillIn(t->locationStruct); rc = zpdStore(f2.ifltab, t, 0); zstructFree(t); if (!now) now = l; last |= 2; }
          transition(); if (rc) { fail(key, "store %d (%s) returned %d", s + 1, how == 0 ? "location, keeping an existing one" : how == 1 ? "with a series" : how == 2 ? "with paired data" : "location, overwriting", rc); return; } if (!now->check(f2, key, "after the store")) return; }
        if (last & 1) { zStructTimeSeries* t = zstructTsNewTimes("/MC/PLACE/STAGE//1Hour/F/", "02Jan2000", "0100", "02Jan2000", "0300"); t->locationStruct = zstructLocationNew("/MC/PLACE/STAGE//1Hour/F/"); t->allocated[zSTRUCT_TS_locationStruct] = 1; int rc = ztsRetrieve(f2.ifltab, t, 0, 2, 0); if (rc) fail(key, "retrieving the series returned %d", rc); else now->same(t->locationStruct, key, "with the series"); zstructFree(t); } if (!failed() && last & 2) { zStructPairedData* t = zstructPdNew("/MC/PLACE/STAGE-FLOW///F/"); t->locationStruct = zstructLocationNew("/MC/PLACE/STAGE-FLOW///F/"); t->allocated[zSTRUCT_PD_locationStruct] = 1; int rc = zpdRetrieve(f2.ifltab, t, 2); if (rc) fail(key, "retrieving the paired data returned %d", rc); else now->same(t->locationStruct, key, "with the paired data"); zstructFree(t); } f2.close(); if (!failed()) structure(key); }; fs.push_back(f); }
    { int N = th ? 12 : 7; static const int T[] = {400, 401, 410, 411, 420, 421, 430, 431}; add(fs, "grid", strf("grids of 1..%d by 1..%d cells x plain or compressed x constant, ramp, mostly null and incompressible cells x 0..4 ranges x each grid type and string length in turn", N, N), (uint64_t)N * N * 2 * 4 * 5, [=](uint64_t i) -> P { int x = digit(i, N) + 1, y = digit(i, N) + 1, cm = digit(i, 2) ? 26 : 1, pat = digit(i, 4), r = digit(i, 5); return Grid::make(D, T[(x * 3 + y + pat) % 8], x, y, cm, r, pat, (x * 5 + y + r) % 23, x + y); }); }
    { int K = th ? 8 : 3; add(fs, "grid-large", "larger grids (several thousand cells) x plain or compressed x four kinds of cells", (uint64_t)K * 2 * 4, [=](uint64_t i) -> P { int k = digit(i, K), cm = digit(i, 2) ? 26 : 1, pat = digit(i, 4); return Grid::make(D, 430, 41 + k * 37, 53 + k * 11, cm, 5, pat, 11, k); }, 4); }
    { int N = th ? 9 : 5, L = th ? 26 : 10; add(fs, "tin", strf("TINs of 1..%d points x 0..7 connections x labels of 0..%d characters x description lengths", N, L - 1), (uint64_t)N * 8 * L * 4, [=](uint64_t i) -> P { int n = digit(i, N) + 1, cn = digit(i, 8), l = digit(i, L), s = digit(i, 4) * 3; return Tin::make("/MC/PLACE/THING///F/", n, cn, l, s, n + s); }); }
    { int N = th ? 300 : 72; add(fs, "file", strf("embedded files of 1..%d and around 4096 and 65536 bytes, written over an absent, shorter or longer file", N), (uint64_t)(N + 6) * 3, [=](uint64_t i) -> P { int k = digit(i, N + 6), b = digit(i, 3); static const int big[] = {4095, 4096, 4097, 65535, 65536, 65543}; int n = k < N ? k + 1 : big[k - N]; return Blob::make("/MC/PLACE/FILE///F/", n, k % 5, b == 0 ? 0 : b == 1 ? (n > 1 ? n / 2 : 0) : n + 9); }); }
    { static const int LEN[] = {0, 1, 5, 80, 990, 999, 1200}; add(fs, "text-file", "text files of 1..6 lines x line lengths around 0, 1, 80, 1000 and 1200 x last line ended or not, written over a shorter or longer file", 6ull * 7 * 2 * 2, [](uint64_t i) -> P { int n = digit(i, 6) + 1, l = LEN[digit(i, 7)], nl = digit(i, 2), b = digit(i, 2); string t = lines(n, l, nl, n); if (t.empty()) t = "\n"; return TextFile::make("/MC/PLACE/TEXT///F/", t, b ? t.size() + 20 : 0); }); }
    { Family f; f.name = "missing"; f.n = 7ull * 2; f.chunk = 14; f.rule = "retrieving each kind of record that is not there, from an empty file and from one holding another record: reported as not found, an existing output file left alone"; f.describe = [](uint64_t i) { return strf("kind %llu", (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("missing:%llu", (unsigned long long)i); int k = digit(i, 7); freshWorld(); File f2; if (f2.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } if (i) Array::make("/X/Y/Z///F/", 1, 1, 1, 0, 1)->put(f2); int rc = 0; const char* p = "/A/B/C///NONE/"; TmpFile t; t.put("kept"); void* z = nullptr; transition();
        if (k == 0) rc = ztextRetrieve(f2.ifltab, (zStructText*)(z = zstructTextNew(p))); else if (k == 1) rc = zarrayRetrieve(f2.ifltab, (zStructArray*)(z = zstructArrayNew(p))); else if (k == 2) rc = zlocationRetrieve(f2.ifltab, (zStructLocation*)(z = zstructLocationNew(p))); else if (k == 3) rc = zspatialGridRetrieve(f2.ifltab, (zStructSpatialGrid*)(z = zstructSpatialGridNew(p)), 1); else if (k == 4) rc = zspatialTinRetrieve(f2.ifltab, (zStructSpatialTin*)(z = zstructSpatialTinNew(p)), 1); else if (k == 5) rc = zbinaryRetrieveToFile(f2.ifltab, p, t.path().c_str()); else rc = ztextRetrieveToFile(f2.ifltab, p, t.path().c_str());
        if (z) zstructFree(z); if (rc != -1) fail(key, "retrieving a missing record (kind %d) returned %d", k, rc); else if (t.get() != "kept") fail(key, "the output file was changed although there was no record"); f2.close(); }; fs.push_back(f); }
    { int A = 24, Dp = th ? 4 : 3; Family f; f.name = "sequences"; f.n = seqCount(A, 1, Dp); f.chunk = 64; f.rule = strf("every sequence of up to %d stores of a small or large record of each kind in either of two places; after each, every record present; then after closing, and after squeezing", Dp); f.describe = [=](uint64_t i) { string s; int n = 0; for (int k : seqDecode(i, A, 1, Dp)) s += kind(k % 12, 1 + k / 12, ++n)->str() + (k / 12 ? " in the second place; " : "; "); return s; };
      f.run = [=](uint64_t i) { string key = strf("sequences:%llu", (unsigned long long)i); freshWorld(); File f2; if (f2.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } std::map<int, P> have; int n = 0; for (int k : seqDecode(i, A, 1, Dp)) { P p = kind(k % 12, 1 + k / 12, ++n); int rc = p->put(f2); transition(); if (rc) { fail(key, "store %d (%s) returned %d", n, p->str().c_str(), rc); return; } have[k / 2] = p; for (auto& h : have) if (!h.second->check(f2, key, strf("after store %d", n).c_str())) return; } f2.close(); if (!structure(key)) return;
        File g; if (g.open("/mc/a.dss", 0)) { fail(key, "reopen"); return; } for (auto& h : have) if (!h.second->check(g, key, "after closing")) return; if (zsqueeze7(g.ifltab, 1, 1)) { fail(key, "squeeze"); return; } for (auto& h : have) if (!h.second->check(g, key, "after squeezing")) return; g.close(); structure(key); }; fs.push_back(f); }
  };
  return run(argc, argv, c);
}
