// What an operation takes from the process - memory, file descriptors - it gives back: whatever is repeated, it does not grow.
#include "reads.h"
#include "bads.h"
#include <malloc.h>
// --- every allocation of the process is counted
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
static long long live, blocks; static bool track; struct Ent { void* p, *ra; size_t n; }; static const int NT = 1 << 16; static Ent tab[NT];
static void in(void* p, void* ra) { if (!p) return; size_t n = malloc_usable_size(p); live += n; blocks++; if (track) for (size_t h = ((size_t)p >> 4) * 2654435761u % NT, k = 0; k < NT; k++, h = (h + 1) % NT) if (!tab[h].p || tab[h].p == (void*)1) { tab[h] = {p, ra, n}; break; } }
static void out(void* p) { if (!p) return; live -= malloc_usable_size(p); blocks--; if (track) for (size_t h = ((size_t)p >> 4) * 2654435761u % NT, k = 0; k < NT && tab[h].p; k++, h = (h + 1) % NT) if (tab[h].p == p) { tab[h].p = (void*)1; break; } }
extern "C" { __attribute__((noinline)) void* malloc(size_t n) { void* p = __libc_malloc(n); in(p, __builtin_return_address(0)); return p; } void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); in(p, __builtin_return_address(0)); return p; } void* realloc(void* q, size_t n) { out(q); void* p = __libc_realloc(q, n); if (p || !n) in(p, __builtin_return_address(0)); else in(q, 0); return p; } void free(void* p) { out(p); __libc_free(p); }
  void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); in(p, 0); return p; } void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); } int posix_memalign(void** q, size_t a, size_t n) { *q = memalign(a, n); return *q ? 0 : ENOMEM; } }
#include <dlfcn.h>
static void where(size_t n, void* ra) { Dl_info d; string s = "?"; if (dladdr(ra, &d)) { FILE* f = popen(strf("addr2line -f -s -e %s %lx", d.dli_fname, (long)((char*)ra - (char*)d.dli_fbase) - 1).c_str(), "r"); if (f) { char b[300]; s.clear(); while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; s += string(b) + " "; } pclose(f); } } fprintf(stderr, "  %zu bytes left, taken in %s\n", n, s.c_str()); }
// --- the operations: all that write, all that read, all that may be refused
typedef std::function<void(File&)> Fn; struct Act { string name; Fn run; bool slow = false, late = false; }; static bool armed;
static const vector<Act>& acts() { static vector<Act> v; if (v.empty()) { for (auto& w : goods()) { auto r = w.run; v.push_back({w.name, [r](File& f) { r(f); }}); } for (auto& r : reads::all()) { auto g = r.run; v.push_back({r.name, [g](File& f) { g(f); }, r.order}); } } return v; }
static const vector<Act>& refusals() { static vector<Act> v; if (v.empty()) { for (auto& w : bads()) { auto r = w.run; v.push_back({w.name, [r](File& f) { r(f); }}); } for (auto& w : readings()) { auto r = w.run; v.push_back({w.name + " (a plain retrieval)", [r](File& f) { r(f); }}); } } return v; }
// series and paired data with everything that can be attached, stored, stored again and read in every form
static zStructLocation* someplace(const char* p) { auto l = zstructLocationNew(p); l->xOrdinate = 1; l->yOrdinate = 2; l->timeZoneName = mallocAndCopy("UTC"); l->supplemental = mallocAndCopy("further:what there is;"); l->allocated[zSTRUCT_timeZoneName] = 1; l->allocated[zSTRUCT_otherInformation] = 1; return l; }
static void series(File& f, bool reg, bool dbl, int att, int depths, int flag, int size, bool elev, int second = 0) { string p = strf("/AT/%s/%s%d%d//%s/F%d/", "B", elev ? "ELEV" : "C", att, depths, reg ? "1Hour" : "IR-Month", dbl); const int n = 40; vector<double> v(n * (depths ? depths : 1)), dep; for (size_t i = 0; i < v.size(); i++) v[i] = i % 7 == 3 ? -901. : 1.5 * i; for (int i = 0; i < depths; i++) dep.push_back(i + 1.); vector<float> fv(v.begin(), v.end()), fd(dep.begin(), dep.end()); vector<int> t(n), q(n, 3), in(n, 4), uh(6, 0x41424344); for (int i = 0; i < n; i++) t[i] = 60 * i + (reg ? 60 : 7); string cn; for (int i = 0; i < n; i++) { cn += i % 3 ? "a note" : ""; cn += '\0'; }
  int base = dateToJulian("31Dec2001"); for (int k = 0; k < 2; k++) { if (k && size == -1) { armed = true; return; } if (k && size == -2) { armed = true; if (second == 1) dbl = !dbl; if (second == 2) att = 0; if (second == 3) { v.assign(v.size(), -901.); fv.assign(fv.size(), -901.f); } if (second == 4) { depths = depths ? 0 : 3; dep = {1, 2, 3}; fd = {1, 2, 3}; v.assign(n * 3, 7.); fv.assign(n * 3, 7.f); } if (second == 5) att = att == 2 ? 3 : att == 3 ? 2 : 7; } zStructTimeSeries* z; if (depths) { z = zstructTsNew(p.c_str()); z->numberValues = n; z->profileDepthsNumber = depths; if (dbl) { z->doubleProfileDepths = dep.data(); z->doubleProfileValues = v.data(); } else { z->floatProfileDepths = fd.data(); z->floatProfileValues = fv.data(); } z->unitsProfileDepths = mallocAndCopy("m"); z->unitsProfileValues = mallocAndCopy("degC"); z->type = mallocAndCopy("INST-VAL"); z->allocated[zSTRUCT_TS_profileUnitsDepths] = z->allocated[zSTRUCT_TS_profileUnitsValues] = z->allocated[zSTRUCT_TS_type] = 1; z->startJulianDate = base; z->startTimeSeconds = 3600; if (!reg) { z->times = t.data(); z->timeGranularitySeconds = 60; z->julianBaseDate = base; } }
    else if (reg) z = dbl ? zstructTsNewRegDoubles(p.c_str(), v.data(), n, "31Dec2001", "0100", "ft", "INST-VAL") : zstructTsNewRegFloats(p.c_str(), fv.data(), n, "31Dec2001", "0100", "ft", "INST-VAL"); else z = dbl ? zstructTsNewIrregDoubles(p.c_str(), v.data(), n, t.data(), 60, "31Dec2001", "ft", "INST-VAL") : zstructTsNewIrregFloats(p.c_str(), fv.data(), n, t.data(), 60, "31Dec2001", "ft", "INST-VAL");
    bool a = att == 7; if (a || att == 1) { z->quality = q.data(); z->qualityElementSize = 1; } if (a || att == 2) { z->inotes = in.data(); z->inoteElementSize = 1; } if (att == 3) { z->cnotes = &cn[0]; z->cnotesLengthTotal = cn.size(); } if (a || att == 4) { z->userHeader = uh.data(); z->userHeaderNumber = uh.size(); } if (a || att == 5) { if (z->locationStruct && z->allocated[zSTRUCT_TS_locationStruct]) zstructFree(z->locationStruct); z->locationStruct = someplace(p.c_str()); z->allocated[zSTRUCT_TS_locationStruct] = 1; } if (a || att == 6) { z->timeZoneName = mallocAndCopy("PST"); z->allocated[zSTRUCT_timeZoneName] = 1; }
    ztsStore(f.ifltab, z, size == -2 && k ? flag : reg ? 0 : k); zstructFree(z); }
  armed = true; if (size < 0) return; for (int w = 0; w < 3; w++) { auto z = w == 2 ? zstructTsNew(p.c_str()) : zstructTsNewTimes(p.c_str(), w ? "01Jan2002" : "31Dec2001", "0100", w ? "01Mar2002" : "01Jan2002", w ? "0300" : "1600"); if (w == 2) z->boolRetrieveAllTimes = 1; ztsRetrieve(f.ifltab, z, flag, size, 1); zstructFree(z); } }
static void paired(File& f, bool dbl, int att, int part, int size) { string p = strf("/AT/PD/C%d///F%d/", att, dbl); vector<double> o{1, 2, 3, 4}, v(12, 2.5); vector<float> fo(o.begin(), o.end()), fv(v.begin(), v.end()); vector<int> uh(6, 0x41424344); char lab[] = "one\0two\0three"; for (int k = 0; k < 3; k++) { auto z = dbl ? zstructPdNewDoubles(p.c_str(), o.data(), v.data(), 4, 3, "ft", "UNT", "cfs", "LIN") : zstructPdNewFloats(p.c_str(), fo.data(), fv.data(), 4, 3, "ft", "UNT", "cfs", "LIN"); bool a = att == 5; if (a || att == 1) { z->labels = lab; z->labelsLength = sizeof lab; } if (a || att == 2) { z->userHeader = uh.data(); z->userHeaderNumber = uh.size(); } if (a || att == 3) { if (z->locationStruct && z->allocated[zSTRUCT_PD_locationStruct]) zstructFree(z->locationStruct); z->locationStruct = someplace(p.c_str()); z->allocated[zSTRUCT_PD_locationStruct] = 1; } if (a || att == 4) { z->timeZoneName = mallocAndCopy("PST"); z->allocated[zSTRUCT_timeZoneName] = 1; }
    if (k == 2) { z->startingOrdinate = 2; z->endingOrdinate = 3; z->startingCurve = 2; z->endingCurve = 2; } zpdStore(f.ifltab, z, k == 2 ? 11 : 0); zstructFree(z); } armed = true; if (size < 0) return; for (int w = 0; w < 2; w++) { auto z = zstructPdNew(p.c_str()); if (part) { z->startingOrdinate = 2; z->endingOrdinate = part == 1 ? 3 : 9; z->startingCurve = w + 1; z->endingCurve = 2; } zpdRetrieve(f.ifltab, z, size); zstructFree(z); } }
static const vector<Act>& attached() { static vector<Act> v; if (!v.empty()) return v; static const char* const AN[] = {"nothing", "quality", "integer notes", "text notes", "a user header", "a location", "a time zone", "all of these"}; static const char* const PN[] = {"nothing", "labels", "a user header", "a location", "a time zone", "all of these"}; for (int e = 0; e < 2; e++) for (int r = 0; r < 2; r++) for (int d = 0; d < 2; d++) for (int a = 0; a < 8; a++) for (int dp = 0; dp < 4; dp += 3) if (!e || (a % 3 == 1 && !dp)) { v.push_back({strf("%sstoring %sregular series of %s%s with %s", e ? "elevations: " : "", r ? "" : "ir", d ? "doubles" : "floats", dp ? " at 3 depths" : "", AN[a]), [=](File& f) { series(f, r, d, a, dp, 0, -1, e); }}); if (!e) for (int g = 0; g < 5; g++) for (int w = 0; w < 6; w++) { static const char* const WN[] = {"the same", "the same in the other precision", "only the values", "missing values", "with or without depths", "other notes"}; v.push_back({strf("storing %s over %sregular series of %s%s with %s, storage flag %d", WN[w], r ? "" : "ir", d ? "doubles" : "floats", dp ? " at 3 depths" : "", AN[a], g), [=](File& f) { series(f, r, d, a, dp, g, -2, false, w); }, false, true}); } for (int g = 0; g < 4; g++) for (int s = 0; s < 3; s++) v.push_back({strf("%s%sregular series of %s%s with %s, read with flag %d as size %d", e ? "elevations: " : "", r ? "" : "ir", d ? "doubles" : "floats", dp ? " at 3 depths" : "", AN[a], r ? -g : g, s), [=](File& f) { series(f, r, d, a, dp, r ? -g : g, s, e); }, false, true}); }
  for (int d = 0; d < 2; d++) for (int a = 0; a < 6; a++) { v.push_back({strf("storing paired %s with %s", d ? "doubles" : "floats", PN[a]), [=](File& f) { paired(f, d, a, 0, -1); }}); for (int p = 0; p < 3; p++) for (int s = 0; s < 3; s++) v.push_back({strf("paired %s with %s, %s read as size %d", d ? "doubles" : "floats", PN[a], p ? p == 1 ? "a part" : "more than there is" : "all", s), [=](File& f) { paired(f, d, a, p, s); }, false, true}); }
  for (auto p : {SF, SI, PA, TX, AR}) for (int k = 0; k < 4; k++) v.push_back({strf("copying %s to %s", p, k & 1 ? "another file, other parts" : "other parts"), [=](File& f) { string q = p; size_t at = q.rfind('/', q.size() - 2); q.replace(at + 1, q.size() - at - 2, "CP"); if (k & 2) { size_t e = q.rfind('/', at - 1); if (at > e + 1) q.replace(e + 1, at - e - 1, q[e + 1] == 'I' ? "IR-Year" : "2Hour"); } zcopyRecord(f.ifltab, k & 1 && other ? other->ifltab : f.ifltab, p, q.c_str()); }}); return v; }
// a round: the file put back, opened, worked on, closed. After the first (if need be, the first 300) it takes nothing more
static bool open1; // the file stays open from round to round; otherwise each must leave nothing open
static void rounds(const string& key, const string& what, std::function<void()> round0, int before = 1) { static int left; left = 0; auto round = [&] { round0(); if (!open1) left += vfs::openFdCount(); }; auto open = [&] { return open1 ? vfs::openFdCount() : left; }; for (int k = 0; k < before; k++) round(); execution(); state(mix(live, blocks)); ll b[4], n[4]; int fd[4]; b[0] = live; n[0] = blocks; fd[0] = open(); for (int k = 1; k < 4; k++) { if (k == 3 && verbose()) { memset(tab, 0, sizeof tab); track = true; } round(); track = false; transition(); b[k] = live; n[k] = blocks; fd[k] = open(); }
  if (verbose()) for (auto& e : tab) if (e.p && e.p != (void*)1) where(e.n, e.ra);
  bool more = true, files = true; for (int k = 1; k < 4; k++) { more = more && b[k] > b[k - 1]; files = files && fd[k] > fd[k - 1]; } if ((more || files) && before == 1) return rounds(key, what, round0, 300); /* what is kept up to a limit (messages for the user) is no leak */ if (more) fail(key, "%s: each time %lld bytes in %lld blocks stay allocated", what.c_str(), b[3] - b[2], n[3] - n[2]); else if (files) fail(key, "%s: each time %d file descriptors stay open", what.c_str(), fd[3] - fd[2]); }
static vfs::Snapshot snap; static bool base(const string& key) { static bool done; if (done) return true; File f; if (!world(key, f, 0)) return false; f.close(); snap = vfs::snapshot(); done = true; return true; }
static void session(const vector<const Act*>& ops, int access, int level, bool alike) { vfs::restore(snap); *vfs::nowMs = 1700000030000LL; File o; o.open("/mc/other.dss", 1); other = &o; File f; if (!f.open(F0, access)) { if (level) zsetFile(f.ifltab, "recl", "", level); for (auto a : ops) a->run(f); f.close(); } o.close(); }
// the same, over and over on one handle
static void repeated(const string& key, const vector<const Act*>& ops, const string& what) { if (!base(key)) return; vfs::restore(snap); *vfs::nowMs = 1700000030000LL; File o; o.open("/mc/other.dss", 1); other = &o; File f; if (f.open(F0, 0)) { fail(key, "open"); return; } for (int k = 0; k < 2; k++) for (auto a : ops) a->run(f); open1 = true; rounds(key, what, [&] { for (auto a : ops) a->run(f); }); open1 = false; f.close(); o.close(); }
// --- the public interface, through a handle of its own
typedef std::function<void(dss_file*)> Pub; struct PAct { string name; Pub run; };
static const vector<PAct>& pubs() { static vector<PAct> v; if (!v.empty()) return v; auto add = [&](const string& n, Pub r) { v.push_back({n, r}); };
  static const char* const P[] = {TX, AR, PA, GR, SF, SI, "/R/ONE/TEXT///F/", NONE, GONE, "/A/B/C/01Dec2001/1Hour/F/", "no slashes at all", "/NEW/PUB/Z///F/"};
  for (auto p : P) {
    add(strf("the text %s", p), [=](dss_file* d) { char b[50]; hec_dss_textRetrieve(d, p, b, 50); }); add(strf("storing a text as %s", p), [=](dss_file* d) { hec_dss_textStore(d, p, "a public text", 13); });
    add(strf("the arrays %s", p), [=](dss_file* d) { int a, b, c; int I[9]; float F[9]; double D[9]; hec_dss_arrayRetrieveInfo(d, p, &a, &b, &c); hec_dss_arrayRetrieve(d, p, I, 9, F, 9, D, 9); }); add(strf("storing arrays as %s", p), [=](dss_file* d) { int I[2] = {1, 2}; float F[3] = {1, 2, 3}; double D[1] = {4}; hec_dss_arrayStore(d, p, I, 2, F, 3, D, 1); });
    add(strf("the paired data %s", p), [=](dss_file* d) { double O[40], V[80]; int a = 0, b = 0, l = 0; char c[5][20]; char L[40]; int n[4]; hec_dss_pdRetrieveInfo(d, p, &a, &b, c[0], 20, c[1], 20, c[2], 20, c[3], 20, &l); hec_dss_pdRetrieve(d, p, O, 40, V, 80, &n[0], &n[1], c[0], 20, c[1], 20, c[2], 20, c[3], 20, L, 40, c[4], 20); });
    add(strf("storing paired data as %s", p), [=](dss_file* d) { double O[2] = {1, 2}, V[4] = {1, 2, 3, 4}; hec_dss_pdStore(d, p, O, 2, V, 4, 2, 2, "ft", "UNT", "cfs", "LIN", "one\0two", 8, "UTC"); });
    add(strf("the grid %s", p), [=](dss_file* d) { for (int w = 0; w < 2; w++) { int A[11]; char b[5][60]; float c[7], L[30], D[900]; int N[30]; hec_dss_gridRetrieve(d, p, w, &A[0], &A[1], &A[2], &A[3], &A[4], &A[5], &A[6], &A[7], &A[8], &A[9], &A[10], b[0], 60, b[1], 60, b[2], 60, b[3], 60, b[4], 60, &c[0], &c[1], &c[2], &c[3], &c[4], &c[5], &c[6], L, 30, N, D, 900); } });
    add(strf("storing a grid as %s", p), [=](dss_file* d) { float L[2] = {1, 2}, D[6] = {1, 2, 3, 4, 5, 6}; int N[2] = {2, 1}; hec_dss_gridStore(d, p, 430, 1, 2, 3, 3, 2, 2, 1, 60, 0, 1, 0, "mm", "src", "srs", "def", "UTC", 2000.f, 1.f, 1.f, -1e30f, 6.f, 1.f, 3.f, L, N, D); });
    add(strf("the series %s", p), [=](dss_file* d) { int t[60], q[60], n = 0, j = 0, g = 0, a[4]; double v[60]; char u[20], ty[20], tz[20]; hec_dss_tsRetrieveInfo(d, p, u, 20, ty, 20); hec_dss_tsGetDateTimeRange(d, p, 1, &a[0], &a[1], &a[2], &a[3]); hec_dss_tsGetSizes(d, p, "31Dec2001", "0100", "01Jan2002", "0100", &a[0], &a[1]); hec_dss_tsRetrieve(d, p, "31Dec2001", "0100", "01Jan2002", "0100", t, v, 60, &n, q, 1, &j, &g, u, 20, ty, 20, tz, 20); });
    add(strf("storing a regular series as %s", p), [=](dss_file* d) { double v[3] = {1, 2, 3}; int q[3] = {0, 1, 0}; hec_dss_tsStoreRegular(d, p, "31Dec2001", "2300", v, 3, q, 3, 0, "cfs", "INST-VAL", "UTC", 0); });
    add(strf("storing an irregular series as %s", p), [=](dss_file* d) { double v[3] = {1, 2, 3}; int t[3] = {10, 700, 1441}; hec_dss_tsStoreIregular(d, p, "31Dec2001", t, 60, v, 3, nullptr, 0, 0, "cfs", "INST-VAL", "UTC", 0); });
    add(strf("the location of %s", p), [=](dss_file* d) { double x, y, z; int k[6]; char a[40], b[40]; hec_dss_locationRetrieve(d, p, &x, &y, &z, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], a, 40, b, 40); }); add(strf("storing the location of %s", p), [=](dss_file* d) { hec_dss_locationStore(d, p, 1, 2, 3, 1, 2, 3, 4, 5, 6, "PST", "more", 1); });
    add(strf("what %s is", p), [=](dss_file* d) { hec_dss_recordType(d, p); hec_dss_dataType(d, p); }); add(strf("deleting %s", p), [=](dss_file* d) { hec_dss_delete(d, p); }); }
  add("the number of records and the catalogue", [](dss_file* d) { static char b[60 * 400]; int t[60]; hec_dss_record_count(d); hec_dss_catalog(d, b, t, "", 60, 394); hec_dss_catalog(d, b, t, "/R/*/*/*/*/*/", 60, 394); hec_dss_catalog(d, b, t, "/none/", 2, 394); hec_dss_getVersion(d); hec_dss_getFileVersion(F0); hec_dss_getFileVersion("/mc/none.dss"); });
  return v; }
static void publicly(const vector<const PAct*>& ops) { vfs::restore(snap); *vfs::nowMs = 1700000030000LL; dss_file* d = nullptr; if (!hec_dss_open(F0, &d) && d) { for (auto a : ops) a->run(d); hec_dss_close(d); } }
// an I/O operation fails
static long at, seen, mode; static bool hit; static int faultHook(const vfs::Op& o) { if (!armed) return 0; if (o.kind != vfs::OP_WRITE && o.kind != vfs::OP_READ) return 0; long k = seen++; if (k > 20000) return EIO; bool f = k == at || (k > at && mode == 1); if (f) hit = true; return f ? mode == 2 ? -(int)(o.len / 16 * 8) - 1 : o.kind == vfs::OP_WRITE ? ENOSPC : EIO : 0; }
// opening, and what may come of it
static string way(int w) { static const char* const W[] = {"a new file", "the file there", "a text", "a file of version 6", "a directory that is not there", "a file that is not there, for reading", "an empty name", "a name too long", "a file cut to nothing", "a file cut to 31 bytes", "a file cut to 32 bytes", "a file cut to 100 bytes", "a file cut to half its length", "a file whose first word is damaged", "the file there, twice", "a file of version 8", "a file of version X"}; return W[w]; }
static void tryWay(int w, int access, int hash) { vfs::restore(snap); *vfs::nowMs = 1700000030000LL; string s = vfs::get(F0); const char* n = F0; string lng = "/mc/" + string(300, 'x') + ".dss"; switch (w) { case 0: n = "/mc/new.dss"; break; case 2: vfs::put(F0, string(3000, 't')); break; case 3: s[16] = '6'; vfs::put(F0, s); break; case 4: n = "/mc-none/dir.dss"; break; case 5: n = "/mc/absent.dss"; access = 1; break; case 6: n = ""; break; case 7: n = lng.c_str(); break; case 8: vfs::put(F0, ""); break; case 9: vfs::put(F0, s.substr(0, 31)); break; case 10: vfs::put(F0, s.substr(0, 32)); break; case 11: vfs::put(F0, s.substr(0, 100)); break; case 12: vfs::put(F0, s.substr(0, s.size() / 2)); break; case 13: s[0] = 'Q'; vfs::put(F0, s); break; case 15: s[16] = '8'; vfs::put(F0, s); break; case 16: s[16] = 'X'; vfs::put(F0, s); break; }
  File f, g; int rc = f.open(n, access, hash); if (w == 14) g.open(n, access, hash); if (!rc) { put(f, 0, "/O/P/TEXT///F/", 3, 0); } if (w == 14) { put(g, 1, "/O/P/ARRAY///F/", 3, 0); g.close(); } if (!rc) f.close(); }
// squeezing: by name, through the public interface, needed or not, by replacement, and where it cannot be done
static string sqName(int w) { static const char* const W[] = {"squeezing by name", "squeezing through the public interface", "squeezing if needed", "squeezing by replacement", "squeezing an open file in place", "squeezing a file that is not there", "squeezing what is no DSS file", "squeezing a file open elsewhere", "squeezing a file opened for reading", "copying the file to a new one", "squeezing a damaged file"}; return W[w]; }
static void squeezes(int w) { vfs::restore(snap); *vfs::nowMs = 1700000030000LL; File f, g; switch (w) { case 0: zsqueeze(F0); break; case 1: hec_dss_squeeze(F0); break; case 2: f.open(F0, 0); zsqueeze7(f.ifltab, 1, 1); f.close(); break; case 3: f.open(F0, 0); zsqueeze7(f.ifltab, 0, 0); f.close(); break; case 4: f.open(F0, 0); zsqueeze7(f.ifltab, 0, 1); f.close(); break; case 5: zsqueeze("/mc/absent.dss"); break; case 6: vfs::put(F0, string(3000, 't')); zsqueeze(F0); break; case 7: g.open(F0, 2); zsqueeze(F0); g.close(); break; case 8: f.open(F0, 1); zsqueeze7(f.ifltab, 0, 1); f.close(); break; case 9: if (!f.open(F0, 0)) { if (!g.open("/mc/copy.dss", 0)) { zcopyFile(f.ifltab, g.ifltab, 0); g.close(); } f.close(); } break; case 10: { string b = vfs::get(F0); for (size_t i = 2000; i + 8 < b.size(); i += 1200) b[i] ^= 0x55; vfs::put(F0, b); zsqueeze(F0); } } }
int main(int argc, char** argv) {
  Check c; c.id = "C21"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system", "one thread"};
  c.build = [](bool th, std::vector<Family>& fs) { static vector<Act> all; if (all.empty()) { all = acts(); for (auto& r : refusals()) all.push_back(r); } static vector<Act> more; if (more.empty()) { more = all; for (auto& r : attached()) more.push_back(r); } int n = all.size(), m = more.size();
    auto add = [&](const char* name, const string& rule, uint64_t n, int chunk, std::function<string(uint64_t)> desc, std::function<void(uint64_t, const string&)> run) { Family f; f.name = name; f.rule = rule; f.n = n; f.chunk = chunk; string nm = name; f.describe = desc; f.run = [=](uint64_t i) { string key = strf("%s:%llu", nm.c_str(), (unsigned long long)i); run(i, key); }; fs.push_back(f); };
    { static const int AC[] = {0, 1, 2, 4}; add("each", strf("every operation of %d, those refused included, x 4 access modes x 3 reclaim levels, the file opened and closed around it", m), (uint64_t)m * 12, 20, [=](uint64_t i) { int a = digit(i, m), c = digit(i, 4); return strf("%s, access mode %d, reclaim level %d", more[a].name.c_str(), AC[c], (int)i + 1); },
      [=](uint64_t i, const string& key) { uint64_t j = i; int a = digit(j, m), c = digit(j, 4); if (!base(key)) return; rounds(strf("each:%s", more[a].name.c_str()), more[a].name, [&] { session({&more[a]}, AC[c], (int)j + 1, false); }); }); }
    add("repeated", strf("every operation of %d again and again on one handle", m), m, 10, [=](uint64_t i) { return more[i].name; }, [=](uint64_t i, const string& key) { repeated("repeated:" + more[i].name, {&more[i]}, more[i].name); });
    static const auto& PB = pubs(); int np = PB.size(); static const char* const FM[] = {"fails", "and all after it fail", "transfers only a part"};
    add("public", strf("every operation of %d of the public interface, then every other one, the file opened and closed around them", np), (uint64_t)np * np, 100, [=](uint64_t i) { int a = digit(i, np); return strf("%s, then %s", PB[a].name.c_str(), PB[i].name.c_str()); }, [=](uint64_t i, const string& key) { int a = digit(i, np); if (!base(key)) return; rounds("public:" + PB[a].name + " / " + PB[i].name, PB[a].name + ", then " + PB[i].name, [&] { publicly({&PB[a], &PB[i]}); }); });
    add("opening", "every way of opening, those that fail included, x 5 access modes x 3 hash sizes", 15 * 17, 5, [=](uint64_t i) { int w = digit(i, 17), m = digit(i, 5); return strf("%s, access mode %d, hash size %d", way(w).c_str(), m, (int)i); }, [=](uint64_t i, const string& key) { int w = digit(i, 17), m = digit(i, 5); if (!base(key)) return; static const int H[] = {0, 1, 3}; rounds("opening:" + way(w), way(w), [&] { tryWay(w, m, H[i]); }); });
    add("opening-fails", "every way of opening x 5 access modes, where one of the first 30 reads and writes fails in one of 3 ways", 17 * 5 * 30 * 3, 50, [=](uint64_t i) { int w = digit(i, 17), m = digit(i, 5), k = digit(i, 30); return strf("%s, access mode %d: operation %d %s", way(w).c_str(), m, k, FM[i]); }, [=](uint64_t i, const string& key) { int w = digit(i, 17), m = digit(i, 5), k = digit(i, 30); if (!base(key)) return; rounds("opening-fails:" + way(w), strf("%s, access mode %d: operation %d %s", way(w).c_str(), m, k, FM[i]), [&] { at = k; mode = i; seen = 0; armed = true; vfs::hook = faultHook; tryWay(w, m, 1); vfs::hook = nullptr; }); });
    { int K = th ? 1200 : 400; add("squeezing", strf("every one of 11 squeezes and copies of a file, and where one of the first %d reads and writes fails in one of 3 ways", K), 11 + 11ull * K * 3, 30, [=](uint64_t i) { if (i < 11) return sqName(i); i -= 11; int w = digit(i, 11), k = digit(i, K); return strf("%s: operation %d %s", sqName(w).c_str(), k, FM[i]); }, [=](uint64_t i, const string& key) { if (!base(key)) return; if (i < 11) { rounds("squeezing:" + sqName(i), sqName(i), [&] { squeezes(i); }); return; } i -= 11; int w = digit(i, 11), k = digit(i, K); rounds("squeezing:" + sqName(w), strf("%s: operation %d %s", sqName(w).c_str(), k, FM[i]), [&] { at = k; mode = i; seen = 0; armed = true; vfs::hook = faultHook; squeezes(w); vfs::hook = nullptr; }); }); }
    { static const int AC[] = {0, 1, 2, 4}; int na = th ? 4 : 1, nl = th ? 3 : 1; add("pairs", strf("every two operations of %d one after the other, the file opened and closed around them, x %d access modes x %d reclaim levels", n, na, nl), (uint64_t)n * n * na * nl, 200, [=](uint64_t i) { int a = digit(i, n), b = digit(i, n), m = digit(i, na); return strf("%s, then %s, access mode %d, reclaim level %d", all[a].name.c_str(), all[b].name.c_str(), AC[m], (int)i); }, [=](uint64_t i, const string& key) { int a = digit(i, n), b = digit(i, n), m = digit(i, na); if (all[a].slow || all[b].slow) return; if (!base(key)) return; rounds("pairs:" + all[a].name + " / " + all[b].name, all[a].name + ", then " + all[b].name, [&] { session({&all[a], &all[b]}, AC[m], na > 1 ? (int)i + 1 : 0, false); }); }); }
    { int K = th ? 200 : 60; add("fails", strf("every operation of %d, where one of its first %d reads and writes fails in one of 3 ways", m, K), (uint64_t)m * K * 3, 100, [=](uint64_t i) { int a = digit(i, m), k = digit(i, K); return strf("%s: operation %d %s", more[a].name.c_str(), k, FM[i]); }, [=](uint64_t i, const string& key) { int a = digit(i, m), k = digit(i, K); if (more[a].slow || !base(key)) return; rounds("fails:" + more[a].name, strf("%s: operation %d %s", more[a].name.c_str(), k, FM[i]), [&] { vfs::restore(snap); *vfs::nowMs = 1700000030000LL; File o; o.open("/mc/other.dss", 1); other = &o; File f; if (f.open(F0, 0)) return; at = k; mode = i; seen = 0; hit = false; armed = !more[a].late; vfs::hook = faultHook; more[a].run(f); vfs::hook = nullptr; f.close(); o.close(); }); }); }
  };
  return run(argc, argv, c);
}
