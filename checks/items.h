// Records of every other kind (text, arrays, locations, grids, TINs, embedded files): store one, and compare what comes back.
#pragma once
#include "dss.h"
#include "mc.h"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" { int zbinaryStoreFromFile(long long*, const char*, const char*); int zbinaryRetrieveToFile(long long*, const char*, const char*); }
namespace items {
using namespace dss; using namespace mc; using std::string; using std::vector;
inline string chars(int n, int seed) { string s; for (int i = 0; i < n; i++) s += (char)("abcdefghijklmnopqrstuvwxyz0123456789 ,.:-\n"[(seed * 7 + i * 5 + i / 41) % 42]); return s; }
inline char* dup(const string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
inline string show(const string& s) { string r; for (char c : s.substr(0, 40)) r += c >= 32 && c < 127 ? c : '.'; return r; }
inline string trim(string s) { while (s.size() && s.back() == ' ') s.pop_back(); return s; } // blanks at the end of a description are not kept
// a real, unnamed file (the code uses stdio for these)
struct TmpFile { int fd; TmpFile() { fd = memfd_create("mc", 0); } ~TmpFile() { ::close(fd); } string path() { return strf("/proc/self/fd/%d", fd); }
  void put(const string& s) { if (ftruncate(fd, 0)) {} if (s.size() && ::pwrite(fd, s.data(), s.size(), 0) != (ssize_t)s.size()) {} }
  string get() { off_t n = ::lseek(fd, 0, SEEK_END); string s(n, 0); if (n && ::pread(fd, &s[0], n, 0) != n) {} return s; } };
inline bool userHeader(const int* p, int n, const vector<int>& u, const string& key, const char* what) { int w = u.size(); if (n != w && n != (w + 1) / 2 * 2) { fail(key, "%s: user header of %d words, stored %d", what, n, w); return false; } for (int i = 0; i < w; i++) if (p[i] != u[i]) { fail(key, "%s: user header word %d is %d, stored %d", what, i, p[i], u[i]); return false; } return true; }
inline vector<int> uhOf(int n, int seed) { vector<int> u; for (int i = 0; i < n; i++) u.push_back((seed * 37 + i + 40) << 8); return u; }
struct Item { string path; int type = 0; virtual ~Item() {} virtual int put(File&) = 0; virtual bool check(File&, const string& key, const char* what) = 0; virtual string str() const = 0; };
typedef std::shared_ptr<Item> P;

struct Text : Item { string text, table, labels; int rows = 0, cols = 0; vector<int> uh; bool nul = false; // nul: the count includes the terminating null
  static string cells(int rows, int cols, int len, int seed) { string s; for (int i = 0; i < rows * cols; i++) { string c = chars((len + i * 3) % 11, seed + i); for (auto& x : c) if (x == '\n') x = ';'; s += c; s += '\0'; } return s; }
  static std::shared_ptr<Text> make(const string& p, int n, int rows, int cols, int lab, int nuh, int seed, bool nul = false) { auto t = std::make_shared<Text>(); t->path = p; t->text = chars(n, seed); t->rows = rows; t->cols = cols; t->nul = nul && n; if (rows) t->table = cells(rows, cols, 4 + seed, seed); for (int i = 0; lab && i < cols; i++) { t->labels += chars(lab + i, seed + i + 3); t->labels += '\0'; } t->uh = uhOf(nuh, seed); t->type = cols > 1 ? 310 : 300; return t; }
  string str() const override { return strf("text of %zu characters, table %dx%d of %zu, labels of %zu", text.size(), rows, cols, table.size(), labels.size()); }
  int put(File& f) override { zStructText* z = zstructTextNew(path.c_str()); vector<char> a(text.begin(), text.end()), b(table.begin(), table.end()), c(labels.begin(), labels.end()); if (nul) a.push_back(0); if (a.size()) { z->textString = a.data(); z->numberTextChars = a.size(); } if (b.size()) { z->textTable = b.data(); z->numberTableChars = b.size(); z->numberRows = rows; z->numberColumns = cols; } if (c.size()) { z->labels = c.data(); z->numberLabelChars = c.size(); } vector<int> u = uh; if (u.size()) { z->userHeader = u.data(); z->userHeaderNumber = u.size(); } int rc = ztextStore(f.ifltab, z); zstructFree(z); return rc; }
  bool part(const char* p, int n, const string& w, const string& key, const char* what, const char* name) { if (n != (int)w.size()) { fail(key, "%s: %s of %d characters, stored %zu", what, name, n, w.size()); return false; } if (n && (!p || string(p, n) != w)) { fail(key, "%s: %s is '%s', stored '%s'", what, name, p ? show(string(p, n)).c_str() : "(null)", show(w).c_str()); return false; } if (n && p[n] != 0) { fail(key, "%s: %s is not terminated", what, name); return false; } return true; }
  bool check(File& f, const string& key, const char* what) override { zStructText* z = zstructTextNew(path.c_str()); struct G { zStructText* z; ~G() { zstructFree(z); } } g{z}; int rc = ztextRetrieve(f.ifltab, z); if (rc) { fail(key, "%s: retrieving the text returned %d", what, rc); return false; }
    string t = text; if (nul) t += '\0'; if (!part(z->textString, z->numberTextChars, t, key, what, "text") || !part(z->textTable, z->numberTableChars, table, key, what, "table") || !part(z->labels, z->numberLabelChars, labels, key, what, "labels")) return false;
    int r = table.size() ? rows : 0, c = table.size() ? cols : 0; if (z->numberRows != r || z->numberColumns != c || z->dataType != (c > 1 ? 310 : 300)) { fail(key, "%s: %d rows, %d columns, type %d; stored %d, %d, %d", what, z->numberRows, z->numberColumns, z->dataType, r, c, c > 1 ? 310 : 300); return false; }
    state(mix(hashBytes(t.data(), t.size(), 3), hashBytes(table.data(), table.size(), rows * 16 + cols))); return userHeader(z->userHeader, z->userHeaderNumber, uh, key, what); } };

struct Array : Item { vector<int> i; vector<float> f; vector<double> d; vector<int> uh;
  static std::shared_ptr<Array> make(const string& p, int ni, int nf, int nd, int nuh, int seed) { auto a = std::make_shared<Array>(); a->path = p; a->type = 90; for (int k = 0; k < ni; k++) a->i.push_back(seed * 100000 + k * 257 - 3); for (int k = 0; k < nf; k++) a->f.push_back(seed * 1000 + k * 1.25f - 0.3f); for (int k = 0; k < nd; k++) a->d.push_back(seed * 1e7 + k * 0.1 - 0.7); a->uh = uhOf(nuh, seed); return a; }
  string str() const override { return strf("array of %zu ints, %zu floats, %zu doubles, user header %zu", i.size(), f.size(), d.size(), uh.size()); }
  int put(File& fl) override { zStructArray* z = zstructArrayNew(path.c_str()); auto ci = i; auto cf = f; auto cd = d; auto cu = uh; if (ci.size()) { z->intArray = ci.data(); z->numberIntArray = ci.size(); } if (cf.size()) { z->floatArray = cf.data(); z->numberFloatArray = cf.size(); } if (cd.size()) { z->doubleArray = cd.data(); z->numberDoubleArray = cd.size(); } if (cu.size()) { z->userHeader = cu.data(); z->userHeaderNumber = cu.size(); } int rc = zarrayStore(fl.ifltab, z); zstructFree(z); return rc; }
  bool check(File& fl, const string& key, const char* what) override { zStructArray* z = zstructArrayNew(path.c_str()); struct G { zStructArray* z; ~G() { zstructFree(z); } } g{z}; int rc = zarrayRetrieve(fl.ifltab, z); if (rc) { fail(key, "%s: retrieving the array returned %d", what, rc); return false; }
    if (z->numberIntArray != (int)i.size() || z->numberFloatArray != (int)f.size() || z->numberDoubleArray != (int)d.size()) { fail(key, "%s: %d ints, %d floats, %d doubles; stored %zu, %zu, %zu", what, z->numberIntArray, z->numberFloatArray, z->numberDoubleArray, i.size(), f.size(), d.size()); return false; }
    for (size_t k = 0; k < i.size(); k++) if (z->intArray[k] != i[k]) { fail(key, "%s: int %zu is %d, stored %d", what, k, z->intArray[k], i[k]); return false; } for (size_t k = 0; k < f.size(); k++) if (z->floatArray[k] != f[k]) { fail(key, "%s: float %zu is %.9g, stored %.9g", what, k, z->floatArray[k], f[k]); return false; } for (size_t k = 0; k < d.size(); k++) if (z->doubleArray[k] != d[k]) { fail(key, "%s: double %zu is %.17g, stored %.17g", what, k, z->doubleArray[k], d[k]); return false; }
    state(mix(mix(i.size() * 64 + f.size(), d.size()), uh.size())); return userHeader(z->userHeader, z->userHeaderNumber, uh, key, what); } };

struct Loc : Item { double x = 0, y = 0, z = 0; int cs = 0, id = 0, hu = 0, hd = 0, vu = 0, vd = 0; string tz, sup; int flag = 1;
  static std::shared_ptr<Loc> make(const string& p, int ntz, int nsup, int seed) { auto l = std::make_shared<Loc>(); l->path = p; l->type = 20; l->x = -121.25 - seed; l->y = 38.1 + seed; l->z = seed * 10.3; l->cs = 1 + seed % 5; l->id = 10 + seed; l->hu = 1 + seed % 4; l->hd = 1 + seed % 5; l->vu = 1 + seed % 2; l->vd = 1 + seed % 3; l->tz = chars(ntz, seed); l->sup = chars(nsup, seed + 1); return l; }
  bool empty() const { return x == 0 && y == 0 && z == 0 && hd == 0 && vd == 0 && sup.empty() && tz.empty(); }
  string str() const override { return strf("location %g %g %g, time zone of %zu, supplement of %zu characters", x, y, z, tz.size(), sup.size()); }
  void fillIn(zStructLocation* l) { l->xOrdinate = x; l->yOrdinate = y; l->zOrdinate = z; l->coordinateSystem = cs; l->coordinateID = id; l->horizontalUnits = hu; l->horizontalDatum = hd; l->verticalUnits = vu; l->verticalDatum = vd; if (tz.size()) { l->timeZoneName = dup(tz); l->allocated[zSTRUCT_timeZoneName] = 1; } if (sup.size()) { l->supplemental = dup(sup); l->allocated[zSTRUCT_otherInformation] = 1; } }
  int put(File& f) override { zStructLocation* l = zstructLocationNew(path.c_str()); fillIn(l); int rc = zlocationStore(f.ifltab, l, flag); zstructFree(l); return rc; }
  bool same(zStructLocation* l, const string& key, const char* what) { if (l->xOrdinate != x || l->yOrdinate != y || l->zOrdinate != z) { fail(key, "%s: coordinates %.17g %.17g %.17g, stored %.17g %.17g %.17g", what, l->xOrdinate, l->yOrdinate, l->zOrdinate, x, y, z); return false; }
    if (l->coordinateSystem != cs || l->coordinateID != id || l->horizontalUnits != hu || l->horizontalDatum != hd || l->verticalUnits != vu || l->verticalDatum != vd) { fail(key, "%s: coordinate system, id, units, datum %d %d %d %d %d %d, stored %d %d %d %d %d %d", what, l->coordinateSystem, l->coordinateID, l->horizontalUnits, l->horizontalDatum, l->verticalUnits, l->verticalDatum, cs, id, hu, hd, vu, vd); return false; }
    string t = l->timeZoneName ? l->timeZoneName : "", s = l->supplemental ? l->supplemental : ""; if (t != tz) { fail(key, "%s: time zone '%s', stored '%s'", what, show(t).c_str(), show(tz).c_str()); return false; } if (s != sup) { fail(key, "%s: supplemental information '%s' (%zu), stored '%s' (%zu)", what, show(s).c_str(), s.size(), show(sup).c_str(), sup.size()); return false; } state(mix(mix(tz.size() * 128 + sup.size(), id), (uint64_t)(x * 1000))); return true; }
  bool check(File& f, const string& key, const char* what) override { return checkVia(f, path, key, what); }
  bool checkVia(File& f, const string& p, const string& key, const char* what) { zStructLocation* l = zstructLocationNew(p.c_str()); struct G { zStructLocation* l; ~G() { zstructFree(l); } } g{l}; int rc = zlocationRetrieve(f.ifltab, l); if (rc) { fail(key, "%s: retrieving the location returned %d", what, rc); return false; } return same(l, key, what); } };

struct Grid : Item { int nx = 1, ny = 1, comp = 1, dt = 0, rawOff = 0, isInt = 0, isTs = 0, llx = 0, lly = 0, srsType = 0; float cell = 0, x0 = 0, y0 = 0, nul = 0, mn = 0, mx = 0, mean = 0; string units, source, srs, def, tz; vector<float> lim, data; vector<int> num;
  static std::shared_ptr<Grid> make(const string& p, int type, int nx, int ny, int comp, int ranges, int pattern, int slen, int seed) { auto g = std::make_shared<Grid>(); g->path = p; g->type = type; g->nx = nx; g->ny = ny; g->comp = comp; g->dt = seed % 6; g->rawOff = -8 * 3600000 + seed; g->isInt = seed & 1; g->isTs = 1 - (seed & 1); g->llx = -seed - 5; g->lly = seed + 7; g->srsType = seed % 3; g->cell = 2000.5f + seed; g->x0 = -1.5f * seed; g->y0 = 0.25f * seed; g->nul = -3.4028234e38f; g->mn = -1.5f - seed; g->mx = 99.25f + seed; g->mean = 10.1f * seed; g->units = chars(slen, seed); g->source = chars((slen * 3) % 7, seed + 1); g->srs = chars((slen + 5) % 9, seed + 2); g->def = chars(slen * 17 % 301, seed + 3); g->tz = chars((slen + 2) % 6, seed + 4);
    for (auto* s : {&g->units, &g->source, &g->srs, &g->def, &g->tz}) for (auto& c : *s) if (c == '\n') c = '_'; for (int k = 0; k < ranges; k++) { g->lim.push_back(k * 1.1f - 2 + seed); g->num.push_back(nx * ny - k); } uint64_t r = 88172645463325252ull + seed; for (int k = 0; k < nx * ny; k++) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; float v = pattern == 0 ? 7.5f : pattern == 1 ? k * 0.5f + seed : pattern == 2 ? (k % 3 ? g->nul : 1.0f * k) : (float)(r % 1000003) / 7.0f; g->data.push_back(v); } return g; }
  string str() const override { return strf("grid type %d of %d x %d, %s, %zu ranges, strings of %zu.. characters", type, nx, ny, comp == 26 ? "compressed" : "plain", lim.size(), units.size()); }
  int put(File& f) override { zStructSpatialGrid* g = zstructSpatialGridNew(path.c_str()); g->_structVersion = -100; g->_type = type; g->_version = 1; g->_dataUnits = dup(units); g->_dataType = dt; g->_dataSource = dup(source); g->_lowerLeftCellX = llx; g->_lowerLeftCellY = lly; g->_numberOfCellsX = nx; g->_numberOfCellsY = ny; g->_cellSize = cell; g->_compressionMethod = comp; g->_srsName = dup(srs); g->_srsDefinitionType = srsType; g->_srsDefinition = dup(def); g->_xCoordOfGridCellZero = x0; g->_yCoordOfGridCellZero = y0; g->_nullValue = nul; g->_timeZoneID = dup(tz); g->_timeZoneRawOffset = rawOff; g->_isInterval = isInt; g->_isTimeStamped = isTs; g->_numberOfRanges = lim.size(); g->_storageDataType = 0;
    auto fl = [](float v) { float* p = (float*)malloc(4); *p = v; return (void*)p; }; g->_maxDataValue = fl(mx); g->_minDataValue = fl(mn); g->_meanDataValue = fl(mean); auto cp = [](const void* s, size_t n) { void* p = malloc(n ? n : 4); memcpy(p, s, n); return p; }; g->_rangeLimitTable = cp(lim.data(), lim.size() * 4); g->_numberEqualOrExceedingRangeLimit = (int*)cp(num.data(), num.size() * 4); g->_data = cp(data.data(), data.size() * 4); int rc = zspatialGridStore(f.ifltab, g); zstructFree(g); return rc; }
  bool check(File& f, const string& key, const char* what) override { return check2(f, key, what, true) && check2(f, key, what, false); }
  bool check2(File& f, const string& key, const char* what, bool withData) { zStructSpatialGrid* g = zstructSpatialGridNew(path.c_str()); struct G { zStructSpatialGrid* g; ~G() { zstructFree(g); } } gd{g}; int rc = zspatialGridRetrieve(f.ifltab, g, withData); if (rc) { fail(key, "%s: retrieving the grid%s returned %d", what, withData ? "" : " without data", rc); return false; }
    int A[] = {g->_type, g->_dataType, g->_lowerLeftCellX, g->_lowerLeftCellY, g->_numberOfCellsX, g->_numberOfCellsY, g->_compressionMethod, g->_srsDefinitionType, g->_timeZoneRawOffset, g->_isInterval, g->_isTimeStamped, g->_numberOfRanges, g->_storageDataType, g->_structVersion}, B[] = {type, dt, llx, lly, nx, ny, comp, srsType, rawOff, isInt, isTs, (int)lim.size(), 0, -100}; const char* N[] = {"type", "data type", "lower left x", "lower left y", "columns", "rows", "compression", "definition type", "time zone offset", "interval flag", "time stamp flag", "number of ranges", "storage type", "structure version"}; for (int k = 0; k < 14; k++) if (A[k] != B[k]) { fail(key, "%s: grid %s %d, stored %d", what, N[k], A[k], B[k]); return false; }
    auto s = [](const char* p) { return string(p ? p : "(null)"); }; string units = trim(this->units), source = trim(this->source), srs = trim(this->srs), def = trim(this->def), tz = trim(this->tz); if (s(g->_dataUnits) != units || s(g->_dataSource) != source || s(g->_srsName) != srs || s(g->_srsDefinition) != def || s(g->_timeZoneID) != tz) { fail(key, "%s: units '%s', source '%s', reference system '%s', definition of %zu, time zone '%s'; stored '%s', '%s', '%s', %zu, '%s'", what, s(g->_dataUnits).c_str(), s(g->_dataSource).c_str(), s(g->_srsName).c_str(), s(g->_srsDefinition).size(), s(g->_timeZoneID).c_str(), units.c_str(), source.c_str(), srs.c_str(), def.size(), tz.c_str()); return false; }
    if (g->_cellSize != cell || g->_xCoordOfGridCellZero != x0 || g->_yCoordOfGridCellZero != y0 || g->_nullValue != nul) { fail(key, "%s: cell size %g, origin %g %g, null value %g; stored %g, %g %g, %g", what, g->_cellSize, g->_xCoordOfGridCellZero, g->_yCoordOfGridCellZero, g->_nullValue, cell, x0, y0, nul); return false; }
    if (!g->_minDataValue || *(float*)g->_minDataValue != mn || *(float*)g->_maxDataValue != mx || *(float*)g->_meanDataValue != mean) { fail(key, "%s: minimum, maximum or mean differ", what); return false; } for (size_t k = 0; k < lim.size(); k++) if (((float*)g->_rangeLimitTable)[k] != lim[k] || g->_numberEqualOrExceedingRangeLimit[k] != num[k]) { fail(key, "%s: range %zu is %g (%d), stored %g (%d)", what, k, ((float*)g->_rangeLimitTable)[k], g->_numberEqualOrExceedingRangeLimit[k], lim[k], num[k]); return false; }
    if (!withData) { if (g->_data) { fail(key, "%s: cells delivered although only the description was asked for", what); return false; } return true; } if (!g->_data) { fail(key, "%s: no cells delivered", what); return false; } for (size_t k = 0; k < data.size(); k++) if (memcmp((float*)g->_data + k, &data[k], 4)) { fail(key, "%s: cell %zu of %zu is %g, stored %g", what, k, data.size(), ((float*)g->_data)[k], data[k]); return false; } state(hashBytes(data.data(), data.size() * 4, nx * 64 + comp)); return true; } };

struct Tin : Item { int n = 1, srsType = 0; vector<float> x, y, v; vector<int> pt, nc, con; string label, s[6]; float lim[8];
  static std::shared_ptr<Tin> make(const string& p, int n, int conn, int nlab, int slen, int seed) { auto t = std::make_shared<Tin>(); t->path = p; t->type = 450; t->n = n; t->srsType = seed % 4; for (int k = 0; k < n; k++) { t->x.push_back(k * 1.5f + seed); t->y.push_back(-k * 2.5f + seed); t->v.push_back(k * 100.25f + seed); t->pt.push_back(k % 3); t->nc.push_back(k % (conn + 1)); } for (int k = 0; k < conn; k++) t->con.push_back(k * 3 + seed); t->label = chars(nlab, seed); for (int k = 0; k < 6; k++) { t->s[k] = chars((slen + k * 3) % 10 + (k == 0 ? slen * 13 % 200 : 0), seed + k); } for (int k = 0; k < 8; k++) t->lim[k] = k * 1.1f + seed; return t; }
  string str() const override { return strf("TIN of %d points, %zu connections, label of %zu characters, strings of %zu..", n, con.size(), label.size(), s[1].size()); }
  int put(File& f) override { zStructSpatialTin* z = zstructSpatialTinNew(path.c_str()); string c[6]; for (int k = 0; k < 6; k++) c[k] = s[k]; z->SpatialReferenceSystem = &c[0][0]; z->SRSName = &c[1][0]; z->SRSUnits = &c[2][0]; z->units = &c[3][0]; z->type = &c[4][0]; z->timeZoneName = &c[5][0]; z->SRSType = srsType; z->slendernessRatio = lim[0]; z->minXCoordinate = lim[1]; z->minYCoordinate = lim[2]; z->maxXCoordinate = lim[3]; z->maxYCoordinate = lim[4]; z->minValue = lim[5]; z->meanValue = lim[6]; z->maxValue = lim[7];
    auto cx = x, cy = y, cv = v; auto cp = pt, cn = nc, cc = con; vector<char> lb(label.begin(), label.end()); z->numberPoints = n; z->connectTableLen = con.size(); z->pointLabelLen = label.size(); z->xCoordinate = cx.data(); z->yCoordinate = cy.data(); z->value = cv.data(); z->pointType = cp.data(); z->numberConnections = cn.data(); z->connectTo = cc.size() ? cc.data() : nullptr; z->pointLabel = lb.size() ? lb.data() : nullptr; int rc = zspatialTinStore(f.ifltab, z); zstructFree(z); return rc; }
  bool check(File& f, const string& key, const char* what) override { return check2(f, key, what, true) && check2(f, key, what, false); }
  bool check2(File& f, const string& key, const char* what, bool withData) { zStructSpatialTin* z = zstructSpatialTinNew(path.c_str()); struct G { zStructSpatialTin* z; ~G() { zstructFree(z); } } g{z}; int rc = zspatialTinRetrieve(f.ifltab, z, withData); if (rc) { fail(key, "%s: retrieving the TIN returned %d", what, rc); return false; }
    if (z->numberPoints != n || z->connectTableLen != (int)con.size() || z->pointLabelLen != (int)label.size() || z->SRSType != srsType) { fail(key, "%s: %d points, %d connections, %d label characters, reference type %d; stored %d, %zu, %zu, %d", what, z->numberPoints, z->connectTableLen, z->pointLabelLen, z->SRSType, n, con.size(), label.size(), srsType); return false; }
    float L[] = {z->slendernessRatio, z->minXCoordinate, z->minYCoordinate, z->maxXCoordinate, z->maxYCoordinate, z->minValue, z->meanValue, z->maxValue}; for (int k = 0; k < 8; k++) if (L[k] != lim[k]) { fail(key, "%s: limit %d is %g, stored %g", what, k, L[k], lim[k]); return false; } const char* S[] = {z->SpatialReferenceSystem, z->SRSName, z->SRSUnits, z->units, z->type, z->timeZoneName}; for (int k = 0; k < 6; k++) if (string(S[k] ? S[k] : "(null)") != trim(s[k])) { fail(key, "%s: description %d is '%s', stored '%s'", what, k, S[k] ? show(S[k]).c_str() : "(null)", show(s[k]).c_str()); return false; }
    if (!withData) return true; for (int k = 0; k < n; k++) if (!z->xCoordinate || z->xCoordinate[k] != x[k] || z->yCoordinate[k] != y[k] || z->value[k] != v[k] || !z->pointType || z->pointType[k] != pt[k] || z->numberConnections[k] != nc[k]) { fail(key, "%s: point %d differs from the one stored", what, k); return false; } for (size_t k = 0; k < con.size(); k++) if (!z->connectTo || z->connectTo[k] != con[k]) { fail(key, "%s: connection %zu differs from the one stored", what, k); return false; } if (label.size() && (!z->pointLabel || string(z->pointLabel, label.size()) != label)) { fail(key, "%s: point labels '%s', stored '%s'", what, z->pointLabel ? show(z->pointLabel).c_str() : "(null)", show(label).c_str()); return false; } state(mix(n * 64 + con.size(), label.size())); return true; } };

struct Blob : Item { string bytes; string before; // before: what the output file held earlier
  static std::shared_ptr<Blob> make(const string& p, int n, int seed, int nb = 0) { auto b = std::make_shared<Blob>(); b->path = p; b->type = 600; for (int k = 0; k < n; k++) b->bytes += (char)((k * 7 + seed * 13 + k / 256) & 255); b->before = chars(nb, seed); return b; }
  string str() const override { return strf("file of %zu bytes", bytes.size()); }
  int put(File& f) override { vfs::put("/mc/in.bin", bytes); int rc = zbinaryStoreFromFile(f.ifltab, path.c_str(), "/mc/in.bin"); vfs::del("/mc/in.bin"); return rc; }
  bool check(File& f, const string& key, const char* what) override { TmpFile t; t.put(before); int rc = zbinaryRetrieveToFile(f.ifltab, path.c_str(), t.path().c_str()); if (rc) { fail(key, "%s: retrieving the file returned %d", what, rc); return false; } string g = t.get(); if (g != bytes) { size_t k = 0; while (k < g.size() && k < bytes.size() && g[k] == bytes[k]) k++; fail(key, "%s: file of %zu bytes, stored %zu; first difference at byte %zu", what, g.size(), bytes.size(), k); return false; } state(mix(bytes.size(), 600)); return true; } };

struct TextFile : Item { string text, before;
  static std::shared_ptr<TextFile> make(const string& p, const string& t, int nb) { auto x = std::make_shared<TextFile>(); x->path = p; x->type = 300; x->text = t; x->before = chars(nb, 5); return x; }
  string str() const override { return strf("text file of %zu characters", text.size()); }
  int put(File& f) override { TmpFile t; t.put(text); return ztextStoreFromFile(f.ifltab, path.c_str(), t.path().c_str()); }
  bool check(File& f, const string& key, const char* what) override { TmpFile t; t.put(before); int rc = ztextRetrieveToFile(f.ifltab, path.c_str(), t.path().c_str()); if (rc) { fail(key, "%s: retrieving the text file returned %d", what, rc); return false; } string g = t.get(); if (g != text) { size_t k = 0; while (k < g.size() && k < text.size() && g[k] == text[k]) k++; fail(key, "%s: text file of %zu characters, stored %zu; first difference at %zu", what, g.size(), text.size(), k); return false; } state(hashBytes(text.data(), text.size(), 1)); return true; } };
}
