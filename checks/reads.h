// Every operation that reads, as a function whose result is a text that says all that was read.
#pragma once
#include "ops.h"
#include "hecdss.h"
extern "C" { int zaliasNumber(long long*, const char*); int ztsGetSizes(long long*, zStructTimeSeries*, zStructRecordSize*); char* zlocationPath(const char*); }
namespace reads {
struct Out { string s; Out& n(const char* what, ll v) { s += strf(" %s %lld", what, v); return *this; } Out& d(const char* what, double v) { s += strf(" %s %.17g", what, v); return *this; } Out& t(const char* what, const char* p) { s += strf(" %s '%s'", what, p ? show(p).c_str() : "(null)"); if (p) s += strf("%zu", strlen(p)); return *this; }
  Out& b(const char* what, const void* p, ll n) { if (!p || n <= 0) s += strf(" %s -", what); else s += strf(" %s %lld:%016llx", what, n, (unsigned long long)hashBytes(p, n, 1)); return *this; } };
// order: leaves the order of a sorted catalogue in a file open for writing. mine: says what this handle knows of the file
struct Rd { string name; std::function<string(File&)> run; bool order = false, mine = false; };
static const char* const LONG = "/A/B/LONG//1Hour/F/"; static const char* const LIRR = "/A/B/LONG//IR-Month/F/"; static const char* const ALIAS = "/ANOTHER/NAME/X///F/"; static const char* const ALIAS2 = "/YET/ANOTHER/X///F/"; static const char* const COLL = "/R/COLL/FLOW/01Dec2001/1Hour/C:000001|RUN/";
static string tsOut(zStructTimeSeries* t, int rc) { Out o; o.n("returned", rc); if (rc) return o.s; int n = t->numberValues; o.n("n", n).n("from", t->startJulianDate).n("", t->startTimeSeconds).n("to", t->endJulianDate).n("", t->endTimeSeconds).n("gran", t->timeGranularitySeconds).n("base", t->julianBaseDate).n("int", t->timeIntervalSeconds).n("off", t->timeOffsetSeconds).n("size", t->sizeEachValueRead).n("prec", t->precision).t("units", t->units).t("type", t->type).t("tz", t->timeZoneName).n("dtype", t->dataType).n("q", t->qualityElementSize).n("i", t->inoteElementSize).n("c", t->cnotesLengthTotal);
  o.b("times", t->times, 4ll * n).b("floats", t->floatValues, 4ll * n).b("doubles", t->doubleValues, 8ll * n).b("quality", t->quality, 4ll * n * t->qualityElementSize).b("notes", t->inotes, 4ll * n * t->inoteElementSize).b("cnotes", t->cnotes, t->cnotesLengthTotal).b("header", t->userHeader, 4ll * t->userHeaderNumber).n("written", t->lastWrittenTime).t("program", t->programName).n("first", t->dateOfFirstRecFound); o.n("depths", t->profileDepthsNumber); return o.s; }
static string ts(File& f, const char* p, const char* d1, const char* t1, const char* d2, const char* t2, int flag, int dbl, int q, bool all = false) { transition(); zStructTimeSeries* t = d1 ? zstructTsNewTimes(p, d1, t1, d2, t2) : zstructTsNew(p); t->boolRetrieveAllTimes = all; int rc = ztsRetrieve(f.ifltab, t, flag, dbl, q); string s = tsOut(t, rc); zstructFree(t); return s; }
static string pd(File& f, const char* p, int dbl, int c1 = 0, int c2 = 0, int o1 = 0, int o2 = 0) { transition(); zStructPairedData* z = zstructPdNew(p); z->startingCurve = c1; z->endingCurve = c2; z->startingOrdinate = o1; z->endingOrdinate = o2; int rc = zpdRetrieve(f.ifltab, z, dbl); Out o; o.n("returned", rc); if (!rc) { ll c = z->numberCurvesInStruct, r = z->numberOrdinatesInStruct; o.n("curves", z->numberCurves).n("ordinates", z->numberOrdinates).n("of", c).n("by", r).n("size", z->sizeEachValueRead).t("ui", z->unitsIndependent).t("ti", z->typeIndependent).t("ud", z->unitsDependent).t("td", z->typeDependent).b("labels", z->labels, z->labelsLength).b("fo", z->floatOrdinates, 4 * r).b("do", z->doubleOrdinates, 8 * r).b("fv", z->floatValues, 4 * c * r).b("dv", z->doubleValues, 8 * c * r).n("dtype", z->dataType).n("written", z->lastWrittenTime).n("xp", z->xprecision).n("yp", z->yprecision); } zstructFree(z); return o.s; }
static string text(File& f, const char* p) { transition(); zStructText* z = zstructTextNew(p); int rc = ztextRetrieve(f.ifltab, z); Out o; o.n("returned", rc); if (!rc) o.b("text", z->textString, z->numberTextChars).b("table", z->textTable, z->numberTableChars).b("labels", z->labels, z->numberLabelChars).n("rows", z->numberRows).n("cols", z->numberColumns).n("type", z->dataType).n("written", z->lastWrittenTime); zstructFree(z); return o.s; }
static string arr(File& f, const char* p) { transition(); zStructArray* z = zstructArrayNew(p); int rc = zarrayRetrieve(f.ifltab, z); Out o; o.n("returned", rc); if (!rc) o.b("ints", z->intArray, 4ll * z->numberIntArray).b("floats", z->floatArray, 4ll * z->numberFloatArray).b("doubles", z->doubleArray, 8ll * z->numberDoubleArray).b("header", z->userHeader, 4ll * z->userHeaderNumber).n("type", z->dataType).n("written", z->lastWrittenTime); zstructFree(z); return o.s; }
static string loc(File& f, const char* p) { transition(); zStructLocation* z = zstructLocationNew(p); int rc = zlocationRetrieve(f.ifltab, z); Out o; o.n("returned", rc); if (!rc) o.d("x", z->xOrdinate).d("y", z->yOrdinate).d("z", z->zOrdinate).n("cs", z->coordinateSystem).n("id", z->coordinateID).n("hu", z->horizontalUnits).n("hd", z->horizontalDatum).n("vu", z->verticalUnits).n("vd", z->verticalDatum).t("tz", z->timeZoneName).t("sup", z->supplemental); zstructFree(z); return o.s; }
static string gridOut(File& f, const char* p, bool data) { transition(); zStructSpatialGrid* g = zstructSpatialGridNew(p); int rc = zspatialGridRetrieve(f.ifltab, g, data); Out o; o.n("returned", rc); if (!rc) { o.n("type", g->_type).n("nx", g->_numberOfCellsX).n("ny", g->_numberOfCellsY).n("llx", g->_lowerLeftCellX).n("lly", g->_lowerLeftCellY).d("cell", g->_cellSize).n("comp", g->_compressionMethod).t("units", g->_dataUnits).t("source", g->_dataSource).t("srs", g->_srsName).t("def", g->_srsDefinition).t("tz", g->_timeZoneID).n("ranges", g->_numberOfRanges).b("limits", g->_rangeLimitTable, 4ll * g->_numberOfRanges).b("counts", g->_numberEqualOrExceedingRangeLimit, 4ll * g->_numberOfRanges); if (data) o.b("data", g->_data, 4ll * g->_numberOfCellsX * g->_numberOfCellsY); if (g->_maxDataValue) o.d("max", *(float*)g->_maxDataValue); if (g->_meanDataValue) o.d("mean", *(float*)g->_meanDataValue); } zstructFree(g); return o.s; }
static string tin(File& f, const char* p, bool data) { transition(); zStructSpatialTin* z = zstructSpatialTinNew(p); int rc = zspatialTinRetrieve(f.ifltab, z, data); Out o; o.n("returned", rc); if (!rc) { o.n("points", z->numberPoints).n("conn", z->connectTableLen).n("label", z->pointLabelLen).t("srs", z->SRSName).t("units", z->units).d("max", z->maxValue); if (data) o.b("x", z->xCoordinate, 4ll * z->numberPoints).b("v", z->value, 4ll * z->numberPoints).b("to", z->connectTo, 4ll * z->connectTableLen).b("labels", z->pointLabel, z->pointLabelLen); } zstructFree(z); return o.s; }
static string blob(File& f, const char* p) { transition(); TmpFile t; int rc = zbinaryRetrieveToFile(f.ifltab, p, t.path().c_str()); string g = t.get(); Out o; o.n("returned", rc).b("bytes", g.data(), g.size()); return o.s; }
static string textFile(File& f, const char* p) { transition(); TmpFile t; int rc = ztextRetrieveToFile(f.ifltab, p, t.path().c_str()); string g = t.get(); Out o; o.n("returned", rc).b("bytes", g.data(), g.size()); return o.s; }
static string raw(File& f, const char* p) { transition(); Rec r; int rc = f.read(p, r); Out o; o.n("returned", rc); if (!rc) { uint64_t h = 0; for (auto* v : {&r.ih, &r.h2, &r.uh, &r.v1, &r.v2, &r.v3}) h = mix(h, hashBytes(v->data(), v->size() * 4, v->size())); o.n("type", r.type).n("hash", h); } return o.s; }
static string cat(File& f, const char* pat, int sort, bool dates = false, bool crc = false, int status = 0, int t1 = 0, int t2 = 0, bool coll = false, ll since = 0) { transition(); zStructCatalog* c = zstructCatalogNew(); c->statusWanted = status; c->typeWantedStart = t1; c->typeWantedEnd = t2; c->boolIncludeDates = dates; c->boolGetCRCvalues = crc; if (since) { c->lastWriteTimeSearch = since; c->lastWriteTimeSearchFlag = 1; } int rc = coll ? zcollectionCat(f.ifltab, pat, c) : zcatalog(f.ifltab, pat, c, sort); Out o; o.n("returned", rc); for (int i = 0; i < c->numberPathnames; i++) { o.t("", c->pathnameList[i]); if (c->recordType) o.n("", c->recordType[i]); if (c->lastWriteTimeRecord) o.n("", c->lastWriteTimeRecord[i]); if (dates && c->startDates) o.n("", c->startDates[i]).n("", c->endDates[i]); if (crc && c->crcValues) o.n("", c->crcValues[i]); } o.n("file", c->lastWriteTimeFile); zstructFree(c); return o.s; }
static vector<Rd> all() { vector<Rd> r; auto add = [&](const string& n, std::function<string(File&)> fn, bool order = false, bool mine = false) { r.push_back({n, fn, order, mine}); };
  for (auto p : {TX, NEWN, GONE, ALIAS, AR, NONE}) add(string("the text ") + p, [=](File& f) { return text(f, p); }); for (auto p : {AR, TX, SRC}) add(string("the arrays ") + p, [=](File& f) { return arr(f, p); });
  struct W { const char* n; const char* d1; const char* t1; const char* d2; const char* t2; }; static const W ws[] = {{"inside", "10Dec2001", "0300", "10Dec2001", "0900"}, {"across months", "25Dec2001", "0100", "12Jan2002", "0100"}, {"before the data", "01Jan1990", "0100", "05Jan1990", "0100"}, {"all of it and more", "01Nov2001", "0100", "01Mar2002", "0100"}};
  for (auto p : {SF, SI, LONG, LIRR}) for (auto& w : ws) for (int fl : {0, -1}) add(strf("the series %s, %s, flag %d", p, w.n, fl), [=](File& f) { return ts(f, p, w.d1, w.t1, w.d2, w.t2, fl, fl ? 2 : 0, 1); });
  for (auto p : {LONG, LIRR, SF}) { add(strf("the whole series %s", p), [=](File& f) { return ts(f, p, nullptr, nullptr, nullptr, nullptr, 0, 2, 1, true); }); add(strf("the range of %s", p), [=](File& f) { int a = 0, b = 0, c = 0, d = 0; int rc = ztsGetDateTimeRange(f.ifltab, p, 1, &a, &b, &c, &d); return strf("returned %d: %d %d %d %d", rc, a, b, c, d); }); add(strf("the dates of %s", p), [=](File& f) { int a = 0, b = 0; int rc = ztsGetDateRange(f.ifltab, p, 1, &a, &b); return strf("returned %d: %d %d", rc, a, b); });
    add(strf("the sizes of %s", p), [=](File& f) { zStructTimeSeries* t = zstructTsNewTimes(p, "01Nov2001", "0100", "01Mar2002", "0100"); zStructRecordSize* z = zstructRecordSizeNew(p); int rc = ztsGetSizes(f.ifltab, t, z); Out o; o.n("returned", rc).n("n", z->numberValues).n("log", z->logicalNumberValues).n("q", z->tsQualityElementSize).n("i", z->tsInotesElementSize).n("size", z->tsValueSize).n("found", z->numberRecordsFound); zstructFree(z); zstructFree(t); return o.s; }); }
  add("paired data", [](File& f) { return pd(f, PA, 0); }); add("paired data as doubles", [](File& f) { return pd(f, PA, 2); }); add("one curve", [](File& f) { return pd(f, PA, 0, 2, 2); }); add("two ordinates of one curve", [](File& f) { return pd(f, PA, 2, 1, 1, 2, 3); }); add("paired data that is not there", [](File& f) { return pd(f, NONE, 0); }); add("a grid", [](File& f) { return gridOut(f, GR, true); }); add("a grid without its data", [](File& f) { return gridOut(f, GR, false); }); add("a TIN", [](File& f) { return tin(f, TI, true); }); add("a TIN without its data", [](File& f) { return tin(f, TI, false); }); add("an embedded file", [](File& f) { return blob(f, BL); }); add("a text to a file", [](File& f) { return textFile(f, TX); }); add("a location", [](File& f) { return loc(f, "/R/ONE/X///F/"); }); add("a location that is not there", [](File& f) { return loc(f, "/NO/SUCH/X///F/"); });
  for (auto p : {AR, SF, GONE, TX}) add(string("the raw record ") + p, [=](File& f) { Rec x; return raw(f, p == SF ? "/A/B/C/01Dec2001/1Hour/F/" : p); });
  add("a catalogue", [](File& f) { return cat(f, nullptr, 0); }); add("a catalogue of the A part", [](File& f) { return cat(f, "/R/*/*/*/*/*/", 0); }); add("a catalogue with dates", [](File& f) { return cat(f, nullptr, 0, true); }); add("a catalogue with checksums", [](File& f) { return cat(f, nullptr, 0, false, true); }); add("a catalogue of deleted records", [](File& f) { return cat(f, nullptr, 0, false, false, 11); }); add("a catalogue of aliases", [](File& f) { return cat(f, nullptr, 0, false, false, 2); }); add("a catalogue of everything", [](File& f) { return cat(f, nullptr, 0, false, false, 100); }); add("a catalogue of series", [](File& f) { return cat(f, nullptr, 0, false, false, 0, 100, 199); }); add("a catalogue of what is new", [](File& f) { return cat(f, nullptr, 0, false, false, 0, 0, 0, false, 1700000002000LL); }); add("a collection", [](File& f) { return cat(f, COLL, 0, false, false, 0, 0, 0, true); });
  add("a sorted catalogue", [](File& f) { return cat(f, nullptr, 1); }, true); add("a sorted catalogue of the A part", [](File& f) { return cat(f, "/R/*/*/*/*/*/", 1); }, true); add("a sorted catalogue with dates", [](File& f) { return cat(f, nullptr, 1, true); }, true);
  for (auto p : {TX, GONE, ALIAS, NONE, MOVED}) { add(string("whether there is ") + p, [=](File& f) { transition(); return strf("%d", zcheck(f.ifltab, p)); }); add(string("the type of ") + p, [=](File& f) { transition(); return strf("%d", zdataType(f.ifltab, p)); }); add(string("when written: ") + p, [=](File& f) { transition(); return strf("%lld", zgetLastWriteTimeRec(f.ifltab, p)); }); add(string("the checksum of ") + p, [=](File& f) { transition(); return strf("%u", zgetDataCRC(f.ifltab, p, 0)); }); }
  for (auto p : {"/R/ONE/Location Info////", "/R/TWO/ARR///F/", SF, SI, PA, GR, TI, BL}) add(string("the type of ") + p, [=](File& f) { transition(); return strf("%d", zdataType(f.ifltab, p)); });
  for (auto p : {TX, SF, PA, NONE, ALIAS}) { add(string("the size of ") + p, [=](File& f) { transition(); zStructRecordSize* z = zstructRecordSizeNew(p); int rc = zgetRecordSize(f.ifltab, z); Out o; o.n("returned", rc); if (!rc) o.n("type", z->dataType).n("n", z->numberValues).n("log", z->logicalNumberValues).n("v1", z->values1Number).n("v2", z->values2Number).n("v3", z->values3Number).n("ih", z->internalHeaderNumber).n("h2", z->header2Number).n("uh", z->userHeaderNumber).n("alloc", z->allocatedSize).n("time", z->lastWriteTimeMillis).t("by", z->programLastWrite).n("curves", z->pdNumberCurves).n("ord", z->pdNumberOrdinates); zstructFree(z); return o.s; });
    add(string("the basics of ") + p, [=](File& f) { transition(); zStructRecordBasics* z = zstructRecordBasicsNew(p); int rc = zgetRecordBasics(f.ifltab, z); Out o; o.n("returned", rc); if (!rc) o.n("type", z->recordType).n("version", z->version).n("n", z->numberValues).n("log", z->logicalNumberValues).n("v1", z->values1Number).n("ih", z->internalHeaderNumber).n("uh", z->userHeaderNumber).n("alloc", z->allocatedSize).n("time", z->recLastWriteTimeMillis).n("created", z->recCreationTimeMillis).n("file", z->fileLastWriteTimeMillis).n("filecreated", z->fileCreationTimeMillis).n("hash", z->tableHash).n("path", z->pathnameHash); zstructFree(z); return o.s; }); }
  for (auto p : {TX, ALIAS, NONE}) add(string("the aliases of ") + p, [=](File& f) { transition(); char* l = nullptr; int n = 0; int rc = zaliasList(f.ifltab, p, &l, &n); Out o; o.n("returned", rc).b("", l, n); if (l) free(l); char q[400] = ""; int r2 = zaliasGetPrimary(f.ifltab, p, q, sizeof q); o.n("primary", r2); if (!r2) o.t("", q); o.n("number", zaliasNumber(f.ifltab, p)); return o.s; });
  for (auto k : {"fsiz", "size", "dsiz", "dead", "maxp", "coll", "expa", "dele", "rena", "maxa", "maxb", "maxc", "maxd", "maxe", "maxf", "sque", "ftim", "fver", "none"}) add(string("the inquiry ") + k, [=](File& f) { transition(); return strf("%lld", zinquire(f.ifltab, k)); }, false, true); for (auto k : {"name", "vers", "fver"}) add(string("the character inquiry ") + k, [=](File& f) { transition(); char c[300] = ""; int n = 0; int rc = zinquireChar(f.ifltab, k, c, sizeof c, &n); return strf("%d '%s' %d", rc, c, n); });
  for (auto k : {"nrec", "npri", "nali"}) add(string("the inquiry ") + k, [=](File& f) { transition(); return strf("%lld", zinquire(f.ifltab, k)); });
  add("when the file was written", [](File& f) { return strf("%lld", zgetLastWriteTimeFile(f.ifltab)); }); add("a check of the file", [](File& f) { transition(); return strf("%d", zcheckFile(f.ifltab)); }); add("a check of its links", [](File& f) { transition(); return strf("%d", zcheckLinks(f.ifltab)); }); add("a check of its pathnames", [](File& f) { transition(); return strf("%d", zcheckPathnames(f.ifltab)); }); add("whether to squeeze", [](File& f) { return strf("%d", zsqueezeNeeded(f.ifltab)); });
  add("a copy of a record", [](File& f) { transition(); vfs::del("/mc/copy.dss"); File o; if (o.open("/mc/copy.dss", 0, 0, 0)) return string("not opened"); int rc = zcopyRecord(f.ifltab, o.ifltab, AR, AR); string s = strf("returned %d", rc) + arr(o, AR); o.close(); vfs::del("/mc/copy.dss"); return s; });
  add("a copy of the file", [](File& f) { transition(); vfs::del("/mc/copy.dss"); File o; if (o.open("/mc/copy.dss", 0, 0, 0)) return string("not opened"); int rc = zcopyFile(f.ifltab, o.ifltab, 0); string s = strf("returned %d", rc); for (auto p : {TX, NEWN}) s += text(o, p); s += ts(o, LONG, nullptr, nullptr, nullptr, nullptr, 0, 2, 1, true) + pd(o, PA, 0) + gridOut(o, GR, true) + tin(o, TI, true) + blob(o, BL); s += strf(" %lld", zinquire(o.ifltab, "npri")); o.close(); vfs::del("/mc/copy.dss"); return s; });
  auto D = [](File& f) { return (dss_file*)f.ifltab; };
  add("the public count", [=](File& f) { transition(); return strf("%d", hec_dss_record_count(D(f))); }); add("the public catalogue", [=](File& f) { transition(); static char b[60 * 400]; int t[60] = {0}; memset(b, 0, sizeof b); int n = hec_dss_catalog(D(f), b, t, "", 60, 394); Out o; o.n("returned", n).b("names", b, sizeof b).b("types", t, sizeof t); return o.s; }, true); add("the public text", [=](File& f) { transition(); char b[100] = ""; int rc = hec_dss_textRetrieve(D(f), TX, b, 99); return strf("%d '%s'", rc, b); }); add("the public range", [=](File& f) { transition(); int a = 0, b = 0, c = 0, d = 0; int rc = hec_dss_tsGetDateTimeRange(D(f), LONG, 1, &a, &b, &c, &d); return strf("%d %d %d %d %d", rc, a, b, c, d); });
  add("the public series", [=](File& f) { transition(); int t[60], q[60], n = 0, j = 0, g = 0; double v[60]; char u[20] = "", ty[20] = "", tz[20] = ""; memset(t, 0, sizeof t); memset(q, 0, sizeof q); memset(v, 0, sizeof v); int rc = hec_dss_tsRetrieve(D(f), LONG, "25Dec2001", "0100", "26Dec2001", "0100", t, v, 50, &n, q, 1, &j, &g, u, 20, ty, 20, tz, 20); Out o; o.n("returned", rc).n("n", n).n("base", j).n("gran", g).t("units", u).t("type", ty).t("tz", tz); if (n > 0 && n <= 50) o.b("t", t, 4 * n).b("v", v, 8 * n).b("q", q, 4 * n); return o.s; });
  return r; }
}
