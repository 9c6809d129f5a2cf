#pragma once
#include "ops.h"
// --- operations that may be refused. must: always refused; else: whenever refused, without a trace
static vector<Bad> bads() {
  vector<Bad> b; auto must = [&](const string& n, std::function<int(File&)> r) { b.push_back({n, true, r}); }; auto may = [&](const string& n, std::function<int(File&)> r) { b.push_back({n, false, r}); };
  // records that are not there
  for (auto p : {NONE, GONE, MOVED}) { string w = p == NONE ? "a record that never was" : p == GONE ? "a deleted record" : "a record renamed away";
    must("deleting " + w, [=](File& f) { return zdelete(f.ifltab, p); }); must("renaming " + w, [=](File& f) { return zrename(f.ifltab, p, FRESH); }); must("renaming " + w + " to one that exists", [=](File& f) { return zrename(f.ifltab, p, TX); }); must("duplicating " + w, [=](File& f) { return zduplicateRecord(f.ifltab, p, FRESH); }); must("duplicating " + w + " over one that exists", [=](File& f) { return zduplicateRecord(f.ifltab, p, AR); });
    must("copying " + w, [=](File& f) { return zcopyRecord(f.ifltab, f.ifltab, p, FRESH); }); must("an alias of " + w, [=](File& f) { return zaliasAdd(f.ifltab, p, FRESH); }); must("storing one curve of " + w, [=](File& f) { return pdRaw(f, p, 3, 1, true, 0, 0, 0, 1, 1); }); must("removing the alias " + w, [=](File& f) { return zaliasRemove(f.ifltab, p); });
    must("retrieving text " + w, [=](File& f) { zStructText* z = zstructTextNew(p); int rc = ztextRetrieve(f.ifltab, z); zstructFree(z); return rc; }); }
  for (auto p : {NONE, MOVED, TX}) must(string("undeleting ") + p, [=](File& f) { return zundelete(f.ifltab, p); });
  must("copying a missing record of another file", [=](File& f) { return zcopyRecord(other->ifltab, f.ifltab, NONE, FRESH); }); must("copying a missing record of another file over one", [=](File& f) { return zcopyRecord(other->ifltab, f.ifltab, NONE, TX); }); must("an alias with the name of a record", [=](File& f) { return zaliasAdd(f.ifltab, TX, AR); });
  must("text of a file that is not there", [=](File& f) { return ztextStoreFromFile(f.ifltab, FRESH, "/mc/none.txt"); }); must("embedding a file that is not there", [=](File& f) { return zbinaryStoreFromFile(f.ifltab, FRESH, "/mc/none.bin"); }); must("embedding a file that is not there over another", [=](File& f) { return zbinaryStoreFromFile(f.ifltab, BL, "/mc/none.bin"); });
  // records of another type
  must("text over a series", [=](File& f) { return put(f, 0, SF, 3); }); must("arrays over paired data", [=](File& f) { return put(f, 2, PA, 3); }); must("paired data over a grid", [=](File& f) { return put(f, 7, GR, 3); }); must("a grid over a text", [=](File& f) { return put(f, 9, TX, 3); }); must("a TIN over arrays", [=](File& f) { return put(f, 11, AR, 3); }); must("a file over a TIN", [=](File& f) { return put(f, 12, TI, 3); }); must("a copied record over a file", [=](File& f) { return put(f, 14, BL, 3); }); must("a duplicate over a series", [=](File& f) { return put(f, 15, SI, 3); });
  for (auto p : {TX, AR, SF, SI, GR, TI, BL}) { must(string("one curve of ") + p, [=](File& f) { return pdRaw(f, p, 3, 1, true, 0, 0, 0, 1, 1); }); must(string("some ordinates of ") + p, [=](File& f) { return pdRaw(f, p, 3, 1, true, 0, 1, 2, 0, 0); }); }
  must("retrieving a text as paired data", [=](File& f) { zStructPairedData* z = zstructPdNew(TX); int rc = zpdRetrieve(f.ifltab, z, 0); zstructFree(z); return rc; }); must("retrieving a series as text", [=](File& f) { zStructText* z = zstructTextNew(SF); int rc = ztextRetrieve(f.ifltab, z); zstructFree(z); return rc; }); must("retrieving a text as a grid", [=](File& f) { zStructSpatialGrid* z = zstructSpatialGridNew(TX); int rc = zspatialGridRetrieve(f.ifltab, z, true); zstructFree(z); return rc; }); must("retrieving paired data as arrays", [=](File& f) { zStructArray* z = zstructArrayNew(PA); int rc = zarrayRetrieve(f.ifltab, z); zstructFree(z); return rc; }); must("retrieving a series that is not there", [=](File& f) { zStructTimeSeries* z = zstructTsNewTimes("/NO/SUCH/C//1Hour/F/", "10Dec2001", "0100", "11Dec2001", "0100"); int rc = ztsRetrieve(f.ifltab, z, 0, 0, 0); zstructFree(z); return rc; });
  // pathnames that are not
  const string longPart(140, 'L'), longPath = "/" + string(120, 'A') + "/" + string(120, 'B') + "/" + string(120, 'C') + "/" + string(60, 'D') + "/E/F/"; static vector<string>* paths = nullptr; if (!paths) paths = new vector<string>{"", "no slashes at all", "/A/B/C/D/E/F", "A/B/C/D/E/F/", "/A/B/C/D/E/", "/A/B/C/D/E/F/G/", "/" + longPart + "/B/C/D/E/F/", longPath, "/A/B/C/\x01/E/F/"};
  for (auto& q : *paths) { const char* p = q.c_str(); string n = "'" + q.substr(0, 24) + (q.size() > 24 ? strf("' of %zu characters", q.size()) : string("'")); for (int k : {0, 2, 3, 5, 8, 9, 11, 12}) may(string(KIND[k].name) + " at " + n, [=](File& f) { return put(f, k, p, 3); }); may("renaming to " + n, [=](File& f) { return zrename(f.ifltab, TX, p); }); may("duplicating to " + n, [=](File& f) { return zduplicateRecord(f.ifltab, TX, p); }); may("copying to " + n, [=](File& f) { return zcopyRecord(other->ifltab, f.ifltab, "/O/O/O///O/", p); }); must("deleting " + n, [=](File& f) { return zdelete(f.ifltab, p); }); must("undeleting " + n, [=](File& f) { return zundelete(f.ifltab, p); }); may("a location at " + n, [=](File& f) { return Loc::make(p, 3, 4, 2)->put(f); }); may("an alias " + n, [=](File& f) { return zaliasAdd(f.ifltab, TX, p); }); }
  // series that make no sense
  for (bool dbl : {false, true}) for (auto p : {SF, "/R/NEW/C/01Dec2001/1Hour/F/"}) { string w = p == SF ? (dbl ? " (doubles, existing)" : " (floats, existing)") : dbl ? " (doubles)" : " (floats)";
    must("no values" + w, [=](File& f) { return tsRaw(f, p, "10Dec2001", "0100", 0, true, 0, "cfs", "INST-VAL", dbl); }); must("a negative number of values" + w, [=](File& f) { return tsRaw(f, p, "10Dec2001", "0100", -3, true, 0, "cfs", "INST-VAL", dbl); }); must("values that are null" + w, [=](File& f) { return tsRaw(f, p, "10Dec2001", "0100", 5, false, 0, "cfs", "INST-VAL", dbl); }); for (auto d : {"", "32Dec2001", "Nonsense", "10Zzz2001"}) must(string("the date '") + d + "'" + w, [=](File& f) { return tsRaw(f, p, d, "0100", 5, true, 0, "cfs", "INST-VAL", dbl); });
    may("the time '9999'" + w, [=](File& f) { return tsRaw(f, p, "10Dec2001", "9999", 5, true, 0, "cfs", "INST-VAL", dbl); }); for (int fl : {-1, 5, 99}) may(strf("flag %d", fl) + w, [=](File& f) { return tsRaw(f, p, "10Dec2001", "0100", 5, true, fl, "cfs", "INST-VAL", dbl); }); }
  for (auto e : {"", "9Hour", "1Fortnight", "Hour", "IR-Week", "IR-Month"}) { const char* q = strdup((string("/R/NEW/C/01Dec2001/") + e + "/F/").c_str()); must(string("a regular series with interval '") + e + "'", [=](File& f) { return tsRaw(f, q, "10Dec2001", "0100", 5, true, 0); }); }
  for (auto e : {"", "9Hour", "IR-Week"}) { const char* q = strdup((string("/R/NEW/C/01Dec2001/") + e + "/F/").c_str()); must(string("an irregular series with interval '") + e + "'", [=](File& f) { return tsIrr(f, q, {10, 20, 30}, true, 0, 60, "10Dec2001"); }); }
  for (auto p : {SI, "/R/NEW/C/01Dec2001/IR-Month/F/"}) { string w = p == SI ? " (existing)" : ""; must("irregular times that go back" + w, [=](File& f) { return tsIrr(f, p, {10, 30, 20}, true, 0, 60, "10Dec2001"); }); must("no irregular values" + w, [=](File& f) { return tsIrr(f, p, {}, true, 0, 60, "10Dec2001"); }); must("irregular values that are null" + w, [=](File& f) { return tsIrr(f, p, {10, 20}, false, 0, 60, "10Dec2001"); }); may("irregular times without a base" + w, [=](File& f) { return tsIrr(f, p, {10, 20}, true, 0, 60, nullptr); }); may("an irregular flag 9" + w, [=](File& f) { return tsIrr(f, p, {10, 20}, true, 9, 60, "10Dec2001"); }); may("irregular times of days" + w, [=](File& f) { return tsIrr(f, p, {10, 20}, true, 0, 86400, "10Dec2001"); }); may("an irregular base that is no date" + w, [=](File& f) { return tsIrr(f, p, {10, 20}, true, 0, 60, "Nonsense"); }); }
  // everything else that makes no sense
  for (auto p : {PA, "/R/NEW/STAGE-FLOW///F/"}) { string w = p == PA ? " (existing)" : ""; must("paired data without ordinates" + w, [=](File& f) { return pdRaw(f, p, 0, 1, true, 0); }); must("paired data without curves" + w, [=](File& f) { return pdRaw(f, p, 3, 0, true, 0); }); must("paired data that is null" + w, [=](File& f) { return pdRaw(f, p, 3, 1, false, 0); }); }
  must("no pathname", [=](File& f) { zStructText* z = zstructTextNew(FRESH); free(z->pathname); z->pathname = nullptr; char t[] = "text"; z->textString = t; z->numberTextChars = 4; int rc = ztextStore(f.ifltab, z); zstructFree(z); return rc; }); must("no text", [=](File& f) { zStructText* z = zstructTextNew(FRESH); int rc = ztextStore(f.ifltab, z); zstructFree(z); return rc; }); must("no text over a text", [=](File& f) { zStructText* z = zstructTextNew(TX); int rc = ztextStore(f.ifltab, z); zstructFree(z); return rc; });
  may("no arrays", [=](File& f) { zStructArray* z = zstructArrayNew(FRESH); int rc = zarrayStore(f.ifltab, z); zstructFree(z); return rc; });
  must("a null text structure", [=](File& f) { return ztextStore(f.ifltab, nullptr); }); must("a null array structure", [=](File& f) { return zarrayStore(f.ifltab, nullptr); }); must("a null series structure", [=](File& f) { return ztsStore(f.ifltab, nullptr, 0); }); must("a null paired data structure", [=](File& f) { return zpdStore(f.ifltab, nullptr, 0); });
  return b; }
static vector<Bad> readings() { vector<Bad> b; auto must = [&](const string& n, std::function<int(File&)> r) { b.push_back({n, true, r}); };
  must("a text", [](File& f) { zStructText* z = zstructTextNew(TX); int rc = ztextRetrieve(f.ifltab, z); zstructFree(z); return rc; }); must("arrays", [](File& f) { zStructArray* z = zstructArrayNew(AR); int rc = zarrayRetrieve(f.ifltab, z); zstructFree(z); return rc; }); for (auto p : {SF, SI}) for (int fl : {0, -1, -2, -3}) must(strf("the series %s, flag %d", p, fl), [=](File& f) { zStructTimeSeries* z = zstructTsNewTimes(p, "10Dec2001", "0100", "11Dec2001", "0100"); int rc = ztsRetrieve(f.ifltab, z, fl, 0, 0); zstructFree(z); return rc; });
  must("paired data", [](File& f) { zStructPairedData* z = zstructPdNew(PA); int rc = zpdRetrieve(f.ifltab, z, 0); zstructFree(z); return rc; }); must("a grid", [](File& f) { zStructSpatialGrid* z = zstructSpatialGridNew(GR); int rc = zspatialGridRetrieve(f.ifltab, z, true); zstructFree(z); return rc; }); must("a TIN", [](File& f) { zStructSpatialTin* z = zstructSpatialTinNew(TI); int rc = zspatialTinRetrieve(f.ifltab, z, true); zstructFree(z); return rc; }); must("a location", [](File& f) { zStructLocation* z = zstructLocationNew("/R/ONE/X///F/"); int rc = zlocationRetrieve(f.ifltab, z); zstructFree(z); return rc; }); must("an embedded file", [](File& f) { TmpFile t; return zbinaryRetrieveToFile(f.ifltab, BL, t.path().c_str()); }); must("a raw record", [](File& f) { Rec r; return f.read(AR, r); });
  must("a catalogue", [](File& f) { zStructCatalog* c = zstructCatalogNew(); int rc = zcatalog(f.ifltab, nullptr, c, 1); zstructFree(c); return rc > 0 ? 0 : rc < 0 ? rc : -1; }); must("whether a record exists", [](File& f) { return zcheck(f.ifltab, TX); }); must("the type of a record", [](File& f) { int t = zdataType(f.ifltab, TX); return t > 0 ? 0 : -1; }); must("the size of a record", [](File& f) { zStructRecordSize* z = zstructRecordSizeNew(TX); int rc = zgetRecordSize(f.ifltab, z); zstructFree(z); return rc; }); must("the basics of a record", [](File& f) { zStructRecordBasics* z = zstructRecordBasicsNew(TX); int rc = zgetRecordBasics(f.ifltab, z); zstructFree(z); return rc; });
  return b; }
