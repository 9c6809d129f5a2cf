// Catalogs: what they should list, worked out from the stores made and from an independent reading of the file.
#pragma once
#include "stores.h"
#include <dirent.h>
namespace catalog {
using std::string; using std::vector; using cal::ll;
struct Ent { string path; int type = 0, status = 0; ll wrote = 0; int j1 = 0, j2 = 0; ll hash = 0; unsigned crc = 0; };
struct List { int rc = -99; vector<Ent> e; bool dates = false, crcs = false; ll fileTime = 0; };
struct Ask { string pattern; int sort = 0, status = 0, t1 = 0, t2 = 0, flag = 0; ll time = 0; bool dates = false, crc = false, collection = false; };
inline int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
inline void copyList(zStructCatalog* c, List& l, const string& key) {
  l.fileTime = c->lastWriteTimeFile; l.dates = c->startDates && c->endDates; l.crcs = c->crcValues;
  if (c->numberPathnames > 0 && (!c->recordType || !c->pathnameHash || !c->lastWriteTimeRecord)) { fail(key, "the catalog lists %d names without their types, hashes or write times", c->numberPathnames); return; }
  for (int i = 0; i < c->numberPathnames; i++) { if (!c->pathnameList[i]) { fail(key, "entry %d of %d has no name", i + 1, c->numberPathnames); return; } Ent e; e.path = c->pathnameList[i]; e.type = c->recordType[i]; e.hash = c->pathnameHash[i]; e.wrote = c->lastWriteTimeRecord[i]; if (l.dates) { e.j1 = c->startDates[i]; e.j2 = c->endDates[i]; } if (l.crcs) e.crc = c->crcValues[i]; l.e.push_back(e); } }
inline List get(File& f, const Ask& a, const string& key) {
  List l; zStructCatalog* c = zstructCatalogNew(); c->statusWanted = a.status; c->typeWantedStart = a.t1; c->typeWantedEnd = a.t2; c->lastWriteTimeSearch = a.time; c->lastWriteTimeSearchFlag = a.flag; c->boolIncludeDates = a.dates; c->boolGetCRCvalues = a.crc;
  transition(); int before = fds(); l.rc = a.collection ? zcollectionCat(f.ifltab, a.pattern.c_str(), c) : zcatalog(f.ifltab, a.pattern.empty() ? nullptr : a.pattern.c_str(), c, a.sort); int after = fds();
  if (l.rc < 0) { fail(key, "the catalog returned %d", l.rc); zstructFree(c); return l; } if (after != before) fail(key, "the catalog left %d file descriptors open", after - before);
  if (l.rc != c->numberPathnames) fail(key, "the catalog returned %d but lists %d", l.rc, c->numberPathnames); if (!failed()) copyList(c, l, key); zstructFree(c); return l; }
inline vector<string> split(const string& p) { vector<string> v; string s; for (size_t i = 1; i < p.size(); i++) { if (p[i] == '/') { v.push_back(s); s = ""; } else s += p[i]; } return v; }
inline bool partMatches(string part, string pat) { part = upper(part); pat = upper(pat); if (pat == "*") return true; bool lead = pat.size() > 1 && pat[0] == '*', trail = pat.size() > 1 && pat.back() == '*'; if (lead) pat = pat.substr(1); if (trail) pat.pop_back(); size_t n = pat.size(), m = part.size(); if (m < n) return false; if (lead && trail) return part.find(pat) != string::npos; if (lead) return part.substr(m - n) == pat; if (trail) return part.substr(0, n) == pat; return part == pat; }
inline bool member(const string& f, const string& seed) { string a = upper(f), b = upper(seed); auto seq = [](const string& s) -> size_t { return s.size() > 2 && s[0] == 'C' && s[1] == ':' ? s.find('|') : string::npos; }; size_t i = seq(a), j = seq(b); if (i == string::npos || j == string::npos) return a == b; return i == j && a.substr(i) == b.substr(j); }
inline bool matches(const string& path, const string& pat, bool coll = false) { if (pat.empty()) return true; auto a = split(path), b = split(pat); if (a.size() != 6 || b.size() != 6) return false; for (int i = 0; i < 6; i++) if (!(coll && i == 5 ? member(a[i], b[i]) : partMatches(a[i], b[i]))) return false; return true; }
inline bool statusOk(int st, int want) { bool prim = st == 0 || st == 1; if (want == 0) return prim || st == 2; if (want == 1) return prim; if (want == 100) return prim || st == 2 || st == 11 || st == 12; return st == want; }
inline bool timeOk(ll t, const Ask& a) { if (a.time <= 0) return true; return a.flag == -2 ? t < a.time : a.flag == -1 ? t <= a.time : a.flag == 0 ? t == a.time : a.flag == 1 ? t >= a.time : t > a.time; }
// The order of a sorted catalog: A, B and C part; then version, interval and time for series, time and version for grids, the other parts for anything else.
struct Key { int cls; string abc[3]; vector<string> rest; };
inline ll num(const string& date) { ll r = 0; int j = dateToJulian(date.c_str()); r = j; return r; }
inline Key keyOf(const Ent& e) { auto p = split(e.path); Key k; for (int i = 0; i < 3; i++) k.abc[i] = p[i]; auto pad = [](ll v) { return strf("%020lld", v + 1000000000000LL); };
  if (e.type >= 100 && e.type < 200) { k.cls = 1; int secs = 0; for (auto& v : cal::intervals()) if (upper(v.name) == upper(p[4])) secs = v.secs; string d = upper(p[3]); ll j = -1; if (d.size() == 9) { for (int m = 1; m <= 12; m++) if (upper(cal::mon(m)) == d.substr(2, 3)) j = cal::julian(atoi(d.substr(5).c_str()), m, atoi(d.substr(0, 2).c_str())); } k.rest = {p[5], secs ? pad(secs) : p[4], pad(j)}; if (!secs) k.cls = 2; }
  else if (e.type >= 400 && e.type < 500) { k.cls = 3; string d = upper(p[3]); ll j = 0, mn = 0; for (int m = 1; m <= 12 && d.size() >= 9; m++) if (upper(cal::mon(m)) == d.substr(2, 3)) j = cal::julian(atoi(d.substr(5, 4).c_str()), m, atoi(d.substr(0, 2).c_str())); if (d.size() >= 14) mn = atoi(d.substr(10, 2).c_str()) * 60 + atoi(d.substr(12, 2).c_str()); k.rest = {pad(j * 1440 + mn), p[5]}; if (d.size() != 14) k.cls = 4; }
  else { k.cls = 5; k.rest = {p[3], p[4], p[5]}; } return k; }
inline bool ordered(const List& l, const string& key) { vector<Key> ks; for (auto& e : l.e) ks.push_back(keyOf(e)); for (size_t i = 0; i + 1 < ks.size(); i++) for (size_t j = i + 1; j < ks.size(); j++) { int c = 0; for (int p = 0; p < 3 && !c; p++) c = ks[i].abc[p].compare(ks[j].abc[p]); if (!c && ks[i].cls == ks[j].cls) for (size_t p = 0; p < ks[i].rest.size() && !c; p++) c = ks[i].rest[p].compare(ks[j].rest[p]); if (c > 0) { fail(key, "the sorted catalog lists %s before %s", l.e[i].path.c_str(), l.e[j].path.c_str()); return false; } } return true; }
// What the file really holds, read independently
inline vector<Ent> onDisk(const string& key) { Walk w = walk(vfs::get("/mc/a.dss")); vector<Ent> v; if (w.errors.size()) { fail(key, "file structure: %s", w.errors[0].c_str()); return v; } for (auto& e : w.entries) { Ent n; n.path = e.path; n.type = e.type; n.status = e.status; n.hash = e.hash; v.push_back(n); } return v; }
// known: by path, what the stores made say (type, write time window not checked if 0, dates if j2)
inline bool compare(const List& l, const vector<Ent>& want, const Ask& a, const string& key, const char* what) {
  auto show = [](const vector<Ent>& v) { string s; int n = 0; for (auto& e : v) if (n++ < 12) s += " " + e.path; return s; };
  uint64_t hs = 17; for (auto& e : l.e) hs = mix(hashBytes(e.path.data(), e.path.size(), hs), e.type); state(hs);
  std::multimap<string, const Ent*> m; for (auto& e : want) m.insert({e.path, &e});
  for (auto& e : l.e) { auto i = m.find(e.path); if (i == m.end()) { fail(key, "%s lists %s, which %s (listed:%s)", what, e.path.c_str(), [&] { for (auto& x : want) if (x.path == e.path) return "it already listed"; return "it should not"; }(), show(l.e).c_str()); return false; } const Ent& x = *i->second; 
    if (x.type && e.type != x.type) { fail(key, "%s gives type %d for %s, stored as %d", what, e.type, e.path.c_str(), x.type); return false; } if (x.hash && e.hash != x.hash) { fail(key, "%s gives another record's hash for %s", what, e.path.c_str()); return false; } if (x.wrote && e.wrote != x.wrote) { fail(key, "%s gives write time %lld for %s, stored at %lld", what, e.wrote, e.path.c_str(), x.wrote); return false; } if (a.dates && !l.dates) { fail(key, "%s has no dates although they were asked for", what); return false; } if (a.dates && x.j2 > 0 && (e.j1 != x.j1 || e.j2 != x.j2)) { fail(key, "%s gives dates %d to %d for %s, which holds %d to %d", what, e.j1, e.j2, e.path.c_str(), x.j1, x.j2); return false; } if (a.dates && x.j2 == -1 && (e.j1 || e.j2)) { fail(key, "%s gives dates for %s, which is no series", what, e.path.c_str()); return false; } m.erase(i); }
  if (m.size()) { fail(key, "%s does not list %s (listed:%s)", what, m.begin()->first.c_str(), show(l.e).c_str()); return false; } if (a.crc && l.e.size() && !l.crcs) { fail(key, "%s has no check-sums although they were asked for", what); return false; } return true; }
inline vector<Ent> filter(const vector<Ent>& all, const Ask& a) { vector<Ent> r; for (auto& e : all) if (statusOk(e.status, a.status) && matches(e.path, a.pattern, a.collection || a.sort == 2) && (a.t1 == 0 || (e.type >= a.t1 && e.type <= a.t2)) && timeOk(e.wrote, a)) r.push_back(e); return r; }
inline bool expect(File& f, const vector<Ent>& all, const Ask& a, const string& key, const char* what) { List l = get(f, a, key); if (failed()) return false; if (!compare(l, filter(all, a), a, key, what)) return false; if (a.sort || a.collection) if (!ordered(l, key)) return false; if (a.crc && l.crcs) for (auto& e : l.e) if (e.crc != zgetDataCRC(f.ifltab, e.path.c_str(), 0)) { fail(key, "%s gives another record's check-sum for %s", what, e.path.c_str()); return false; } return true; }
}
