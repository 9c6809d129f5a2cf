// Irregular time series: driver and reference model (a map from time to value and attributes).
#pragma once
#include "ts.h"
namespace irr {
using namespace ts;
struct V { double v; int q, n; std::string c; bool operator==(const V& o) const { return v == o.v && q == o.q && n == o.n && c == o.c; } };
typedef std::map<ll, V> Series;
struct Blk { const char* e; int size; };
static const Blk BLK[] = {{"IR-Day", 1}, {"IR-Month", 2}, {"IR-Year", 3}, {"IR-Decade", 4}, {"IR-Century", 5}};
inline ll bstart(int size, ll abs) { ll y; int m, d; cal::civil(cal::dayOf(abs), y, m, d); return size == 1 ? cal::dayOf(abs) : size == 2 ? cal::julian(y, m, 1) : size == 3 ? cal::julian(y, 1, 1) : size == 4 ? cal::julian(cal::floordiv(y, 10) * 10, 1, 1) : cal::julian(cal::floordiv(y, 100) * 100, 1, 1); }
inline ll bnext(int size, ll jul) { ll y; int m, d; cal::civil(jul, y, m, d); return size == 1 ? jul + 1 : size == 2 ? (m == 12 ? cal::julian(y + 1, 1, 1) : cal::julian(y, m + 1, 1)) : size == 3 ? cal::julian(y + 1, 1, 1) : size == 4 ? cal::julian(y + 10, 1, 1) : cal::julian(y + 100, 1, 1); }
// attr: 0 none, 1 quality, 2 quality + integer notes, 3 character notes, 4 quality + character notes
inline int store(File& f, const std::string& p, const Series& s, int flag, bool dbl, int gran, bool useBase, int attr = 0, const char* units = "cfs", const char* type = "INST-VAL") {
  std::vector<int> t, q, n; std::vector<double> d; std::vector<float> fl; std::string c; ll base = 0; std::string bd; if (useBase) { base = cal::dayOf(s.begin()->first); bd = cal::dateStr(base); }
  for (auto& e : s) { t.push_back((int)((e.first - base * 86400) / gran)); d.push_back(e.second.v); fl.push_back((float)e.second.v); q.push_back(e.second.q); n.push_back(e.second.n); c += e.second.c; c += '\0'; }
  zStructTimeSeries* z = dbl ? zstructTsNewIrregDoubles(p.c_str(), d.data(), d.size(), t.data(), gran, bd.c_str(), units, type) : zstructTsNewIrregFloats(p.c_str(), fl.data(), fl.size(), t.data(), gran, bd.c_str(), units, type);
  if (attr == 1 || attr == 2 || attr == 4) { z->quality = q.data(); z->qualityElementSize = 1; } if (attr == 2) { z->inotes = n.data(); z->inoteElementSize = 1; } if (attr >= 3) { z->cnotes = &c[0]; z->cnotesLengthTotal = c.size(); }
  int rc = ztsStore(f.ifltab, z, flag); zstructFree(z); return rc; }
// reference semantics: merge (0) or replace everything between the first and last time (1)
inline void apply(Series& m, const Series& s, int flag) { if (flag == 1) { auto a = m.lower_bound(s.begin()->first), b = m.upper_bound(s.rbegin()->first); m.erase(a, b); } for (auto& e : s) m[e.first] = e.second; }
inline std::string str(const Series& s) { std::string o; for (auto& e : s) o += strf("%s=%g ", tstr(e.first).c_str(), e.second.v); return o.empty() ? "nothing" : o; }
// compare a retrieval with the expected values
inline bool same(const Got& g, const Series& w, int attr, const std::string& key, const std::string& what) {
  if (w.empty()) { if (g.status == 0 && !g.v.empty()) { fail(key, "%s: %zu values returned (first at %s), expected none", what.c_str(), g.v.size(), g.times.size() ? tstr(g.times[0]).c_str() : "?"); return false; } if (g.status && isErr(g.status)) { fail(key, "%s: error %d, expected no data", what.c_str(), g.status); return false; } return true; }
  if (g.status) { fail(key, "%s: status %d, expected %s", what.c_str(), g.status, str(w).c_str()); return false; }
  if (g.v.size() != w.size() || g.times.size() != w.size()) { std::string got; for (size_t i = 0; i < g.times.size() && i < g.v.size(); i++) got += strf("%s=%g ", tstr(g.times[i]).c_str(), g.v[i]); fail(key, "%s: %zu values (%s), expected %zu: %s", what.c_str(), g.v.size(), got.c_str(), w.size(), str(w).c_str()); return false; }
  size_t i = 0; for (auto& e : w) { if (g.times[i] != e.first) { fail(key, "%s: time %zu is %s, expected %s", what.c_str(), i, tstr(g.times[i]).c_str(), tstr(e.first).c_str()); return false; } if (g.v[i] != e.second.v) { fail(key, "%s: value at %s is %g, expected %g", what.c_str(), tstr(e.first).c_str(), g.v[i], e.second.v); return false; }
    if (attr == 1 || attr == 2 || attr == 4) { int q = g.qn == 1 && i < g.q.size() ? g.q[i] : -999; if (q != e.second.q) { fail(key, "%s: quality at %s is %d, expected %d", what.c_str(), tstr(e.first).c_str(), q, e.second.q); return false; } }
    if (attr == 2) { int q = g.nn == 1 && i < g.notes.size() ? g.notes[i] : -999; if (q != e.second.n) { fail(key, "%s: note at %s is %d, expected %d", what.c_str(), tstr(e.first).c_str(), q, e.second.n); return false; } }
    if (attr >= 3) { std::string q = i < g.cn.size() ? g.cn[i] : "(absent)"; if (q != e.second.c) { fail(key, "%s: text note at %s is '%s', expected '%s'", what.c_str(), tstr(e.first).c_str(), q.c_str(), e.second.c.c_str()); return false; } }
    i++; }
  return true; }
inline uint64_t hash(const Series& s) { uint64_t h = 3; for (auto& e : s) h = mix(mix(h, e.first), (uint64_t)(ll)(e.second.v * 4) + e.second.q * 31 + e.second.n * 1009); return h; }
}
