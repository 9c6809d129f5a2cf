// Regular-interval time series: driver and reference model.
#pragma once
#include "cal.h"
#include <float.h>
using namespace dss; using namespace mc; using cal::ll;
namespace ts {
static const double MISS = -(double)FLT_MAX;
inline bool missing(double v) { return v == MISS || v == -901.0 || v == -902.0; }
struct Got { int status = -9; std::vector<ll> times; std::vector<double> v; std::vector<int> q, notes; std::vector<std::string> cn; int qn = 0, nn = 0; std::string units, type, tz; int esize = 0, off = 0, interval = 0; ll start = 0, end = 0; bool isFloat = false; };
inline std::string tstr(ll a) { return cal::date(a) + " " + cal::time(a); }
inline std::string path(const char* e, const char* d = "", const char* f = "F") { return std::string("/A/B/FLOW/") + d + "/" + e + "/" + f + "/"; }
struct Extra { std::vector<int> q, notes; int qe = 0, ne = 0; std::string cn; std::vector<int> uh; std::string tz; };
inline int store(File& f, const std::string& p, ll startAbs, const std::vector<double>& v, int flag, bool dbl = true, const Extra* x = nullptr, const char* units = "cfs", const char* type = "INST-VAL", const char* sd = nullptr, const char* st = nullptr) {
  std::string D = cal::date(startAbs), T = cal::time(startAbs); std::vector<float> fv; zStructTimeSeries* t; std::vector<double> dv = v;
  if (dbl) t = zstructTsNewRegDoubles(p.c_str(), dv.data(), dv.size(), sd ? sd : D.c_str(), st ? st : T.c_str(), units, type);
  else { for (double d : v) fv.push_back((float)d); t = zstructTsNewRegFloats(p.c_str(), fv.data(), fv.size(), sd ? sd : D.c_str(), st ? st : T.c_str(), units, type); }
  std::string cn; std::vector<int> q, n, u; if (x) { q = x->q; n = x->notes; cn = x->cn; u = x->uh; if (x->qe) { t->quality = q.data(); t->qualityElementSize = x->qe; } if (x->ne) { t->inotes = n.data(); t->inoteElementSize = x->ne; } if (cn.size()) { t->cnotes = &cn[0]; t->cnotesLengthTotal = cn.size(); } if (u.size()) { t->userHeader = u.data(); t->userHeaderNumber = u.size(); } if (x->tz.size()) { t->timeZoneName = mallocAndCopy(x->tz.c_str()); t->allocated[zSTRUCT_timeZoneName] = 1; } }
  int s = ztsStore(f.ifltab, t, flag); zstructFree(t); return s; }
inline void take(zStructTimeSeries* t, Got& g, bool lim = true) {
  g.start = (ll)t->startJulianDate * 86400 + t->startTimeSeconds; g.end = (ll)t->endJulianDate * 86400 + t->endTimeSeconds; g.esize = t->sizeEachValueRead; g.off = t->timeOffsetSeconds; g.interval = t->timeIntervalSeconds;
  if (t->units) g.units = t->units; if (t->type) g.type = t->type; if (t->timeZoneName) g.tz = t->timeZoneName; g.qn = t->quality ? t->qualityElementSize : 0; g.nn = t->inotes ? t->inoteElementSize : 0; const char* c = t->cnotes; const char* ce = c ? c + t->cnotesLengthTotal : c;
  g.isFloat = t->floatValues != 0;
  for (int i = 0; i < t->numberValues; i++) { if (t->times) g.times.push_back((ll)t->julianBaseDate * 86400 + (ll)t->times[i] * t->timeGranularitySeconds); if (t->doubleValues) g.v.push_back(t->doubleValues[i]); else if (t->floatValues) g.v.push_back(t->floatValues[i]);
    for (int k = 0; k < g.qn; k++) g.q.push_back(t->quality[i * g.qn + k]); for (int k = 0; k < g.nn; k++) g.notes.push_back(t->inotes[i * g.nn + k]); if (c && c < ce) { g.cn.push_back(c); c += strlen(c) + 1; } } }
inline Got retrieve(File& f, const std::string& p, const std::string& d1, const std::string& t1, const std::string& d2, const std::string& t2, int flag = 0, int dbl = 2, int qn = 1, bool all = false) {
  Got g; zStructTimeSeries* t = d1.size() ? zstructTsNewTimes(p.c_str(), d1.c_str(), t1.c_str(), d2.c_str(), t2.c_str()) : zstructTsNew(p.c_str()); if (all) t->boolRetrieveAllTimes = 1;
  g.status = ztsRetrieve(f.ifltab, t, flag, dbl, qn); if (g.status == 0) take(t, g); zstructFree(t); return g; }
inline Got retrieve(File& f, const std::string& p, ll a, ll b, int flag = 0, int dbl = 2, int qn = 1) { return retrieve(f, p, cal::date(a), cal::time(a), cal::date(b), cal::time(b), flag, dbl, qn); }

// Reference model of one regular series: value per period plus which records (blocks) exist
struct Model {
  const cal::Iv* iv; std::map<ll, double> v; std::map<ll, std::vector<int>> q, notes; std::map<ll, std::string> cn; std::set<ll> blocks;
  ll blk(ll k) const { return cal::blockStart(*iv, cal::slotTime(*iv, k)); }
  double at(ll k) const { auto i = v.find(k); return i == v.end() ? MISS : i->second; }
  void put(ll k, double d) { if (missing(d)) v.erase(k); else v[k] = d; }
  // returns the set of touched blocks
  std::set<ll> store(ll k0, const std::vector<double>& x, int flag, const Extra* e = nullptr) {
    std::set<ll> touched; std::vector<std::string> lines; if (e && e->cn.size()) for (size_t p = 0; p < e->cn.size(); p += strlen(&e->cn[p]) + 1) lines.push_back(&e->cn[p]);
    for (size_t i = 0; i < x.size(); i++) { ll k = k0 + i; touched.insert(blk(k)); bool rep = flag == 1 ? missing(at(k)) : flag == 4 ? !missing(x[i]) : true;
      if (rep) { put(k, x[i]); if (e) { if (e->qe) q[k] = std::vector<int>(e->q.begin() + i * e->qe, e->q.begin() + (i + 1) * e->qe); if (e->ne) notes[k] = std::vector<int>(e->notes.begin() + i * e->ne, e->notes.begin() + (i + 1) * e->ne); if (lines.size() > i) cn[k] = lines[i]; } } }
    return touched; }
  bool anyIn(ll b) const { for (auto& p : v) if (blk(p.first) == b) return true; return false; }
  uint64_t hash() const { uint64_t h = 7; for (auto& p : v) h = mix(mix(h, p.first), (uint64_t)(long long)(p.second * 8)); for (ll b : blocks) h = mix(h, b); return h; }
};
}
