// Retrieving a window of a regular series returns one value for every period of the window, at its time.
// flavour: asan
#include "ts.h"
using namespace ts;
struct Set { const char* name; int lo, hi; std::vector<int> gaps; };
static const Set SETS[] = {{"both sides of the record boundary", -6, 6, {-3, 2, 3}}, {"only after the boundary", 2, 5, {4}}, {"only before the boundary", -5, -2, {-4}}, {"one value", 0, 0, {}}, {"two values from the second period", 1, 2, {}}, {"one value in the fourth period", 3, 3, {}}, {"one value in the sixth period", 5, 5, {}}};
static const int FL[] = {0, -1, -2, -3}; static const char* const FN[] = {"", " trimmed", " without times", " trimmed without times"};
struct Win { bool found; std::vector<ll> k; };      // periods expected in the result
// time of period k with a time offset
static ll T(const cal::Iv& v, ll off, ll k) { if (!off) return cal::slotTime(v, k); ll s = cal::slotTime(v, k - 1) + off; if (v.secs == 31536000 && cal::leap(k) && off > 60 * 86400) s += 86400; return s; }
static ll boundary(const cal::Iv& v, int y, int m, int d) { ll b = cal::nextBlock(v, cal::blockStart(v, (cal::julian(y, m, d) + 1) * 86400)); ll k = cal::slotOf(v, b * 86400); while (cal::blockStart(v, cal::slotTime(v, k)) < b) k++; return k; }
static ll base(const cal::Iv& v, int era = 0) { static const int E[][3] = {{1999, 12, 15}, {2000, 2, 29}, {1900, 2, 28}, {2100, 2, 15}, {1849, 12, 31}}; return boundary(v, v.secs == 604800 ? 2039 : E[era][0], v.secs == 604800 ? 6 : E[era][1], v.secs == 604800 ? 15 : E[era][2]); }
static int ERA = 0;
static double val(ll k, ll b) { return 100.25 + (k - b); }
static bool stored(const Set& s, ll j) { if (j < s.lo || j > s.hi) return false; for (int g : s.gaps) if (g == j) return false; return true; }
static bool put(File& f, const cal::Iv& v, ll off, const Set& s, bool dbl, const std::string& key) { ll b = base(v, ERA); std::vector<double> x; for (int j = s.lo; j <= s.hi; j++) x.push_back(stored(s, j) ? val(b + j, b) : MISS);
  int rc = store(f, path(v.name), T(v, off, b + s.lo), x, 0, dbl); if (rc) fail(key, "store returned %d", rc); return rc == 0; }
static void checkWindow(File& f, const cal::Iv& v, ll off, const Set& s, bool dbl, ll k1, ll k2, const std::string& d1, const std::string& t1, const std::string& d2, const std::string& t2, int fl, int prec, const std::string& key, const char* p = nullptr, bool all = false) {
  ll b = base(v, ERA); std::string what = strf("%s %s to %s %s%s%s", d1.c_str(), t1.c_str(), d2.c_str(), t2.c_str(), FN[fl], prec == 1 ? " as floats" : prec == 0 ? " as stored" : ""); transition();
  Got g = retrieve(f, p ? p : path(v.name), d1, t1, d2, t2, FL[fl], prec, 0, all);
  // which records does the window touch, and do they hold anything
  auto blk = [&](ll k) { return cal::blockStart(v, cal::slotTime(v, k)); }; std::set<ll> have; for (int j = s.lo; j <= s.hi; j++) if (stored(s, j)) have.insert(blk(b + j));
  bool touch = false; for (ll h : have) if (h >= blk(k1) && h <= blk(k2)) touch = true;
  ll f1 = k1, f2 = k2; bool trim = fl == 1 || fl == 3; bool any = false; for (ll k = k1; k <= k2; k++) if (stored(s, k - b)) any = true;
  if (trim && any) { while (!stored(s, f1 - b)) f1++; while (!stored(s, f2 - b)) f2--; }
  if (!touch || (trim && !any)) { if (g.status == 0 && !g.v.empty()) { bool bad = false; for (double x : g.v) if (!missing(x)) bad = true; if (bad || !touch) fail(key, "%s: %zu values returned, expected none", what.c_str(), g.v.size()); } else if (g.status != 0 && isErr(g.status)) fail(key, "%s: error %d, expected no data", what.c_str(), g.status); return; }
  if (g.status) { fail(key, "%s: status %d", what.c_str(), g.status); return; }
  if ((ll)g.v.size() != f2 - f1 + 1) { fail(key, "%s: %zu values, expected %lld", what.c_str(), g.v.size(), f2 - f1 + 1); return; }
  for (ll k = f1; k <= f2; k++) { double w = stored(s, k - b) ? val(k, b) : MISS, h = g.v[k - f1]; if (w != h) { fail(key, "%s: value for %s is %g, expected %g", what.c_str(), tstr(T(v, off, k)).c_str(), h == MISS ? -999999 : h, w == MISS ? -999999 : w); return; } }
  bool wantT = fl == 0 || fl == 1; if (wantT && g.times.size() != g.v.size()) { fail(key, "%s: no times", what.c_str()); return; } if (!wantT && !g.times.empty()) { fail(key, "%s: times although not asked for", what.c_str()); return; }
  for (size_t i = 0; i < g.times.size(); i++) if (g.times[i] != T(v, off, f1 + i)) { fail(key, "%s: time %zu is %s, expected %s", what.c_str(), i, tstr(g.times[i]).c_str(), tstr(T(v, off, f1 + i)).c_str()); return; }
  if (g.start != T(v, off, f1) || g.end != T(v, off, f2)) { fail(key, "%s: reported window %s to %s, expected %s to %s", what.c_str(), tstr(g.start).c_str(), tstr(g.end).c_str(), tstr(T(v, off, f1)).c_str(), tstr(T(v, off, f2)).c_str()); return; }
  if (g.interval != v.secs) { fail(key, "%s: interval %d", what.c_str(), g.interval); return; } if (g.off != off) { fail(key, "%s: offset %d, expected %lld", what.c_str(), g.off, off); return; }
  if (g.units != "cfs" || g.type != "INST-VAL") { fail(key, "%s: units '%s', type '%s'", what.c_str(), g.units.c_str(), g.type.c_str()); return; }
  if (prec && g.isFloat != (prec == 1)) fail(key, "%s: wrong precision returned", what.c_str()); if (!prec && have.count(blk(k1)) && g.isFloat == dbl) fail(key, "%s: wrong precision returned", what.c_str());
  state(mix(mix(mix(f2 - f1, k1 - b), fl), v.secs)); }
static ll offsetFor(const cal::Iv& v, int i) { if (!i) return 0; ll s = v.secs; if (s == 31536000) return i == 1 ? 86400LL * 100 + 3600 : i == 2 ? 86400 * 20 : 86400 * 50 + 21600; if (s == 2592000) return i == 3 ? 86400 * 20 + 21600 : i == 1 ? 86400 * 11 + 28800 : 3600; if (s > 604800) return i == 3 ? 86400 * 5 + 900 : i == 1 ? 86400 * 3 + 28800 : 7200; if (s == 1) return 0; ll u = s > 60 ? 60 : 1; return i == 1 ? s / 3 / u * u : s - u; }
int main(int argc, char** argv) {
  Check c; c.id = "C06"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system", "bounds: one or two records of data around a record boundary; windows from nine periods before to nine after it"};
  c.build = [](bool th, std::vector<Family>& fs) {
    static const char* const LEAN[] = {"1Year", "1Month", "Semi-Month", "Tri-Month", "1Week", "1Day", "6Hour", "1Hour", "15Minute", "12Minute", "1Minute", "30Second", "1Second"};
    for (int era = 0; era < (th ? 5 : 3); era++) for (auto& v : cal::intervals()) { if (era && (v.secs == 604800 || v.secs < 720 || (!th && v.secs < 21600 && v.secs != 3600))) continue; bool main = false; for (auto l : LEAN) if (!strcmp(l, v.name)) main = true; int R = era && !th ? 4 : main || th ? 8 : 3; const cal::Iv* iv = &v; int nOff = v.secs == 1 || v.secs == 60 ? 1 : v.secs == 2 ? 2 : main || th ? 3 : 2; int nSet = era && !th ? 2 : main || th ? 4 : 1; if (v.secs > 604800) nSet = 7; if (v.secs > 604800) nOff = 4;
      int perSlot = v.secs > 1 ? 3 : 1; int nI = (2 * R + 1) * perSlot; uint64_t n = (uint64_t)nI * nOff * nSet * 2;
      Family f; f.name = std::string("windows-") + v.name + (era ? strf("-%d", era) : ""); f.n = n; f.chunk = 8; f.timeoutS = 120; f.rule = strf("every window whose start and end are any of %d instants (period end, just after it, inside a period; %d periods either side of a record boundary) x %d data sets x %d time offsets x stored precision, each retrieved with all time/trim flags and precisions; midnight spelled as 24:00 and as 00:00", nI, R, nSet, nOff);
      f.describe = [=](uint64_t i) { uint64_t x = i; int a = digit(x, nI), o = digit(x, nOff), s = digit(x, nSet); return strf("%s, data %s, offset %lld, %s precision, windows starting at instant %d", iv->name, SETS[s].name, offsetFor(*iv, o), x ? "double" : "single", a); };
      f.run = [=](uint64_t i) { ERA = era; uint64_t x = i; int a = digit(x, nI), o = digit(x, nOff); const Set& s = SETS[digit(x, nSet)]; bool dbl = x; const cal::Iv& v = *iv; ll off = offsetFor(v, o), b = base(v, ERA); std::string key = strf("%s%s:%s:offset%lld:%d:start%d", v.name, era ? strf("@%d", era).c_str() : "", s.name, off, (int)dbl, a);
        freshWorld(); File fl; if (fl.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } if (!put(fl, v, off, s, dbl, key)) return;
        auto inst = [&](int q, ll& k) { ll t; k = b - R + q / perSlot; t = T(v, off, k); int m = q % perSlot; if (m == 0) return t; ll nx = T(v, off, k + 1), sl = cal::slotTime(v, k); // stay inside the period that follows, in the sense of its standard end
          ll from = std::max(t, sl), u = v.secs < 120 ? 1 : 60; ll r = m == 1 ? from + u : from + (cal::slotTime(v, k + 1) - from) / 2; (void)nx; k = cal::slotOf(v, r); return r; };
        ll k1, k2; ll ta = inst(a, k1); if (off) k1 = cal::slotOf(v, ta);
        for (int e = a; e < nI && !failed(); e++) { ll tb = inst(e, k2); if (off) k2 = cal::slotOf(v, tb); if (tb < ta) continue; if (k2 < k1) continue; std::string d1 = cal::date(ta), t1 = cal::time(ta), d2 = cal::date(tb), t2 = cal::time(tb);
          static const int COMBO[][2] = {{0, 2}, {1, 2}, {2, 0}, {3, 1}, {0, 0}, {1, 1}}; int nc = th ? 6 : (e - a) % 4 == 0 ? 4 : 2;
          for (int q = 0; q < nc; q++) checkWindow(fl, v, off, s, dbl, k1, k2, d1, t1, d2, t2, COMBO[q][0], COMBO[q][1], key + strf(":end%d:%s:%d", e, FN[COMBO[q][0]], COMBO[q][1]));
          if (t1 == "24:00:00") checkWindow(fl, v, off, s, dbl, k1, k2, cal::dateStr(cal::dayOf(ta) + 1), "00:00:00", d2, t2, 0, 2, key + strf(":end%d:start as 0000", e));
          if (t2 == "24:00:00" && ta != tb) checkWindow(fl, v, off, s, dbl, k1, k2, d1, t1, cal::dateStr(cal::dayOf(tb) + 1), "00:00:00", 0, 2, key + strf(":end%d:end as 0000", e)); }
        fl.close(); };
      fs.push_back(f); }
    // the whole data set, a single record, and a range of records named by the D part
    static const char* const WI[] = {"1Year", "1Month", "1Day", "6Hour", "1Hour", "15Minute", "10Minute", "1Minute", "15Second"};
    for (auto nm : WI) { const cal::Iv* iv = &cal::iv(nm); int nb = iv->secs < 900 || iv->secs > 2592000 ? 3 : 4; int days = 1 << nb; 
      Family f; f.name = std::string("records-") + nm; int no = iv->secs < 120 ? 1 : 2; f.n = (uint64_t)(days - 1) * 4 * no; f.chunk = 1; f.timeoutS = 200; f.rule = strf("every non-empty subset of %d consecutive records holding data (a few values each, records next to the gaps included) x precision x time offset x one store or merged from two: retrieval of everything (no window, and the 'all times' switch), of each single record and of each range of records named by the D part, trimmed or not; and the reported date range of the data set", nb);
      f.describe = [=](uint64_t i) { uint64_t x = i; int set = 1 + digit(x, days - 1); int dbl = digit(x, 2), mg = digit(x, 2); return strf("%s, records %d, %s precision%s, offset %lld", iv->name, set, dbl ? "double" : "single", mg ? ", merged" : "", offsetFor(*iv, x)); };
      f.run = [=](uint64_t i) { uint64_t x = i; unsigned set = 1 + digit(x, days - 1); bool dbl = digit(x, 2), mg = digit(x, 2); const cal::Iv& v = *iv; ll off = offsetFor(v, x); std::string key = strf("%s:records%u:%d:%d:offset%lld", v.name, set, (int)dbl, (int)mg, off); auto ST = [&](const cal::Iv& v, ll k) { return T(v, off, k); }; freshWorld(); File fl; if (fl.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; }
        std::vector<ll> bs; { ll k = base(v, 0); ll b = cal::blockStart(v, cal::slotTime(v, k)); for (int q = 0; q <= nb; q++) { bs.push_back(b); b = cal::nextBlock(v, b); } }
        std::map<ll, double> m; std::vector<std::pair<ll, ll>> ext; // slots
        for (int q = 0; q < nb; q++) { ll a = cal::slotOf(v, bs[q] * 86400); while (cal::blockStart(v, cal::slotTime(v, a)) < bs[q]) a++; ll e = cal::slotOf(v, bs[q + 1] * 86400); while (cal::blockStart(v, cal::slotTime(v, e)) < bs[q + 1]) e++; ext.push_back({a, e - 1}); if (!(set >> q & 1)) continue;
          ll len = e - a, o = q == 0 ? len / 3 : q == 1 ? 0 : q == 2 ? len - 3 : len / 2; if (o < 0) o = 0; std::vector<double> y = {1.5 + q * 10, MISS, 2.5 + q * 10}; for (int j = 0; j < 3; j += 2) m[a + o + j] = y[j];
          int rc = mg ? store(fl, path(v.name), ST(v, a + o + 2), {y[2]}, 0, dbl) : 0; if (!rc) rc = store(fl, path(v.name), ST(v, a + o), mg ? std::vector<double>{y[0]} : y, 0, dbl); if (rc) { fail(key, "store: %d", rc); return; } }
        auto get = [&](const std::string& p, bool all, int flag, const char* what, ll lo, ll hi, ll bound1, ll bound2) { transition(); std::string k2 = key + ":" + what + FN[flag]; Got g = retrieve(fl, p, "", "", "", "", FL[flag], 2, 0, all); bool trim = flag == 1 || flag == 3;
          std::map<ll, double> w; for (auto& e : m) if (e.first >= lo && e.first <= hi) w[e.first] = e.second;
          if (w.empty()) { for (double d : g.v) if (!missing(d)) fail(k2, "%s: data returned, none stored there", what); if (isErr(g.status)) fail(k2, "%s: error %d", what, g.status); return; }
          if (g.status) { fail(k2, "%s: status %d", what, g.status); return; } ll k0 = cal::slotOf(v, g.start); if (g.v.empty()) { fail(k2, "%s: no values", what); return; } ll k9 = k0 + (ll)g.v.size() - 1;
          if (trim && (k0 != w.begin()->first || k9 != w.rbegin()->first)) { fail(k2, "%s: returned %s to %s, data are from %s to %s", what, tstr(ST(v, k0)).c_str(), tstr(ST(v, k9)).c_str(), tstr(ST(v, w.begin()->first)).c_str(), tstr(ST(v, w.rbegin()->first)).c_str()); return; }
          if (k0 > w.begin()->first || k9 < w.rbegin()->first || k0 < bound1 || k9 > bound2) { fail(k2, "%s: returned %s to %s", what, tstr(ST(v, k0)).c_str(), tstr(ST(v, k9)).c_str()); return; }
          if (g.end != ST(v, k9)) fail(k2, "%s: reported end %s, expected %s", what, tstr(g.end).c_str(), tstr(ST(v, k9)).c_str());
          for (size_t j = 0; j < g.v.size(); j++) { auto it = w.find(k0 + j); double e = it == w.end() ? MISS : it->second; if (g.v[j] != e) { fail(k2, "%s: value at %s is %g, expected %g", what, tstr(ST(v, k0 + j)).c_str(), g.v[j], e); return; } if (g.times.size() && g.times[j] != ST(v, k0 + j)) { fail(k2, "%s: time %zu is %s, expected %s", what, j, tstr(g.times[j]).c_str(), tstr(ST(v, k0 + j)).c_str()); return; } }
          state(mix(mix(set, k0), k9 * 8 + flag)); };
        int f0 = 0, f9 = 0; for (int q = 0; q < nb; q++) if (set >> q & 1) f9 = q; while (!(set >> f0 & 1)) f0++;
        for (int flag = 0; flag < (iv->secs < 60 ? 2 : 4); flag++) {
          get(path(v.name), false, flag, "no window", -4000000000000LL, 4000000000000LL, ext[f0].first, ext[f9].second);
          get(path(v.name), true, flag, "all times", -4000000000000LL, 4000000000000LL, ext[f0].first, ext[f9].second);
          for (int q = 0; q < nb; q++) { get(path(v.name, cal::dateStr(bs[q]).c_str()), false, flag, strf("record %d", q).c_str(), ext[q].first, ext[q].second, ext[q].first, ext[q].second); get(path(v.name, cal::dateStr(bs[q]).c_str()), true, flag, strf("record %d, all times", q).c_str(), -4000000000000LL, 4000000000000LL, ext[f0].first, ext[f9].second);
            for (int r = q + 1; r < nb; r++) { std::string d9 = cal::dateStr(bs[r]); for (auto& ch : d9) ch = toupper(ch); get(path(v.name, (cal::dateStr(bs[q]) + " - " + d9).c_str()), false, flag, strf("records %d to %d", q, r).c_str(), ext[q].first, ext[r].second, ext[q].first, ext[r].second); } } }
        int a, b, as, bsn; std::string p = path(v.name); if (ztsGetDateRange(fl.ifltab, p.c_str(), 0, &a, &b) != 0) fail(key + ":range", "no date range"); else if (a > cal::dayOf(ST(v, m.begin()->first)) || b < cal::dayOf(ST(v, m.rbegin()->first)) || a < bs[f0] - 400 || b > bs[f9 + 1] + 400) fail(key + ":range", "date range %s to %s", cal::dateStr(a).c_str(), cal::dateStr(b).c_str());
        if (ztsGetDateTimeRange(fl.ifltab, p.c_str(), 1, &a, &as, &b, &bsn) != 0) fail(key + ":exact", "no date and time range"); else { ll A = (ll)a * 86400 + as, B = (ll)b * 86400 + bsn; ll wa = ST(v, m.begin()->first), wb = ST(v, m.rbegin()->first); if (A != wa || B != wb) fail(key + ":exact", "range of the full data set %s to %s, expected %s to %s", tstr(A).c_str(), tstr(B).c_str(), tstr(wa).c_str(), tstr(wb).c_str()); }
        for (int q = 0; q < nb; q++) if (set >> q & 1) { std::string pq = path(v.name, cal::dateStr(bs[q]).c_str()); if (ztsGetDateTimeRange(fl.ifltab, pq.c_str(), 0, &a, &as, &b, &bsn) != 0) { fail(key + ":exact1", "no range for one record"); continue; } ll A = (ll)a * 86400 + as, B = (ll)b * 86400 + bsn; auto lo = m.lower_bound(ext[q].first); auto hi = m.upper_bound(ext[q].second); --hi; if (A != ST(v, lo->first) || B != ST(v, hi->first)) fail(key + strf(":exact%d", q), "range of record %d is %s to %s, expected %s to %s", q, tstr(A).c_str(), tstr(B).c_str(), tstr(ST(v, lo->first)).c_str(), tstr(ST(v, hi->first)).c_str()); }
        fl.close(); };
      fs.push_back(f); }
  };
  return run(argc, argv, c);
}
