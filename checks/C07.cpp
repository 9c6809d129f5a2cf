// Irregular series: merging, replacing and retrieving windows, across record boundaries.
// flavour: asan
#include "irr.h"
using namespace irr;
// instants around three record boundaries (kept to whole minutes; `extra` adds seconds)
static std::vector<ll> instants(int size, int n, int gran) { ll b1 = size == 1 ? cal::julian(2000, 2, 29) : size == 2 ? cal::julian(2000, 3, 1) : size == 3 ? cal::julian(2001, 1, 1) : cal::julian(2000, 1, 1); ll b2 = bnext(size, b1); ll s = gran == 1 ? 7 : 0;
  std::vector<ll> v = {b1 * 86400 - 7200 + s, b1 * 86400, b1 * 86400 + 60 + s, b1 * 86400 + (b2 - b1) * 43200 / 60 * 60 + s, b2 * 86400, b2 * 86400 + 3600 + s, bnext(size, b2) * 86400 + 60, bnext(size, b2) * 86400 + 7200 + s}; v.resize(n); return v; }
static Series pick(const std::vector<ll>& t, unsigned set, int gen, int attr) { Series s; for (size_t i = 0; i < t.size(); i++) if (set >> i & 1) { int z = (gen * 10 + (int)i); s[t[i]] = V{gen * 100 + i + 0.25, attr ? 1000 + z : 0, attr == 2 ? 5000 + z : 0, attr >= 3 ? ((z % 3) ? std::string((size_t)(1 + z % 5), (char)('a' + z % 26)) : std::string()) : std::string()}; } return s; }
static std::set<std::string> recs(int b, const Series& m) { std::set<std::string> r; for (auto& e : m) r.insert(upper(path(BLK[b].e, cal::dateStr(bstart(BLK[b].size, e.first)).c_str()))); return r; }
static bool verify(File& f, int b, const std::vector<ll>& t, const Series& m, int attr, const std::string& key, const char* when) {
  Got g = retrieve(f, path(BLK[b].e), cal::date(t[0] - 86400), "00:01:00", cal::date(t.back() + 86400), "24:00:00"); if (!same(g, m, attr, key, std::string(when) + ", everything")) return false;
  std::set<std::string> have; for (auto& s : f.catalog("", 0, 0)) have.insert(upper(s)); auto w = recs(b, m); if (have != w) { std::string h; for (auto& s : have) h += s + " "; fail(key, "%s: records are %s(%zu), expected %zu", when, h.c_str(), have.size(), w.size()); return false; }
  if (g.status == 0 && (g.units != "cfs" || g.type != "INST-VAL")) { fail(key, "%s: units '%s' type '%s'", when, g.units.c_str(), g.type.c_str()); return false; }
  return true; }
int main(int argc, char** argv) {
  Check c; c.id = "C07"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system", "bounds: up to eight distinct times around three record boundaries; stores of one series use the same time granularity and the same kinds of attributes (character notes may be absent)"};
  c.build = [](bool th, std::vector<Family>& fs) {
    int nP = th ? 8 : 6;
    for (int b = 0; b < 5; b++) for (int attr = 0; attr < 5; attr++) { int N = attr == 0 ? nP : th ? 6 : 4; uint64_t S = (1u << N) - 1; int nG = b == 4 ? 1 : 2; int nD = attr ? 1 : th ? 4 : 2;
      Family f; f.name = strf("two-stores-%s-%d", BLK[b].e, attr); f.n = S * S * 2 * nG * nD; f.chunk = 64; f.timeoutS = 60; f.rule = strf("every pair of stores, each of any non-empty subset of %d times around two record boundaries, merging or replacing x time granularity%s%s", N, attr ? "" : " x precision of both", attr == 0 ? "" : attr == 1 ? ", with quality" : attr == 2 ? ", with quality and notes" : attr == 3 ? ", with text notes" : ", with quality and text notes");
      auto dec = [=](uint64_t i, unsigned& s1, unsigned& s2, int& flag, int& g, int& d) { s1 = 1 + digit(i, S); s2 = 1 + digit(i, S); flag = digit(i, 2); g = digit(i, nG); d = digit(i, nD); };
      f.describe = [=](uint64_t i) { unsigned s1, s2; int fl, g, d; dec(i, s1, s2, fl, g, d); return strf("%s, attributes %d: store times %x then %s times %x, granularity %s, precision %d", BLK[b].e, attr, s1, fl ? "replace by" : "merge", s2, g ? "second" : "minute", d); };
      f.run = [=](uint64_t i) { unsigned s1, s2; int fl, g, d; dec(i, s1, s2, fl, g, d); int gran = g ? 1 : 60; auto t = instants(BLK[b].size, N, gran); std::string key = strf("%s:%d:%x:%s:%x:%d:%d", BLK[b].e, attr, s1, fl ? "replace" : "merge", s2, gran, d);
        static const int D[][2] = {{1, 1}, {0, 0}, {1, 0}, {0, 1}}; freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } Series m; auto st = [&](unsigned set, int gen, int flag, bool dbl) { Series s = pick(t, set, gen, attr); int rc = irr::store(f, path(BLK[b].e), s, flag, dbl, gran, g || gen == 2 || b == 0, attr); transition(); if (rc) { fail(key, "store %d returned %d", gen, rc); return false; } apply(m, s, flag); return true; };
        if (!st(s1, 1, 0, D[d][0])) return; if (s1 % 8 == 3 && !verify(f, b, t, m, attr, key, "after the first store")) return; if (!st(s2, 2, fl, D[d][1])) return; state(hash(m)); verify(f, b, t, m, attr, key, "after both stores"); f.close(); };
      fs.push_back(f); }
    // three stores, of runs of times
    for (int b = 0; b < 5; b++) { std::vector<unsigned> runs; int N = th ? 8 : 6; for (int a = 0; a < N; a++) for (int e = a; e < N; e++) { unsigned r = 0; for (int k = a; k <= e; k++) r |= 1u << k; runs.push_back(r); if (e - a >= 2) runs.push_back(r & ~(1u << (a + 1))); } uint64_t R = runs.size();
      Family f; f.name = strf("three-stores-%s", BLK[b].e); f.n = R * R * R * 4; if (!th) f.n = R * R * R; f.chunk = 64; f.rule = strf("every sequence of three stores of runs of up to %d neighbouring times (with or without a gap), merging and replacing%s", N, th ? " in every combination" : " alternately");
      f.describe = [=](uint64_t i) { unsigned a = runs[digit(i, R)], e = runs[digit(i, R)], g = runs[digit(i, R)]; return strf("%s: times %x, %x, %x, flags %d", BLK[b].e, a, e, g, (int)i); };
      f.run = [=](uint64_t i0) { uint64_t i = i0; unsigned s[3]; for (auto& q : s) q = runs[digit(i, R)]; int fl[3] = {0, (int)(i & 1), (int)(i >> 1 & 1)}; if (!th) { fl[1] = i0 & 1; fl[2] = !fl[1]; } auto t = instants(BLK[b].size, N, 60); std::string key = strf("%s:%x:%d%x:%d%x", BLK[b].e, s[0], fl[1], s[1], fl[2], s[2]);
        freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } Series m; for (int k = 0; k < 3; k++) { Series x = pick(t, s[k], k + 1, 0); int rc = irr::store(f, path(BLK[b].e), x, fl[k], true, 60, b == 0, 0); transition(); if (rc) { fail(key, "store %d returned %d", k, rc); return; } apply(m, x, fl[k]); } state(hash(m)); verify(f, b, t, m, 0, key, "after the stores"); f.close(); };
      fs.push_back(f); }
    // windows
    for (int b = 0; b < 5; b++) { int N = 8; uint64_t S = (1u << N) - 1;
      Family f; f.name = strf("windows-%s", BLK[b].e); f.n = S * 2; f.chunk = 4; f.timeoutS = 120; f.rule = "every non-empty subset of eight times around three record boundaries x stored precision: every window between any two of the times and the instants just before and after them, retrieved with and without the neighbouring values and in every precision; everything; each record; the reported range";
      f.describe = [=](uint64_t i) { return strf("%s, times %x, %s", BLK[b].e, (unsigned)(1 + i % S), i / S ? "double" : "single"); };
      f.run = [=](uint64_t i) { unsigned set = 1 + digit(i, S); bool dbl = i; int gran = set & 1 && b < 4 ? 1 : 60; int attr = set % 5; auto t = instants(BLK[b].size, N, gran); std::string key = strf("%s:%x:%d", BLK[b].e, set, (int)dbl); freshWorld(); File f; if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open"); return; } Series m = pick(t, set, 1, attr); int rc = irr::store(f, path(BLK[b].e), m, 0, dbl, gran, gran == 1, attr); if (rc) { fail(key, "store returned %d", rc); return; }
        std::vector<ll> w; ll u = b == 4 || gran == 60 ? 60 : 1; for (ll x : t) { w.push_back(x - u); w.push_back(x); w.push_back(x + u); } std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); int step = th ? 1 : 2;
        for (size_t a = set % step; a < w.size() && !failed(); a += step) for (size_t e = a; e < w.size() && !failed(); e += 1) for (int flag = 0; flag < 4; flag++) { if (!th && flag && (a + e + flag) % 2) continue; Series x; for (auto& p : m) if (p.first >= w[a] && p.first <= w[e]) x.insert(p);
          // neighbours are looked for in the record holding the window's start (end) and the one next to it
          if (flag & 1) { auto it = m.lower_bound(w[a]); if (it != m.begin()) { --it; ll bs = bstart(BLK[b].size, w[a]); if (bnext(BLK[b].size, bstart(BLK[b].size, it->first)) >= bs) x.insert(*it); else continue; } }
          if (flag & 2) { auto it = m.upper_bound(w[e]); if (it != m.end()) { ll be = bstart(BLK[b].size, w[e]); if (bstart(BLK[b].size, it->first) <= bnext(BLK[b].size, be)) x.insert(*it); else continue; } }
          transition(); int prec = (a + e) % 3; std::string what = strf("%s to %s flag %d", tstr(w[a]).c_str(), tstr(w[e]).c_str(), flag); Got g = retrieve(f, path(BLK[b].e), cal::date(w[a]), cal::time(w[a]), cal::date(w[e]), cal::time(w[e]), flag, prec, 1); if (!same(g, x, attr, key + strf(":%zu:%zu:%d", a, e, flag), what)) return;
          if (g.status == 0 && !x.empty()) { if (g.isFloat != (prec == 1 || (prec == 0 && !dbl))) fail(key + ":precision", "%s: wrong precision", what.c_str()); if (g.units != "cfs" || g.type != "INST-VAL") fail(key + ":units", "%s: units '%s' type '%s'", what.c_str(), g.units.c_str(), g.type.c_str()); } state(hash(x)); }
        if (failed()) return; for (int all = 0; all < 2; all++) { Got g = retrieve(f, path(BLK[b].e), "", "", "", "", 0, 2, 1, all); if (!same(g, m, attr, key + ":all", "no window")) return; }
        std::map<ll, Series> blk; for (auto& p : m) blk[bstart(BLK[b].size, p.first)].insert(p); for (auto& p : blk) { Got g = retrieve(f, path(BLK[b].e, cal::dateStr(p.first).c_str()), "", "", "", "", 0, 2, 1); if (!same(g, p.second, attr, key + ":record", "record " + cal::dateStr(p.first))) return; }
        int a, as, e, es; if (ztsGetDateTimeRange(f.ifltab, path(BLK[b].e).c_str(), 1, &a, &as, &e, &es)) fail(key + ":range", "no range"); else if ((ll)a * 86400 + as != m.begin()->first || (ll)e * 86400 + es != m.rbegin()->first) fail(key + ":range", "range is %s to %s", tstr((ll)a * 86400 + as).c_str(), tstr((ll)e * 86400 + es).c_str());
        f.close(); };
      fs.push_back(f); }
  };
  return run(argc, argv, c);
}
