// Regular-interval time series: the storage flag alone decides which stored values a new store replaces.
// flavour: asan
#include "ts.h"
using namespace ts;
struct St { int start, len, pat, flag, dbl; };
static const char* const PAT[] = {"all valid", "all missing", "first missing", "last missing", "every other missing", "middle third missing"};
static std::string show(const St& s) { return strf("store[%d,+%d %s flag %d%s]", s.start, s.len, PAT[s.pat], s.flag, s.dbl ? "" : " float"); }
static bool miss(int pat, int i, int n) { switch (pat) { case 1: return true; case 2: return i == 0; case 3: return i == n - 1; case 4: return i % 2 == 0; case 5: return i >= n / 3 && i < 2 * n / 3; } return false; }
struct Run { const cal::Iv* iv; ll base; Model m; File f; std::string p, key, trail; ll lo, hi; int extras = 0; ll off = 0; int n = 0;
  bool open() { freshWorld(); if (f.open("/mc/a.dss", 0, 1, 40)) { fail(key, "open failed"); return false; } return true; }
  ll T(ll k) { return off ? cal::slotTime(*iv, k - 1) + off : cal::slotTime(*iv, k); }
  bool step(const St& s) {
    trail += show(s) + " "; trace("%s", show(s).c_str()); transition(); n++; *vfs::nowMs += 1000; ll k0 = base + s.start; std::vector<double> x; Extra e; bool hadExtras = extras != 0;
    for (int i = 0; i < s.len; i++) { x.push_back(miss(s.pat, i, s.len) ? MISS : n * 1000 + s.start + i + 0.5); if (extras & 1) { e.qe = 1 + (extras >> 3); for (int j = 0; j < e.qe; j++) e.q.push_back(n * 100000 + (s.start + 20) * 100 + i * 10 + j); } if (extras & 2) { e.ne = 1; e.notes.push_back(n * 7000 + i); } if (extras & 4) { e.cn += i % 3 == 1 ? "" : strf("note %d of store %d", i, n); e.cn += '\0'; } }
    std::map<ll, bool> had; auto touched = Model(m).store(k0, x, s.flag); for (ll b : touched) had[b] = m.blocks.count(b);
    int rc = store(f, p, T(k0), x, s.flag, s.dbl, hadExtras ? &e : nullptr); if (rc) { fail(key, "%s returned %d after %s", show(s).c_str(), rc, trail.c_str()); return false; }
    m.store(k0, x, s.flag, &e);
    for (ll b : touched) { std::string bp = path(iv->name, cal::dateStr(b).c_str()); int st = zcheck(f.ifltab, bp.c_str()); bool is = st == 0; bool any = m.anyIn(b);
      if (any && !is) { fail(key, "record %s with valid values does not exist after %s", bp.c_str(), trail.c_str()); return false; }
      if (s.flag == 2 && !is) { fail(key, "record %s was not written although the flag says write even if missing, after %s", bp.c_str(), trail.c_str()); return false; }
      if (s.flag == 3 && !any && is) { fail(key, "record %s holds only missing values and was not removed after %s", bp.c_str(), trail.c_str()); return false; }
      if (is) m.blocks.insert(b); else m.blocks.erase(b);
      if (!is) for (ll k = lo - 400; k <= hi + 400; k++) if (m.blk(k) == b) { m.q.erase(k); m.notes.erase(k); m.cn.erase(k); } }
    return true; }
  bool verify() {
    // the whole neighbourhood at once; then nothing but the expected blocks may exist
    std::set<ll> in; for (ll b : m.blocks) in.insert(b);
    Got g = retrieve(f, p, T(lo), T(hi)); bool any = false; for (ll k = lo; k <= hi; k++) if (m.blocks.count(m.blk(k))) { any = true; break; }
    if (!any) { if (g.status == 0) { fail(key, "data found although none is stored, after %s", trail.c_str()); return false; } return true; }
    if (g.status) { fail(key, "retrieve returned %d after %s", g.status, trail.c_str()); return false; }
    if ((ll)g.v.size() != hi - lo + 1) { fail(key, "%zu values for %lld periods after %s", g.v.size(), hi - lo + 1, trail.c_str()); return false; }
    for (ll k = lo; k <= hi; k++) { double w = m.at(k), h = g.v[k - lo]; if (w != h) { fail(key, "value at %s is %g, expected %g, after %s", tstr(T(k)).c_str(), h == MISS ? -999999 : h, w == MISS ? -999999 : w, trail.c_str()); return false; } }
    for (ll k = lo; k <= hi; k++) if (g.times.size() > (size_t)(k - lo) && g.times[k - lo] != T(k)) { fail(key, "time %lld is %s, expected %s, after %s", k - lo, tstr(g.times[k - lo]).c_str(), tstr(T(k)).c_str(), trail.c_str()); return false; }
    if (extras & 1) for (ll k = lo; k <= hi; k++) for (int j = 0; j < 1 + (extras >> 3); j++) { int w = m.q.count(k) ? m.q[k][j] : 0; size_t at = (k - lo) * (1 + (extras >> 3)) + j; int h = at < g.q.size() ? g.q[at] : 0; if (w != h) { fail(key, "quality at %s is %d, expected %d, after %s", tstr(T(k)).c_str(), h, w, trail.c_str()); return false; } }
    if (extras & 2) for (ll k = lo; k <= hi; k++) { int w = m.notes.count(k) ? m.notes[k][0] : 0; size_t at = k - lo; int h = at < g.notes.size() ? g.notes[at] : 0; if (w != h) { fail(key, "note at %s is %d, expected %d, after %s", tstr(T(k)).c_str(), h, w, trail.c_str()); return false; } }
    if (extras & 4) for (ll k = lo; k <= hi; k++) { std::string w = m.cn.count(k) ? m.cn[k] : ""; size_t at = k - lo; std::string h = at < g.cn.size() ? g.cn[at] : ""; if (w != h) { fail(key, "note at %s is '%s', expected '%s', after %s", tstr(T(k)).c_str(), h.c_str(), w.c_str(), trail.c_str()); return false; } }
    return true; }
};
// first period of the first block after a date
static ll boundary(const cal::Iv& v, int y, int m, int d) { ll b = cal::nextBlock(v, cal::blockStart(v, (cal::julian(y, m, d) + 1) * 86400)); ll k = cal::slotOf(v, b * 86400); while (cal::blockStart(v, cal::slotTime(v, k)) < b) k++; return k; }
int main(int argc, char** argv) {
  Check c; c.id = "C05"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system", "bounds: stores of the listed extents, missing-value patterns and flags around one or two record boundaries; sequences up to the stated depth"};
  c.build = [](bool th, std::vector<Family>& fs) {
    auto add = [&](std::string nm, const std::vector<St>& ops, int depth, const char* e, int extras, ll lo, ll hi, ll off) {
      auto O = std::make_shared<std::vector<St>>(ops); size_t k = ops.size(); const cal::Iv* v = &cal::iv(e); ll base = boundary(*v, v->secs == 604800 && nm[0] != '!' ? 2039 : 1999, 6, 15);
      Family f; f.name = nm; f.n = seqCount(k, depth, depth); f.chunk = 64; f.rule = strf("every sequence of %d stores out of %zu (start and length around a record boundary x missing pattern x storage flag), %s data%s; all values, times and record existence compared with the model after the last store (and after every store while it is the first)", depth, k, e, extras ? ", with quality and notes" : "");
      f.describe = [=](uint64_t i) { std::string s; for (int o : seqDecode(i, k, depth, depth)) s += show((*O)[o]) + " "; return s; };
      f.run = [=](uint64_t i) { Run r; r.iv = v; r.base = base; r.m.iv = v; r.p = path(e); r.key = nm + ":"; r.lo = base + lo; r.hi = base + hi; r.extras = extras; r.off = off; if (!r.open()) return;
        auto seq = seqDecode(i, k, depth, depth); for (int o : seq) if (!r.step((*O)[o])) return; std::string key = nm + ":" + r.trail; r.key = key.substr(0, 150);
        if (!r.verify()) return; state(r.m.hash()); r.f.close(); if (i % 16 == 0 || replaying()) { if (r.f.open("/mc/a.dss")) { fail(r.key, "reopen failed"); return; } r.trail += "close reopen "; if (!r.verify()) return; r.f.close(); } };
      fs.push_back(f); };
    auto grid = [](std::vector<int> starts, std::vector<int> lens, std::vector<int> pats, std::vector<int> flags, std::vector<int> dbl = {1}) { std::vector<St> v; for (int s : starts) for (int l : lens) for (int p : pats) for (int f : flags) for (int d : dbl) v.push_back({s, l, p, f, d}); return v; };
    std::vector<int> F = {0, 1, 2, 3, 4};
    auto full = grid({-3, -1, 0}, {2, 5}, {0, 1, 2, 3, 4}, F);
    std::vector<const char*> q = {"1Month", "1Hour", "1Minute"}, all = {"1Year", "1Month", "Semi-Month", "Tri-Month", "1Week", "1Day", "12Hour", "6Hour", "1Hour", "15Minute", "12Minute", "1Minute", "30Second", "1Second"};
    auto lean = grid({-2, 0}, {1, 4}, {0, 1, 4}, F);
    // the decade record boundary at which a week belongs to both decades (01Jan2000 was a Saturday)
    add("!week-across-decades", grid({-2, 1}, {4}, {0}, {0}), 2, "1Week", 0, -8, 8, 0);
    for (auto e : all) add(std::string("pairs-") + e, std::find(q.begin(), q.end(), std::string(e)) != q.end() || (th && cal::iv(e).secs > 300) ? full : lean, 2, e, 0, -8, 8, 0);
    add("triples", grid({-2, 0}, {2, 4}, {0, 1, 4}, F), 3, "1Month", 0, -8, 8, 0);
    if (th) { for (auto e : all) add(std::string("triples-") + e, grid({-2, 0}, {2, 4}, {0, 1, 4}, F), 3, e, 0, -8, 8, 0); add("four", grid({-2, 0}, {4}, {0, 1, 4}, F), 4, "1Month", 0, -8, 8, 0); add("four-hour", grid({-2, 0}, {4}, {0, 1, 4}, F), 4, "1Hour", 0, -8, 8, 0); add("five", grid({-2, 0}, {3}, {0, 4}, F), 5, "1Day", 0, -8, 8, 0); add("six", grid({-1, 0}, {2}, {0, 1}, {0, 1, 3}), 6, "1Day", 0, -8, 8, 0); }
    if (th) { add("wide-month", grid({-5, -3, -1, 0, 2}, {1, 2, 5, 8}, {0, 1, 2, 3, 4}, F), 2, "1Month", 0, -10, 12, 0); add("wide-15minute", grid({-5, -3, -1, 0, 2}, {1, 2, 5, 8}, {0, 1, 2, 3, 4}, F), 2, "15Minute", 0, -10, 12, 0); }
    add("offset-hour", lean, 2, "1Hour", 0, -8, 8, 600); add("offset-day", lean, 2, "1Day", 0, -8, 8, 25200); add("offset-month", lean, 2, "1Month", 0, -8, 8, 86400 * 11 + 3600 * 8);
    add("mixed-precision", grid({-2, 0}, {3, 5}, {0, 1, 4}, {0, 1, 3, 4}, {0, 1}), 2, "1Month", 0, -8, 8, 0);
    if (th) add("mixed-precision-3", grid({-2, 0}, {4}, {0, 4}, {0, 1, 4}, {0, 1}), 3, "1Day", 0, -8, 8, 0);
    // stores that span several whole records (120 periods each)
    auto span = grid({-5, 0, 3, 118}, {4, 120, 245}, {0, 1, 5}, F); add("several-records", span, 2, "1Month", 0, -8, 380, 0);
    struct Sp { const char* e; int n; }; for (Sp s : {Sp{"1Hour", 744}, Sp{"1Day", 366}, Sp{"1Minute", 1440}}) add(std::string("across-a-record-") + s.e, grid({-5, 3, 11}, {30, s.n * 2 + 9}, {0, 5}, {0, 1, 2, 4}), 2, s.e, 0, -8, s.n * 3 + 40, 0);
    auto qn = grid({-2, 0, 1}, {2, 4}, {0, 2, 4}, th ? F : std::vector<int>{0, 1, 4});
    add("quality", qn, 2, "1Month", 1, -8, 8, 0); add("quality-of-two-words", qn, 2, "1Hour", 1 | 8, -8, 8, 0); add("integer-notes", qn, 2, "1Month", 2, -8, 8, 0); add("quality-and-notes", qn, 2, "1Day", 3, -8, 8, 0); add("text-notes", qn, 2, "1Month", 4, -8, 8, 0); add("quality-and-text-notes", qn, 2, "1Month", 5, -8, 8, 0);
  };
  return run(argc, argv, c);
}
