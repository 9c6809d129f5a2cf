// Files open at the same time in one process do not affect each other: whatever is done with one, the other's results and bytes are those of its own operations alone.
#include "reads.h"
using reads::Rd; using reads::LONG; using reads::LIRR;
static const char* const FN[] = {"/mc/a.dss", "/mc/b.dss", "/mc/c.dss"}; static string img[2]; static const ll CLK = 1700000020000LL;
struct Any { string name; std::function<string(File&)> run; bool slow = false; };
static const vector<Any>& A() { static vector<Any> v; if (v.empty()) { for (auto& w : goods()) { auto r = w.run; v.push_back({w.name, [r](File& f) { return strf(" returned %d", r(f)); }}); } for (auto& r : reads::all()) if (!r.mine) v.push_back({r.name, r.run, r.order}); v.push_back({"the access mode, lock and reclaim level", [](File& f) { return strf(" %lld %lld %lld %lld", zinquire(f.ifltab, "mult"), zinquire(f.ifltab, "lock"), zinquire(f.ifltab, "recl"), zinquire(f.ifltab, "write")); }}); } return v; }
static int nW() { static int n = goods().size(); return n; }
// what may happen to other files: everything above on the second file, and uses of files that fail or come and go
static const vector<Any>& B() { static vector<Any> v; if (v.empty()) { v = A(); auto add = [&](const char* n, std::function<string(File&)> r) { v.push_back({n, r}); };
    add("opening a file that is not of this kind", [](File&) { vfs::put("/mc/t.dss", string(2000, 'x')); File x; int rc = x.open("/mc/t.dss"); return strf(" %d", rc); }); add("opening a file of version 6", [](File&) { string s(4000, 0); memcpy(&s[0], "ZDSS", 4); memcpy(&s[16], "6-AB", 4); vfs::put("/mc/t.dss", s); File x; int rc = zopenExtended(x.ifltab, "/mc/t.dss", 7, 0, 0, 0, 0); return strf(" %d", rc); });
    add("opening a file in a directory that is not there", [](File&) { File x; return strf(" %d", x.open("/mc-none/such/dir.dss", 0)); }); add("opening a missing file for reading", [](File&) { File x; return strf(" %d", x.open("/mc/none.dss", 1)); }); add("asking for the versions of files", [](File&) { return strf(" %d %d %d", hec_dss_getFileVersion("/mc/b.dss"), hec_dss_getFileVersion("/mc/none.dss"), hec_dss_getFileVersion("/mc/other.dss")); });
    add("making, filling and closing a third file", [](File&) { File x; int rc = x.open(FN[2], 0, 2, 60); for (int k = 0; k < 8 && !rc; k++) rc = put(x, k, reg(k) ? SF : irreg(k) ? SI : strf("/R/%d/D///F/", k).c_str(), k); x.close(); return strf(" %d", rc); }); add("opening the second file once more, reading and closing", [](File&) { File x; int rc = x.open(FN[1], 1); string s = reads::text(x, TX); x.close(); return strf(" %d", rc) + s; });
    add("squeezing a third file", [](File&) { File x; x.open(FN[2], 0, 2, 60); put(x, 0, TX, 3); put(x, 0, TX, 30); x.close(); return strf(" %d", zsqueeze(FN[2])); }); add("copying the second file to a third", [](File& f) { File x; x.open(FN[2], 0, 2, 60); int rc = zcopyFile(f.ifltab, x.ifltab, 0); x.close(); return strf(" %d", rc); });
    add("closing and opening again", [](File& f) { string p = f.path; int a = f.close(), b = f.open(p, 0); return strf(" %d %d", a, b); }); add("an operation on a handle that is not open", [](File&) { File x; return strf(" %d", isErr(zdelete(x.ifltab, TX))); }); add("a store refused", [](File& f) { return strf(" %d", isErr(tsRaw(f, SF, "40Foo2001", "0100", 10, true, 0))); }); add("a write to a file open for reading", [](File& f) { File x; x.open(FN[1], 1); int rc = put(x, 0, TX, 9); x.close(); return strf(" %d", isErr(rc)); });
    add("choosing the access mode of a third file before opening it", [](File&) { File x; memset(x.ifltab, 0, sizeof x.ifltab); int a = zsetFile(x.ifltab, "mult", "", 2), b = zopenExtended(x.ifltab, FN[2], 7, 0, 0, 2, 60), c = put(x, 0, TX, 3), d = zclose(x.ifltab); return strf(" %d %d %d %d", isErr(a), b, c, d); });
    add("announcing the size of a third file and making it", [](File&) { zset("maxp", "", 20000); File x; memset(x.ifltab, 0, sizeof x.ifltab); int b = zopenExtended(x.ifltab, FN[2], 7, 0, 0, 0, 0), c = put(x, 0, TX, 3), d = zclose(x.ifltab); return strf(" %d %d %d", b, c, d); }); add("making a third file meant for collections", [](File&) { zset("coll", "", 1); File x; memset(x.ifltab, 0, sizeof x.ifltab); int b = zopenExtended(x.ifltab, FN[2], 7, 0, 0, 0, 0), c = put(x, 0, TX, 3), d = zclose(x.ifltab); return strf(" %d %d %d", b, c, d); }); add("making a large third file", [](File&) { File x; memset(x.ifltab, 0, sizeof x.ifltab); int b = zopenExtended(x.ifltab, FN[2], 7, 0, 100000, 0, 0), c = put(x, 0, TX, 3), d = zclose(x.ifltab); return strf(" %d %d %d", b, c, d); });
    add("setting the reclaim level", [](File& f) { zsetFile(f.ifltab, "recl", "", 3); return string(); }); add("deleting every record", [](File& f) { for (auto& p : f.catalog("", 0, 0)) zdelete(f.ifltab, p.c_str()); return string(); }); } return v; }
static bool bases(const string& key) { freshWorld(); *vfs::nowMs = 1700000000000LL; { File o; if (o.open("/mc/other.dss", 0, 0, 0) || Array::make("/O/O/O///O/", 4, 2, 1, 0, 3)->put(o)) { fail(key, "the other file"); return false; } o.close(); }
  if (img[0].empty()) { cached.clear(); { File f; if (!world(key, f, 0)) return false; vector<double> v; irr::Series s; ll t0 = cal::julian(2001, 12, 20) * 86400LL; for (int i = 0; i < 500; i++) { v.push_back(i * 0.25); if (i % 9 == 0) s[t0 + i * 4000] = {i * 1.0, i % 3, 0, ""}; } bool bad = ts::store(f, LONG, t0 + 3600, v, 0) || irr::store(f, LIRR, s, 0, true, 60, true) || zaliasAdd(f.ifltab, TX, reads::ALIAS); for (int i = 1; i <= 3; i++) bad = bad || put(f, 3, strf("/R/COLL/FLOW/01Dec2001/1Hour/C:00000%d|RUN/", i).c_str(), i); f.close(); if (bad) { fail(key, "making the first file"); return false; } img[0] = vfs::get(F0); }
    // the second: the same names, other contents, sizes, order and layout
    { File f; vfs::del(FN[1]); if (f.open(FN[1], 0, 2, 60)) { fail(key, "open"); return false; } static const int ks[] = {12, 11, 9, 7, 5, 3, 2, 0}; const char* const ps[] = {BL, TI, GR, PA, SI, SF, AR, TX}; bool bad = put(f, 0, "/R/THREE/TEXT///F/", 9); for (int i = 0; i < 8; i++) bad = bad || put(f, ks[i], ps[i], 20 + i); vector<double> v; for (int i = 0; i < 90; i++) v.push_back(i * 3.0); irr::Series s; ll t0 = cal::julian(2001, 12, 20) * 86400LL; for (int i = 0; i < 70; i++) s[t0 + i * 9000] = {i * 5.0, 0, 0, ""}; bad = bad || ts::store(f, LONG, t0 + 36000, v, 0) || irr::store(f, LIRR, s, 0, false, 60, false) || put(f, 0, MOVED, 8) || put(f, 0, GONE, 5) || zdelete(f.ifltab, MOVED) || zaliasAdd(f.ifltab, AR, reads::ALIAS) || put(f, 3, "/R/COLL/FLOW/01Dec2001/1Hour/C:000002|RUN/", 9); f.close(); if (bad) { fail(key, "making the second file"); return false; } img[1] = vfs::get(FN[1]); } }
  vfs::put(FN[0], img[0]); vfs::put(FN[1], img[1]); vfs::del(FN[2]); *vfs::nowMs = CLK; return true; }
// a failure of the k-th read or write of a step: that one, all from there on, or a part only
static long fAt = -1, fSeen, fBudget; static int fMode; static bool fHit;
static int fHook(const vfs::Op& o) { if (fBudget-- <= 0) return EIO; if (o.kind != vfs::OP_READ && o.kind != vfs::OP_WRITE) return 0; long k = fSeen++; if (k < fAt || (k > fAt && fMode == 0) || (k > fAt && fMode == 2)) return 0; fHit = true; if (fMode == 2) return o.len > 1 ? -(int)(o.len / 16 * 8) - 1 : EIO; return o.kind == vfs::OP_WRITE ? ENOSPC : EIO; }
// a step: operation k on file w; -1 opens, -2 closes. Every file sees the same times whatever happens elsewhere.
struct Step { int w, k; bool faulty = false; };
struct Result { string out[2], bytes[2]; };
static bool bare = false;   // the first file is made anew, with default sizes, instead of being there
static bool play(const string& key, const vector<Step>& st, Result& r, int acc0 = 0, int acc1 = 0) { if (!bases(key)) return false; File o; if (o.open("/mc/other.dss", 1)) { fail(key, "other"); return false; } other = &o; int fd0 = vfs::openFdCount(); bool faulted = false; File f[2]; int at[2] = {0, 0}; if (bare) vfs::del(FN[0]);
  for (auto& s : st) { *vfs::nowMs = CLK + 1000 * ++at[s.w]; transition(); if (s.k == -1) { int rc = f[s.w].open(FN[s.w], s.w ? acc1 : acc0, 0, 0); if (rc) { fail(key, "opening file %d returned %d", s.w + 1, rc); return false; } } else if (s.k == -2) { int rc = f[s.w].close(); if (rc && !(faulted && s.w)) { fail(key, "closing file %d returned %d", s.w + 1, rc); return false; } } else { if (s.faulty) { fSeen = 0; fHit = false; fBudget = 100000; vfs::hook = fHook; } r.out[s.w] += (s.w ? B() : A())[s.k].run(f[s.w]) + ";"; vfs::hook = nullptr; if (s.faulty) { faulted = true; if (!fHit) { for (auto& x : f) x.close(); return true; } } } }
  for (auto& x : f) x.close(); int fd1 = vfs::openFdCount(); if (fd1 != fd0 && !faulted) { fail(key, "%d file descriptors are left open", fd1 - fd0); return false; } o.close(); for (int w = 0; w < 2; w++) r.bytes[w] = vfs::get(FN[w]); return true; }
static const Result& solo(const string& key, const vector<Step>& all, int w, int acc0, int acc1) { static std::map<vector<int>, Result> m; for (auto& s : all) if (s.w == w && s.faulty) { static Result none; return none; } vector<int> k = {w + (bare ? 2 : 0), w ? acc1 : acc0}; vector<Step> mine; for (auto& s : all) if (s.w == w) { k.push_back(s.k); mine.push_back(s); } auto i = m.find(k); if (i != m.end()) return i->second; if (m.size() > 3000) m.clear(); Result r; play(key, mine, r, acc0, acc1); return m[k] = r; }
static string tell(const vector<Step>& st) { string s; for (auto& x : st) s += strf("%s%s on file %d", s.empty() ? "" : ", ", x.k == -1 ? "open" : x.k == -2 ? "close" : (x.w ? B() : A())[x.k].name.c_str(), x.w + 1); return s; }
static void both(const string& key, const vector<Step>& st, int acc0 = 0, int acc1 = 0) { Result s0 = solo(key, st, 0, acc0, acc1), s1 = solo(key, st, 1, acc0, acc1), r; if (failed() || !play(key, st, r, acc0, acc1)) return; execution();
  bool faulty = false; for (auto& x : st) faulty = faulty || x.faulty; if (faulty && !fHit) return; for (int w = 0; w < (faulty ? 1 : 2); w++) { const Result& s = w ? s1 : s0; state(hashBytes(r.out[w].data(), r.out[w].size(), w)); if (r.out[w] != s.out[w]) { size_t d = 0; while (d < r.out[w].size() && d < s.out[w].size() && r.out[w][d] == s.out[w][d]) d++; d = d > 60 ? d - 60 : 0; fail(key, "%s: file %d gives ..%s, by itself ..%s", tell(st).c_str(), w + 1, r.out[w].substr(d, 400).c_str(), s.out[w].substr(d, 400).c_str()); return; }
    if (r.bytes[w] != s.bytes[w]) { fail(key, "%s: file %d is not what it is by itself: %s", tell(st).c_str(), w + 1, firstDiff(s.bytes[w], r.bytes[w]).c_str()); return; } } }
// several files at a time: each the same as when it is alone
static string NAMES(int w) { return strf("/mc/m%d.dss", w); }
static void oneStep(File& f, int w, int r, int k, string& out) { *vfs::nowMs = CLK + 1000 * r; int kk = (k + w * 5 + r * 3) % 13; string p = reg(kk) ? SF : irreg(kk) ? SI : strf("/R/%d/D///F/", kk).c_str(); out += strf("%d ", put(f, kk, p.c_str(), w * 7 + r)); }
static void oneLook(File& f, string& out) { for (auto& p : f.catalog("", 0, 0)) { Rec q; out += p + strf(" %d", zdataType(f.ifltab, p.c_str())); int rc = f.read(p, q); out += strf(" %d %zu;", rc, q.v1.size()); } }
static const std::pair<string, string>& alone(int w, int k, int hash, int shut) { static std::map<vector<int>, std::pair<string, string>> m; vector<int> key = {w, k, hash, shut}; auto i = m.find(key); if (i != m.end()) return i->second; freshWorld(); string o; File f; f.open(NAMES(w), 0, hash + w, 60); for (int r = 0; r < 3; r++) { oneStep(f, w, r, k, o); if (shut == r) { *vfs::nowMs = CLK + 500; f.close(); f.open(NAMES(w), 0); } } oneLook(f, o); *vfs::nowMs = CLK + 9000; f.close(); return m[key] = {o, vfs::get(NAMES(w))}; }
static void several(const string& key, int n, int k, int order, int hash, int shut, int who) { vector<std::pair<string, string>> want; for (int w = 0; w < n; w++) want.push_back(alone(w, k, hash, shut >= 0 && (who < 0 || who % n == w) ? shut : -1)); freshWorld(); vector<File> f(n); vector<string> out(n); vector<int> ord; for (int w = 0; w < n; w++) ord.push_back(order == 0 ? w : order == 1 ? n - 1 - w : (w * 3 + 1) % n); if (order == 2 && n % 3 == 0) for (int w = 0; w < n; w++) ord[w] = (w + n / 2) % n;
  execution(); *vfs::nowMs = CLK; for (int w = 0; w < n; w++) { *vfs::nowMs = 1700000000000LL; int rc = f[w].open(NAMES(w), 0, hash + w, 60); if (rc) { fail(key, "opening file %d of %d returned %d", w + 1, n, rc); return; } }
  for (int r = 0; r < 3; r++) for (int w : ord) { transition(); oneStep(f[w], w, r, k, out[w]); if (shut == r && (who < 0 || who % n == w)) { *vfs::nowMs = CLK + 500; f[w].close(); f[w].open(NAMES(w), 0); } }
  for (int w : ord) oneLook(f[w], out[w]); for (int x = 0; x < n; x++) { int w = ord[n - 1 - x]; *vfs::nowMs = CLK + 9000; int rc = f[w].close(); if (rc) { fail(key, "closing file %d of %d returned %d", w + 1, n, rc); return; } } if (vfs::openFdCount()) { fail(key, "%d file descriptors are left open", vfs::openFdCount()); return; }
  for (int w = 0; w < n; w++) { state(vfs::contentHash(NAMES(w))); if (out[w] != want[w].first) { fail(key, "%d files open: file %d gives %s, by itself %s", n, w + 1, out[w].c_str(), want[w].first.c_str()); return; } string b = vfs::get(NAMES(w)); if (b != want[w].second) { fail(key, "%d files open: file %d is not what it is by itself: %s", n, w + 1, firstDiff(want[w].second, b).c_str()); return; } } }
int main(int argc, char** argv) {
  Check c; c.id = "C20"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system", "one thread"};
  c.build = [](bool th, std::vector<Family>& fs) { int na = A().size(), nb = B().size(), nw = nW();
    auto add = [&](const char* name, const string& rule, uint64_t n, int chunk, std::function<string(uint64_t)> desc, std::function<void(uint64_t, const string&)> run) { Family f; f.name = name; f.rule = rule; f.n = n; f.chunk = chunk; string nm = name; f.describe = desc; f.run = [=](uint64_t i) { string key = strf("%s:%llu", nm.c_str(), (unsigned long long)i); run(i, key); }; fs.push_back(f); };
    int first = th ? na : 8; static bool t; t = th;
    auto around = [=](uint64_t i) { int b = digit(i, nb), a2 = digit(i, na); int a1 = t ? (int)i : ((int)i * 41 + a2 * 7 + b * 3) % na; return vector<Step>{{0, -1}, {1, -1}, {0, a1}, {1, b}, {0, a2}, {1, -2}, {0, -2}}; };
    add("around another file", strf("an operation on one file, any operation on another or a use of a third, any operation on the first: %d x %d x %d", first, nb, na), (uint64_t)nb * na * first, 200, [=](uint64_t i) { return tell(around(i)); }, [=](uint64_t i, const string& key) { auto s = around(i); if (A()[s[2].k].slow + B()[s[3].k].slow + A()[s[4].k].slow > (t ? 3 : 1)) return; both(key, s); });
    { static vector<vector<int>> merges; static const int L = 4; if (merges.empty()) for (int m = 0; m < 256; m++) if (__builtin_popcount(m) == L) { vector<int> v; for (int b = 0; b < 8; b++) v.push_back(m >> b & 1); merges.push_back(v); }
      static vector<int> pick; if (pick.empty()) { for (const char* n : {"storing a float series over the one there", "renaming /R/ONE/TEXT///F/", "deleting /R/TWO/ARR///F/", "storing a text over the one there", "writing a raw record", "copying a file into the file", "undeleting"}) for (int k = 0; k < na; k++) if (A()[k].name == n) pick.push_back(k); for (int k = nw; k < na; k++) if (A()[k].name == string("the text of ") + TX || A()[k].name.find("the raw record /R/TWO") == 0) pick.push_back(k); } int np = pick.size(), P = th ? np : std::min(np, 7);
      auto dec = [=](uint64_t i) { auto& m = merges[digit(i, merges.size())]; int q[4]; for (auto& x : q) x = pick[digit(i, P)]; int at[2] = {0, 0}; vector<Step> s; for (int w : m) { int k = at[w]++; s.push_back({w, k == 0 ? -1 : k == 3 ? -2 : q[w * 2 + k - 1]}); } return s; };
      uint64_t n = merges.size(); for (int k = 0; k < 4; k++) n *= P; add("interleaved", strf("two files, each opened, worked on twice and closed: all %zu orders of the eight steps x all operations of %d", merges.size(), P), n, 200, [=](uint64_t i) { return tell(dec(i)); }, [=](uint64_t i, const string& key) { both(key, dec(i)); }); }
    { static const int AC[] = {0, 1, 2, 4}; add("access modes", "every operation on one file while the other is open, in each two access modes, x an operation on the other before or after", (uint64_t)na * 4 * 4 * 2 * (t ? nb : 12), 100, [=](uint64_t i) { int a = digit(i, na), x = digit(i, 4), y = digit(i, 4); return strf("%s, access modes %d and %d, %d", A()[a].name.c_str(), AC[x], AC[y], (int)i); }, [=](uint64_t i, const string& key) { int a = digit(i, na), x = digit(i, 4), y = digit(i, 4), b = ((int)i / 2 * 29 + a * 11) % nb; if (A()[a].slow) return; vector<Step> s = {{1, -1}, {0, -1}, {0, a}, {1, b}, {1, -2}, {0, -2}}; if (i % 2) std::swap(s[2], s[3]); both(key, s, AC[x], AC[y]); }); }
    { int K = th ? 40 : 10; auto dec = [=](uint64_t i) { int k = digit(i, K), m = digit(i, 3), b = digit(i, nb), a2 = digit(i, na); fAt = k; fMode = m; int a1 = (a2 * 31 + b * 7 + (int)i * 13) % na; vector<Step> s = {{0, -1}, {1, -1}, {0, a1}, {1, b}, {0, a2}, {1, -2}, {0, -2}}; s[3].faulty = true; return s; };
      add("while another fails", strf("an operation on one file after a read or write of any operation on another has failed: its 1st to %dth fails, it and all later ones fail, or it transfers only a part", K), (uint64_t)K * 3 * nb * na * (th ? 3 : 1), 200, [=](uint64_t i) { auto s = dec(i); return tell(s) + strf(", read or write %ld of it %s", fAt, fMode == 0 ? "fails" : fMode == 1 ? "and all later ones fail" : "transfers a part"); }, [=](uint64_t i, const string& key) { auto s = dec(i); if (A()[s[2].k].slow + B()[s[3].k].slow + A()[s[4].k].slow > 0) return; both(key, s); }); }
    add("made anew", "one file made with the default sizes after or before any operation on another or use of a third, x an operation on the first", (uint64_t)nb * na * 2, 40, [=](uint64_t i) { int b = digit(i, nb), a = digit(i, na); return strf("%s on file 2, file 1 made %s, %s on it", B()[b].name.c_str(), i ? "before" : "after", A()[a].name.c_str()); }, [=](uint64_t i, const string& key) { int b = digit(i, nb), a = digit(i, na); if (A()[a].slow + B()[b].slow > 0) return; vector<Step> s = {{1, -1}, {1, b}, {0, -1}, {0, a}, {0, -2}, {1, -2}}; if (i) std::swap(s[1], s[2]); bare = true; both(key, s); bare = false; });
    { int M = 11; add("several files", strf("1 to %d files open at a time, 3 stores of 13 kinds to each in turn, in 3 orders, 4 table sizes, none, one or all of them closed and opened again in between", M), (uint64_t)M * 13 * 3 * 4 * 7, 20, [=](uint64_t i) { return strf("case %llu", (unsigned long long)i); }, [=](uint64_t i, const string& key) { int n = 1 + digit(i, M), k = digit(i, 13), o = digit(i, 3), h = digit(i, 4); int sh = (int)i == 0 ? -1 : ((int)i - 1) % 3, who = i == 0 ? -1 : i < 4 ? -1 : k + o; several(key, n, k, o, 1 + h * 5, sh, who); }); }
  };
  return run(argc, argv, c);
}
