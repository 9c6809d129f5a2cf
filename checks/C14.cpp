// flavour: asan
// The catalog lists exactly the records asked for, in order when sorted, with each record's own attributes; what-changed and check-sums tell what was stored since.
#include "catalog.h"
using namespace catalog;
static const char* const F0 = "/mc/a.dss";
static int put(File& f, const string& p, int seed, int type = 90) { ++*vfs::nowMs; return f.write(p, makeRec(type, 1, 0, 0, 2 + seed % 5, 0, 0, seed + 1)); }
static vector<string> words(const char* ab, int lo, int hi) { vector<string> v; for (uint64_t i = 0; i < seqCount(2, lo, hi); i++) { string s; for (int k : seqDecode(i, 2, lo, hi)) s += ab[k]; v.push_back(s); } return v; }
static string with(int part, const string& v, const char* base = "/P/Q/R/S/T/U/", int part2 = -1, const string& v2 = "") { auto p = split(base); p[part] = v; if (part2 >= 0) p[part2] = v2; string s = "/"; for (auto& x : p) s += x + "/"; return s; }
static vector<Ent> stored(File& f, const vector<string>& paths, const string& key) { vector<Ent> all; for (size_t i = 0; i < paths.size(); i++) { if (put(f, paths[i], i)) { fail(key, "storing %s failed", paths[i].c_str()); return all; } Ent e; e.path = paths[i]; e.type = 90; e.wrote = *vfs::nowMs; all.push_back(e); } return all; }
static void withHashes(vector<Ent>& all, const string& key) { for (auto& d : onDisk(key)) for (auto& e : all) if (e.path == d.path && statusOk(d.status, 0)) e.hash = d.hash; }
static void tsBlock(Ent& e, ll first, ll last) { e.type = 105; e.j1 = (int)cal::dayOf(first); e.j2 = (int)cal::dayOf(last); }
// --- histories
static const char* const X = "/M/N/O/X/Y/Z/"; static const char* const Y = "/A/N/O///LONGER VERSION/"; static const char* const Z = "/M/N/B/X//Z/"; static const char* const G = "/M/N/O/01JAN2001:0100/01JAN2001:0200/GRID/"; 
static const char* const B1 = "/A/B/FLOW/01Dec2001/1Hour/F/"; static const char* const B2 = "/A/B/FLOW/01Jan2002/1Hour/F/";
static const char* const OPS[] = {"store a series", "store a longer series", "store X", "store Y", "store a grid", "delete X", "delete the second block", "rename X to Z", "sorted catalog", "reopen", "squeeze", "store Z"};
struct Hist { File f; std::map<string, Ent> m; ll t = 0;
  bool op(int k, const string& key, int seed) { ++*vfs::nowMs; transition(); ll now = *vfs::nowMs, t0 = cal::julian(2001, 12, 31) * 86400LL; int rc = 0; auto gen = [&](const char* p, int ty) { rc = f.write(p, makeRec(ty, 1, 0, 0, 3 + seed, 0, 0, seed)); Ent e; e.path = p; e.type = ty; e.wrote = now; e.j2 = -1; m[p] = e; };
    auto series = [&](ll a, int n) { vector<double> v; for (int i = 0; i < n; i++) v.push_back(seed * 100 + i); rc = ts::store(f, ts::path("1Hour"), a, v, 0); ll cut = cal::julian(2002, 1, 1) * 86400LL; ll b = a + (n - 1) * 3600LL; auto upd = [&](const char* p, ll x, ll y) { Ent& e = m[p]; if (e.path.empty()) { e.path = p; tsBlock(e, x, y); } else { e.j1 = std::min<int>(e.j1, cal::dayOf(x)); e.j2 = std::max<int>(e.j2, cal::dayOf(y)); } e.wrote = now; }; if (a <= cut) upd(B1, a, std::min(b, cut)); if (b > cut) upd(B2, std::max(a, cut + 3600), b); };
    switch (k) { case 0: series(t0 + 18000, 30); break; case 1: series(t0 - 86400 * 3, 200); break; case 2: gen(X, 90); break; case 3: gen(Y, 300); break; case 4: gen(G, 430); break; case 5: rc = zdelete(f.ifltab, X); if (!m.count(X)) { if (rc == 0) { fail(key, "deleting a missing record succeeded"); return false; } rc = 0; } m.erase(X); break; case 6: rc = zdelete(f.ifltab, B2); if (!m.count(B2)) rc = 0; m.erase(B2); break;
      case 7: rc = zrename(f.ifltab, X, Z); if (!m.count(X)) rc = 0; else { Ent e = m[X]; m.erase(X); e.path = Z; m[Z] = e; } break; case 8: { zStructCatalog* c = zstructCatalogNew(); rc = zcatalog(f.ifltab, nullptr, c, 1); zstructFree(c); if (rc > 0) rc = 0; break; } case 9: f.close(); rc = f.open(F0, 0, 1, 40); break; case 10: rc = zsqueeze7(f.ifltab, 1, 1); for (auto& p : m) p.second.wrote = 0; break; case 11: gen(Z, 90); break; }
    if (rc) { fail(key, "%s returned %d", OPS[k], rc); return false; } return true; }
  bool check(const string& key) { vector<Ent> all = onDisk(key); if (failed()) return false; vector<Ent> valid; for (auto& p : m) valid.push_back(p.second); for (auto& v : valid) for (auto& d : all) if (d.path == v.path && statusOk(d.status, 0)) v.hash = d.hash;
    // the independent reading agrees with the model on which records exist
    Ask u; u.dates = true; if (!expect(f, valid, u, key, "the catalog")) return false; u.sort = 1; if (!expect(f, valid, u, key, "the sorted catalog")) return false; if (!expect(f, valid, u, key, "the sorted catalog, asked again,")) return false; u.dates = false; for (int st : {11, 100, 12, 1}) for (int s : {1, 0}) { u.status = st; u.sort = s; if (!expect(f, all, u, key, strf("the %scatalog of records of status %d", s ? "sorted " : "", st).c_str())) return false; }
    u.status = 0; u.t1 = 100; u.t2 = 199; for (int s : {1, 0}) { u.sort = s; if (!expect(f, valid, u, key, s ? "the sorted catalog of series" : "the catalog of series")) return false; } u = Ask(); u.sort = 1; if (!expect(f, valid, u, key, "the sorted catalog, asked at the end,")) return false; if (zinquire(f.ifltab, "nrec") != (ll)valid.size()) { fail(key, "the file says it holds %d records, the catalog %zu", (int)zinquire(f.ifltab, "nrec"), valid.size()); return false; } return true; } };
int main(int argc, char** argv) {
  Check c; c.id = "C14"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system (the temporary files of a sorted catalog are real)"};
  c.build = [](bool th, std::vector<Family>& fs) {
    { static vector<string> vals = words("Ab", 0, 3), cores = words("aB", 1, 4); static vector<string> pats; if (pats.empty()) { pats = {"*", ""}; for (auto& w : cores) for (int k = 0; k < 4; k++) pats.push_back((k & 1 ? "*" : "") + w + (k & 2 ? "*" : "")); }
      Family f; f.name = "patterns"; f.n = 6ull * pats.size() * 2; f.chunk = 61; f.rule = "records holding every string of up to 3 characters over {A,b} in one part x every pattern: *, none, and every string of 1..4 characters with or without a leading and trailing star, the case swapped; the other parts exact or *; all six parts"; f.describe = [](uint64_t i) { int p = digit(i, 6); int k = digit(i, pats.size()); return with(p, pats[k], i ? "/*/*/*/*/*/*/" : "/p/q/r/s/t/u/"); };
      f.run = [](uint64_t i) { string key = strf("patterns:%llu", (unsigned long long)i); int p = digit(i, 6); int k = digit(i, pats.size()); freshWorld(); File f; if (f.open(F0, 0, 3, 60)) { fail(key, "open"); return; } vector<string> ps; for (auto& v : vals) ps.push_back(with(p, v)); auto all = stored(f, ps, key); if (failed()) return; withHashes(all, key); Ask a; a.pattern = with(p, pats[k], i ? "/*/*/*/*/*/*/" : "/p/q/r/s/t/u/"); if (expect(f, all, a, key, ("the catalog of " + a.pattern).c_str()) && k % 8 == 0) { a.sort = 1; expect(f, all, a, key, ("the sorted catalog of " + a.pattern).c_str()); } f.close(); }; fs.push_back(f); }
    { static const vector<string> vals = {"", "A", "b", "bA", "Ab"}, pats = {"*", "", "a", "a*", "*B", "*a*", "aB*", "*bab"}; int N = pats.size(); Family f; f.name = "pattern-pairs"; f.n = 15ull * N * N; f.chunk = 60; f.rule = "two parts at once: every pair of five values x every pair of eight patterns x every two parts"; static int P[15][2]; int n = 0; for (int a = 0; a < 6; a++) for (int b = a + 1; b < 6; b++) { P[n][0] = a; P[n++][1] = b; } f.describe = [=](uint64_t i) { int q = digit(i, 15), a = digit(i, N), b = digit(i, N); return with(P[q][0], pats[a], "/*/*/*/*/*/*/", P[q][1], pats[b]); };
      f.run = [=](uint64_t i) { string key = strf("pattern-pairs:%llu", (unsigned long long)i); int q = digit(i, 15), ia = digit(i, N), ib = digit(i, N); freshWorld(); File f; if (f.open(F0, 0, 3, 60)) { fail(key, "open"); return; } vector<string> ps; for (auto& v : vals) for (auto& w : vals) ps.push_back(with(P[q][0], v, "/P/Q/R/S/T/U/", P[q][1], w)); auto all = stored(f, ps, key); if (failed()) return; Ask a; a.pattern = with(P[q][0], pats[ia], "/*/*/*/*/*/*/", P[q][1], pats[ib]); expect(f, all, a, key, ("the catalog of " + a.pattern).c_str()); f.close(); }; fs.push_back(f); }
    { Family f; f.name = "filters"; static const int T[] = {90, 100, 105, 110, 115, 200, 205, 300, 310, 400, 430, 450, 600, 610, 20}; static const int ST[] = {0, 1, 11, 12, 100}; f.n = 16ull * 16 * 5 * 3 + 15ull * 3 * 5 * 5 * 3; f.chunk = 64; f.rule = "a record of each of 15 data types stored at different times, some deleted or renamed since: every range of data types x record status x sorted, unsorted, with check-sums; and every comparison with the time of, before and after each record's store x status x sorting"; f.describe = [](uint64_t i) { return strf("case %llu", (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("filters:%llu", (unsigned long long)i); freshWorld(); File f; if (f.open(F0, 0, 2, 60)) { fail(key, "open"); return; } for (int k = 0; k < 15; k++) { *vfs::nowMs += 10; if (f.write(strf("/A/B%d/C//E/F/", (k * 7) % 15), makeRec(T[k], 1, 0, 0, 2, 0, 0, k + 1))) { fail(key, "store"); return; } } *vfs::nowMs += 10; zdelete(f.ifltab, "/A/B7/C//E/F/"); zdelete(f.ifltab, "/A/B0/C//E/F/"); zrename(f.ifltab, "/A/B3/C//E/F/", "/A/RENAMED/C//E/F/");
        Ask a; a.status = 100; List l = get(f, a, key); if (failed()) return; auto all = onDisk(key); if (failed()) return; if (!compare(l, filter(all, a), a, key, "the catalog of everything")) return; for (auto& e : all) for (auto& x : l.e) if (x.path == e.path) e.wrote = x.wrote;
        for (int k = 0; k < 15; k++) { string p = strf("/A/B%d/C//E/F/", (k * 7) % 15); for (auto& e : all) if (e.path == p && e.status == 0) { if (e.wrote != 1700000000000LL + 10 * (k + 1)) { fail(key, "the catalog gives write time %lld for %s", e.wrote, p.c_str()); return; } if (e.type != T[k]) { fail(key, "type of %s", p.c_str()); return; } } }
        a = Ask(); uint64_t N1 = 16ull * 16 * 5 * 3; if (i < N1) { int x = digit(i, 16), y = digit(i, 16); static const int E[] = {0, 20, 90, 100, 101, 105, 110, 115, 200, 205, 300, 310, 430, 450, 600, 610}; a.t1 = E[x]; a.t2 = E[y]; a.status = ST[digit(i, 5)]; int s = digit(i, 3); a.sort = s == 1; a.crc = s == 2; a.dates = s == 1; } else { i -= N1; int k = digit(i, 15); a.time = 1700000000000LL + 10 * (k + 1) + (int)digit(i, 3) - 1; a.flag = (int)digit(i, 5) - 2; a.status = ST[digit(i, 5)]; int s = digit(i, 3); a.sort = s == 1; if (s == 2) a.pattern = "/*/B1*/*/*/*/*/"; if (s == 2) a.sort = k & 1; }
        string what = strf("the %scatalog of %s of types %d to %d, status %d, time %s %lld,", a.sort ? "sorted " : "", a.pattern.empty() ? "all" : a.pattern.c_str(), a.t1, a.t2, a.status, a.flag == -2 ? "<" : a.flag == -1 ? "<=" : a.flag == 0 ? "=" : a.flag == 1 ? ">=" : ">", a.time); if (a.t1 > a.t2 && a.t1) { } expect(f, all, a, key, what.c_str()); f.close(); }; fs.push_back(f); }
    { int D = th ? 5 : 4; Family f; f.name = "histories"; f.n = seqCount(12, 1, D); f.chunk = 32; f.rule = strf("every sequence of up to %d operations out of storing series, records and grids, deleting, renaming, cataloging, reopening and squeezing; then catalogs of every kind, sorted and unsorted, one after the other", D); f.describe = [=](uint64_t i) { string s; for (int k : seqDecode(i, 12, 1, D)) s += string(OPS[k]) + "; "; return s; };
      f.run = [=](uint64_t i) { string key = strf("histories:%llu", (unsigned long long)i); freshWorld(); Hist h; if (h.f.open(F0, 0, 1, 40)) { fail(key, "open"); return; } int n = 0; for (int k : seqDecode(i, 12, 1, D)) if (!h.op(k, key, ++n)) return; h.check(key); h.f.close(); }; fs.push_back(f); }
    { int D = th ? 6 : 4; Family f; f.name = "two-processes"; f.n = seqCount(8, 1, D); f.chunk = 64; f.rule = strf("two processes with the file open: every sequence of up to %d stores, deletions and sorted catalogs by either; after each step, sorted catalogs by both", D); static const char* const O[] = {"store", "store another", "delete", "sorted catalog"}; f.describe = [=](uint64_t i) { string s; for (int k : seqDecode(i, 8, 1, D)) s += string(k < 4 ? "1: " : "2: ") + O[k % 4] + "; "; return s; };
      f.run = [=](uint64_t i) { string key = strf("two-processes:%llu", (unsigned long long)i); freshWorld(); File f[2]; for (int p = 0; p < 2; p++) { vfs::pid = 4242 + p; if (f[p].open(F0, 2, 1, 40)) { fail(key, "open"); return; } } std::map<string, Ent> m; int n = 0; auto all = [&] { vector<Ent> v; for (auto& e : m) v.push_back(e.second); return v; }; for (int k : seqDecode(i, 8, 1, D)) { int p = k / 4; vfs::pid = 4242 + p; ++n; ++*vfs::nowMs; transition(); k %= 4; string q = k == 0 ? "/M/B/C//E/F/" : k == 1 ? strf("/%c/B/C//E/F/", 'Z' - n) : "/M/B/C//E/F/"; if (k < 2) { if (put(f[p], q, n)) { fail(key, "store %d", n); return; } Ent e; e.path = q; e.type = 90; e.wrote = *vfs::nowMs; m[q] = e; } else if (k == 2) { zdelete(f[p].ifltab, q.c_str()); m.erase(q); } Ask a; a.sort = 1; if (!expect(f[p], all(), a, key, strf("step %d: the sorted catalog of the process that made it", n).c_str())) return; if (k == 3) continue; vfs::pid = 4242 + !p; if (n & 1) if (!expect(f[!p], all(), a, key, strf("step %d: the sorted catalog of the other process", n).c_str())) return; } for (int p = 0; p < 2; p++) { vfs::pid = 4242 + p; f[p].close(); } vfs::pid = 4242; }; fs.push_back(f); }
    { static vector<string> ps; if (ps.empty()) { auto rep = [](int n, char c) { return string(n, c); }; for (int p = 0; p < 6; p++) for (int n : {1, 2, 60, 127, 128}) for (char ch : {'M', 'N'}) ps.push_back(with(p, rep(n - 1, 'M') + ch)); } int N = ps.size(); Family f; f.name = "long-parts"; f.n = 6ull * 5 * 3 + N; f.chunk = 4; f.rule = "60 records, each with one part of 1 to 128 characters (the longest part being in different records): stored in each rotation of their order, cataloged sorted and by patterns as long as the parts"; f.describe = [](uint64_t i) { return strf("case %llu", (unsigned long long)i); };
      f.run = [=](uint64_t i) { string key = strf("long-parts:%llu", (unsigned long long)i); freshWorld(); File f; if (f.open(F0, 0, 3, 120)) { fail(key, "open"); return; } vector<string> q; int rot = i < 90 ? i : i - 90; for (int k = 0; k < N; k++) q.push_back(ps[(k * 7 + rot) % N]); auto all = stored(f, q, key); if (failed()) return; Ask a; if (i < 90) { int p = digit(i, 6), n = digit(i, 5), w = digit(i, 3); static const int L[] = {1, 2, 60, 126, 127}; string core(L[n], 'm'); a.pattern = with(p, w == 0 ? core + "*" : w == 1 ? "*" + core : core + (n < 4 ? "m" : "n"), "/*/*/*/*/*/*/"); expect(f, all, a, key, "the catalog of a long pattern"); } a.pattern = ""; a.sort = 1; if (expect(f, all, a, key, "the sorted catalog")) expect(f, all, a, key, "the sorted catalog asked again"); f.close(); }; fs.push_back(f); }
    { Family f; f.name = "order"; f.n = 24 * 6; f.chunk = 4; f.rule = "blocks of series of six intervals from 1000 to 2103 (several versions of different lengths) and grids at many times of several days, stored in many orders: sorted in order of time"; f.describe = [](uint64_t i) { return strf("order %llu", (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("order:%llu", (unsigned long long)i); freshWorld(); File f; if (f.open(F0, 0, 3, 200)) { fail(key, "open"); return; } vector<Ent> want; int variant = digit(i, 6); auto add = [&](const string& p, int ty) { Ent e; e.path = p; e.type = ty; want.push_back(e); }; static const char* const V[] = {"F", "A LONGER VERSION", ""}; 
        if (variant < 3) { static const char* const I[] = {"1Hour", "1Day", "15Minute", "1Minute", "1Month", "1Year"}; for (int v = 0; v < 3; v++) for (int k = variant * 2; k < variant * 2 + 2; k++) for (int y : {1000, 1500, 1899, 1900, 1999, 2000, 2001, 2010, 2103}) for (int m : {1, 2, 11, 12}) for (int d : {1, 9, 10, 28}) { if (k != 3 && d != 1) continue; if (k != 0 && k != 2 && k != 3 && m != 1) continue; add(strf("/A/B/%s/%02d%s%d/%s/%s/", v == 2 ? "FLOW-LONG" : "FLOW", d, upper(cal::mon(m)).c_str(), y, I[k], V[v]), k & 1 ? 100 : 105); } }
        else if (variant < 5) { for (int v = 0; v < 3; v++) for (int dd = 1; dd < 32; dd += variant == 3 ? 15 : 10) for (int y : {1999, 2001}) for (const char* t : {"0001", "0059", "0100", "0130", "0959", "1000", "1640", "1641", "2359", "2400"}) add(strf("/A/B/PRECIP/%02d%s%d:%s/02JAN2003:0000/%s/", dd, dd == 11 ? "FEB" : "JAN", y, t, V[v]), 430); }
        else { for (const char* a : {"A", "AA", "A B", "b", "B2"}) for (const char* d : {"", "01JAN2000", "MONTHLY MAXIMA", "X"}) for (const char* e : {"", "E", "1DAY"}) for (const char* v : {"F", "", "LONG VERSION NAME"}) add(strf("/%s/%s/C/%s/%s/%s/", a, a, d, e, v), 200); }
        size_t n = want.size(); for (size_t k = 0; k < n; k++) { Ent& e = want[(k * (2 * i + 1) * 5 + i * 11) % n]; (void)e; } vector<size_t> idx; for (size_t k = 0; k < n; k++) idx.push_back(k); uint64_t h = i * 77 + 5; for (size_t k = n; k-- > 1;) { h = mix(h, k); std::swap(idx[k], idx[h % (k + 1)]); } for (size_t k : idx) { ++*vfs::nowMs; if (f.write(want[k].path, makeRec(want[k].type, 1, 0, 0, 1, 0, 0, k + 1))) { fail(key, "storing %s", want[k].path.c_str()); return; } want[k].wrote = *vfs::nowMs; } Ask a; a.sort = 1; if (expect(f, want, a, key, "the sorted catalog")) expect(f, want, a, key, "the sorted catalog asked again"); f.close(); }; fs.push_back(f); }
    { static const vector<string> Fp = {"C:000001|XYZ", "C:000002|XYZ", "c:123456|xyz", "C:999999|XYZ", "C:00001|WXYZ", "C:000001|XYW", "D:000001|XYZ", "C:000001-XYZ", "C-000001|XYZ", "XYZ", "C:A0B1C2|XYZ", "C:000003|XYZ2", "C:000003|", "C:000004|", "C:00003|X", "C:00007|X", "", "C:000001|X|Z", "C:000011|X|Z"}; int N = Fp.size(); Family f; f.name = "collections"; f.n = (uint64_t)N * 3; f.chunk = 4; f.rule = "19 versions, members of several collections and near misses, at two places: every one as the seed, by the collection catalog and by a sorted catalog of collections; and every one left out"; f.describe = [](uint64_t i) { return "seed " + Fp[i % Fp.size()]; };
      f.run = [=](uint64_t i) { string key = strf("collections:%llu", (unsigned long long)i); int s = digit(i, N), mode = i; freshWorld(); File f; if (f.open(F0, 0, 2, 100)) { fail(key, "open"); return; } vector<string> ps; for (int pl = 0; pl < 2; pl++) for (int k = 0; k < N; k++) if (!(mode == 2 && k == s)) ps.push_back(strf("/A/B%d/FLOW/01JAN2000/1HOUR/%s/", pl, Fp[(k * 5) % N].c_str())); auto all = stored(f, ps, key); if (failed()) return; Ask a; a.pattern = strf("/A/b1/Flow/01Jan2000/1Hour/%s/", Fp[s].c_str()); if (upper(Fp[s]).substr(0, 2) != "C:" || Fp[s].find('|') == string::npos) { f.close(); return; } if (mode == 1) a.sort = 2; else a.collection = true; expect(f, all, a, key, ("the collection of " + Fp[s]).c_str()); f.close(); }; fs.push_back(f); }
    { int D = th ? 5 : 4; Family f; f.name = "catalog-file"; f.n = seqCount(6, 0, D) * 2 * 3; f.chunk = 32; f.rule = "the catalog written to a file, sorted or not, for up to three records, twice over, onto an absent, shorter or longer file: one name a line, the same names as the catalog in memory in the same order"; f.describe = [](uint64_t i) { return strf("case %llu", (unsigned long long)i); };
      f.run = [=](uint64_t i) { string key = strf("catalog-file:%llu", (unsigned long long)i); static const char* const P[] = {"/B/B/C//E/F/", "/A/B/C//E/F/", "/A/B/C//E/A LONGER ONE/", "/a/B/C//E/F/x/", "", ""}; int sorted = digit(i, 2), old = digit(i, 3); freshWorld(); File f; if (f.open(F0, 0, 2, 40)) { fail(key, "open"); return; } for (int k : seqDecode(i, 6, 0, D)) { if (k < 3) put(f, P[k], k); else zdelete(f.ifltab, P[k - 3]); } string name = "/mc/list.txt"; if (old) vfs::put(name, string(old == 1 ? 5 : 900, 'x'));
        for (int again = 0; again < 3; again++) { zStructCatalog* c = zstructCatalogNew(); if (again == 1) { zcatalog(f.ifltab, nullptr, c, 1); zstructFree(c); c = zstructCatalogNew(); } const char* pat = again == 2 ? "/A/*/*/*/*/*/" : nullptr; int b = fds(), vb = vfs::openFdCount(); transition(); int rc = zcatalogFile(f.ifltab, name.c_str(), sorted, pat); if (fds() != b || vfs::openFdCount() != vb) { fail(key, "file descriptors left open"); zstructFree(c); return; } Ask a; a.sort = sorted; if (pat) a.pattern = pat; List l = get(f, a, key); zstructFree(c); if (failed()) return; string want; for (auto& e : l.e) want += e.path + "\n"; if (rc != (int)l.e.size()) { fail(key, "zcatalogFile returned %d for %zu names", rc, l.e.size()); return; } if (vfs::get(name) != want) { fail(key, "the catalog file says '%s', expected '%s'", vfs::get(name).c_str(), want.c_str()); return; } } f.close(); }; fs.push_back(f); }
    { static const char* const P[] = {"/AP/B/C/D/E/F/", "/B1/B/C/D/E/F/", "/A/D/C//E/G/"}; static const char* const O[] = {"store 1 anew", "store 1 the same", "store 2", "store 2 the same", "store 3", "delete 1", "reopen", "store a series", "store the same series"}; int K = 9, D = th ? 5 : 4; Family f; f.name = "what-changed"; f.n = seqCount(K, 0, D) * 12; f.chunk = 64; f.rule = strf("two records (of equal pathname hash) and a series, a starting point (kept in the file's handle, by the caller, or by the caller and sorted; by time or by check-sum, for all records or a pattern), every sequence of up to %d stores, deletions and reopenings: exactly the records stored since, by check-sum those new or different", D); f.describe = [=](uint64_t i) { uint64_t m = digit(i, 12); string s = strf("mode %d: ", (int)m); for (int k : seqDecode(i, K, 0, D)) s += string(O[k]) + "; "; return s; };
      f.run = [=](uint64_t i) { string key = strf("what-changed:%llu", (unsigned long long)i); bool crc = digit(i, 2); int own = digit(i, 3); bool pat = digit(i, 2); auto seq = seqDecode(i, K, 0, D); freshWorld(); File f; if (f.open(F0, 0, 1, 40)) { fail(key, "open"); return; } std::map<string, std::pair<int, int>> m, start; std::map<string, int> since; auto gen = [&](int p, int seed) { ++*vfs::nowMs; int rc = f.write(P[p], makeRec(90, 1, 0, 0, 3, 0, 0, seed)); m[P[p]] = {90, seed}; since[P[p]] = 1; return rc; }; auto series = [&](int seed) { ++*vfs::nowMs; vector<double> v; for (int k = 0; k < 30; k++) v.push_back(k + seed); int rc = ts::store(f, ts::path("1Hour"), cal::julian(2001, 12, 31) * 86400LL + 18000, v, 0); m[B1] = m[B2] = {105, seed}; since[B1] = since[B2] = 1; return rc; };
        if (gen(0, 1) || gen(1, 2) || series(1)) { fail(key, "store"); return; } const char* w = pat ? "/*/B/*/*/*/*/" : nullptr; zStructCatalog* st = own ? zstructCatalogNew() : nullptr; if (own == 2) st->boolSorted = 1; ++*vfs::nowMs; int rc = zwhatChangedSetStart(f.ifltab, st, w, crc); if (rc < 0) { fail(key, "setting the starting point returned %d", rc); return; } start = m; since.clear(); int seed = 5;
        for (int k : seq) { transition(); rc = 0; ++seed; switch (k) { case 0: rc = gen(0, seed); break; case 1: rc = gen(0, m.count(P[0]) ? m[P[0]].second : 1); break; case 2: rc = gen(1, seed); break; case 3: rc = gen(1, m[P[1]].second); break; case 4: rc = gen(2, seed); break; case 5: ++*vfs::nowMs; zdelete(f.ifltab, P[0]); m.erase(P[0]); since.erase(P[0]); break; case 6: if (own) { f.close(); rc = f.open(F0, 0, 1, 40); } break; case 7: rc = series(seed); break; case 8: rc = series(m[B1].second); break; } if (rc) { fail(key, "%s returned %d", O[k], rc); return; } }
        for (int again = 0; again < 2; again++) { zStructCatalog* ch = zstructCatalogNew(); ++*vfs::nowMs; rc = own ? zwhatChangedCompare(f.ifltab, st, ch, w, crc) : zwhatChanged(f.ifltab, ch); List l; l.rc = rc; if (rc < 0) fail(key, "asking what changed returned %d", rc); else if (rc != ch->numberPathnames) fail(key, "asking what changed returned %d but lists %d", rc, ch->numberPathnames); else copyList(ch, l, key); zstructFree(ch); if (failed()) break; vector<Ent> want; for (auto& p : m) if (since.count(p.first) && matches(p.first, w ? w : "") && (!crc || !start.count(p.first) || start[p.first] != p.second)) { Ent e; e.path = p.first; e.type = p.second.first; want.push_back(e); } if (!compare(l, want, Ask(), key, crc ? "what changed by check-sum" : "what changed")) break; } if (st) zstructFree(st); f.close(); }; fs.push_back(f); }
    { Family f; f.name = "check-sums"; f.n = 3ull * 3 * 3 * 3 * 3 - 1; f.chunk = 16; f.rule = "records of every combination of 0..2 words in each of the three data arrays and two headers: the same check-sum under another name, in another place and file, and with another internal header; a different one with any one bit of one word of each array changed (all 32 bits of each word in turn)"; f.describe = [](uint64_t i) { return strf("sizes %llu", (unsigned long long)i + 1); };
      f.run = [](uint64_t i) { string key = strf("check-sums:%llu", (unsigned long long)i); i++; int a = digit(i, 3), b = digit(i, 3), cc = digit(i, 3), h2 = digit(i, 3), uh = digit(i, 3); Rec r = makeRec(90, 2, h2, uh, a, b, cc, 7); freshWorld(); File f; if (f.open(F0, 0, 2, 60) || f.write("/A/B/C///1/", r)) { fail(key, "store"); return; } unsigned c1 = zgetDataCRC(f.ifltab, "/A/B/C///1/", 0); if (zgetDataCRC(f.ifltab, "/A/B/C///NONE/", 0) != 0) fail(key, "a missing record has a check-sum"); Rec q = r; for (auto& x : q.ih) x += 99; q.ih.push_back(5); if (f.write("/LONGER/B/C///2/", q)) fail(key, "store"); if (zgetDataCRC(f.ifltab, "/LONGER/B/C///2/", 0) != c1) fail(key, "the same data has another check-sum under another name"); f.close(); if (failed()) return; File g; if (g.open(F0)) { fail(key, "open"); return; } if (zgetDataCRC(g.ifltab, "/a/b/c///1/", 0) != c1) { fail(key, "another check-sum after reopening"); return; }
        auto each = [&](vector<int> Rec::*m, const char* nm) { for (size_t w = 0; w < (r.*m).size(); w++) for (int bit = 0; bit < 32 && !failed(); bit++) { Rec z = r; (z.*m)[w] ^= (int)(1u << bit); transition(); if (g.write("/A/B/C///3/", z)) { fail(key, "store"); return; } if (zgetDataCRC(g.ifltab, "/A/B/C///3/", 0) == c1) fail(key, "bit %d of word %zu of %s changed and the check-sum did not", bit, w, nm); } }; each(&Rec::v1, "the first data array"); each(&Rec::v2, "the second data array"); each(&Rec::v3, "the third data array"); each(&Rec::h2, "the second header"); each(&Rec::uh, "the user header"); g.close(); }; fs.push_back(f); }
    { Family f; f.name = "public"; f.n = 8ull * 8 * 5 * 3; f.chunk = 64; f.rule = "the public interface: 0..7 records, lists of 0..7 entries of 8 to 60 characters, with and without a pattern: the first entries of the catalog, each within its own piece of the buffer and terminated; the number of records"; f.describe = [](uint64_t i) { return strf("case %llu", (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("public:%llu", (unsigned long long)i); int n = digit(i, 8), cnt = digit(i, 8); static const int S[] = {8, 17, 18, 19, 60}; int sz = S[digit(i, 5)], pm = i; freshWorld(); dss_file* d = nullptr; if (hec_dss_open(F0, &d)) { fail(key, "open"); return; } vector<string> ps; for (int k = 0; k < n; k++) { float v[1] = {1}; string p = strf("/%c/BB/CCC//E/F%d/", k % 2 ? 'A' : 'a' + 1, k); ++*vfs::nowMs; int iv[2] = {k, 1}; if (hec_dss_arrayStore(d, p.c_str(), iv, 2, v, 1, nullptr, 0)) { fail(key, "store"); return; } ps.push_back(p); } const char* pat = pm == 0 ? "" : pm == 1 ? "/a/*/*/*/*/*/" : "/*/bb/*c*/*/*/f*/"; if (hec_dss_record_count(d) != n) fail(key, "record count %d of %d", hec_dss_record_count(d), n);
        vector<string> want; for (auto& p : ps) if (matches(p, pat)) want.push_back(p); vector<char> buf(cnt * sz + 8, '#'); vector<int> ty(cnt + 1, -7); transition(); int rc = hec_dss_catalog(d, buf.data(), ty.data(), pat, cnt, sz); int lim = std::min<int>(cnt, want.size()); if (rc != lim) { fail(key, "the catalog of %zu names into %d entries returned %d", want.size(), cnt, rc); return; } for (int k = 0; k < 8; k++) if (buf[cnt * sz + k] != '#') { fail(key, "written beyond the end of the buffer"); return; } if (ty[cnt] != -7) { fail(key, "written beyond the end of the list of types"); return; } std::multiset<string> have; for (auto& p : want) have.insert(p.substr(0, sz - 1)); for (int k = 0; k < rc; k++) { const char* s = &buf[k * sz]; if (strnlen(s, sz) >= (size_t)sz) { fail(key, "entry %d is not terminated", k + 1); return; } auto it = have.find(s); if (it == have.end()) { fail(key, "entry %d is '%s'", k + 1, s); return; } have.erase(it); if (ty[k] != 90) { fail(key, "entry %d has type %d", k + 1, ty[k]); return; } } hec_dss_close(d); }; fs.push_back(f); }
  };
  return run(argc, argv, c);
}
