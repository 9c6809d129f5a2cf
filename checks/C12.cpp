// An input or output operation that fails inside a call.
#include "alphabets.h"
#include "fault.h"
#include "stores.h"
using namespace store; using items::P;
using crash::Plan;
static int apply(File& f, const Op& o, const Cfg& C) { static auto recs = R(); const std::string &A = C.paths[o.a], &B = C.paths[o.b]; switch (o.code) { case WRITE: return f.write(A, recs[o.rec]); case DEL: return zdelete(f.ifltab, A.c_str()); case UNDEL: return zundelete(f.ifltab, A.c_str()); case REN: return zrename(f.ifltab, A.c_str(), B.c_str()); case DUP: return zduplicateRecord(f.ifltab, A.c_str(), B.c_str()); case RECLAIM: return zsetFile(f.ifltab, "recl", "", o.rec); case REOPEN: f.close(); return f.open("/mc/a.dss", 0, C.hash, C.bin); } return 0; }
static const char* const BG = "/BACK/GROUND////R/";
static void records(std::vector<Family>& fs, const Cfg& cf, int d, int level) {
  auto C = std::make_shared<Cfg>(cf); size_t k = cf.ops.size(); Family f; f.name = strf("%s-%d%s", cf.name, d, level ? "-reclaim" : ""); f.n = seqCount(k, d, d); f.chunk = 4; f.rule = strf("all %d-operation histories over %zu operations; every read and write of the last one fails in four ways", d, k);
  f.describe = [C, d, k](uint64_t i) { std::string s; for (int o : seqDecode(i, k, d, d)) s += (s.empty() ? "" : ",") + std::string(C->ops[o].name); return s; };
  f.run = [=](uint64_t i) { auto seq = seqDecode(i, k, d, d); Op last = C->ops[seq[d - 1]]; if (last.code == REOPEN || last.code == RECLAIM) return; Plan p; p.hash = C->hash; p.bin = C->bin; p.blk = C->blk; p.level = level; for (int o : seq) p.what += (p.what.empty() ? "" : ",") + std::string(C->ops[o].name); p.key = strf("%s:%s", cf.name, last.name);
    p.setup = [=](File& f) { if (level) f.write("/GONE/BEFORE////R/", makeRec(90, 3, 1, 2, 44, 2, 2, 5)); f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); if (level) zdelete(f.ifltab, "/GONE/BEFORE////R/"); for (int j = 0; j + 1 < d; j++) { *vfs::nowMs += 1000; if (isErr(apply(f, C->ops[seq[j]], *C)) && C->ops[seq[j]].code == REOPEN) return 1; } return 0; };
    p.action = [=](File& f) { return apply(f, last, *C); }; if (last.code == REN) { p.renFrom = C->paths[last.a]; p.renTo = C->paths[last.b]; } fault::explore(p); };
  fs.push_back(f); }
// questions: the answer in `s`; an error status is an acceptable answer to a question whose reading failed
static const char* const Q[] = {"read", "read a missing record", "catalog", "catalog with a filter", "does it exist", "does a missing one exist", "its data type", "retrieve text", "retrieve array", "retrieve location", "retrieve grid", "retrieve TIN", "retrieve file", "retrieve series, window", "retrieve series, all", "retrieve irregular series", "first and last time", "check-sum", "number of records", "open another handle", "close and open", "copy the file"};
static int ask(int q, File& f, std::string& s) { auto item = [&](int k) { std::string m; mc::capture = &m; bool ok = kind(k, 1)->check(f, "x", "it"); mc::capture = nullptr; if (ok) { s = "as stored"; return 0; } auto p = m.find("returned "); int rc = p == std::string::npos ? 0 : atoi(m.c_str() + p + 9); s = m; return isErr(rc) ? rc : 0; };
  auto got = [&](const ts::Got& g) { s = strf("status %d:", isErr(g.status) ? 0 : g.status); for (size_t i = 0; i < g.v.size(); i++) s += strf(" %lld=%g", i < g.times.size() ? g.times[i] : -1, g.v[i]); return isErr(g.status) ? g.status : 0; }; cal::ll t0 = cal::julian(2001, 12, 31) * 86400LL;
  switch (q) { case 0: case 1: { Rec r; int st = f.read(q ? "/NOT/THERE////R/" : BG, r); s = strf("%d ", isErr(st) ? 0 : st) + r.str(); return isErr(st) ? st : 0; } case 2: case 3: { int rc; auto c = f.catalog(q == 3 ? "/S/*/*/*/*/*/" : "", 0, 0, &rc); for (auto& p : c) s += p + " "; return rc < 0 ? -999 : 0; }
    case 4: case 5: { int st = zcheck(f.ifltab, q == 4 ? BG : "/NOT/THERE////R/"); s = strf("%d", st); return isErr(st) ? st : 0; } case 6: { int st = zdataType(f.ifltab, "/S/A/ARR///F/"); s = strf("%d", st); return st < 0 ? -999 : 0; } case 7: return item(1); case 8: return item(3); case 9: return item(5); case 10: return item(7); case 11: return item(9); case 12: return item(11);
    case 13: return got(ts::retrieve(f, ts::path("1Hour"), t0 - 86400 * 25, t0 + 86400 * 25)); case 14: return got(ts::retrieve(f, ts::path("1Hour", "01Dec2001"), "", "", "", "", 0, 2, 1, true)); case 15: return got(ts::retrieve(f, ts::path("IR-Day"), t0 - 86400, t0 + 86400 * 3));
    case 16: { int a = 0, b = 0, c = 0, d = 0; int st = ztsGetDateTimeRange(f.ifltab, ts::path("1Hour", "01Dec2001").c_str(), 1, &a, &b, &c, &d); s = strf("%d %d %d %d", a, b, c, d); return isErr(st) ? st : 0; } case 17: { unsigned u = zgetDataCRC(f.ifltab, BG, 0); s = strf("%u", u); return u == 0 ? -999 : 0; } case 18: { long long n = zinquire(f.ifltab, "NREC"); s = strf("%lld", n); return 0; }
    case 19: { File g; int st = g.open("/mc/a.dss"); if (st) return st; Rec r; int rr = g.read(BG, r); s = strf("%d ", isErr(rr) ? 0 : rr) + r.str(); g.close(); return isErr(rr) ? rr : 0; } case 20: { f.close(); int st = f.open("/mc/a.dss"); if (st) return st; Rec r; int rr = f.read(BG, r); s = strf("%d ", isErr(rr) ? 0 : rr) + r.str(); return isErr(rr) ? rr : 0; }
    case 21: { File g; int st = g.open("/mc/b.dss", 0, 7); if (st) return st; st = zcopyFile(f.ifltab, g.ifltab, 0); int cl = g.close(); (void)cl; if (st) return st; File h; fault::on = false; crash::Img m; auto hk = vfs::hook; vfs::hook = nullptr; if (!crash::image("/mc/b.dss", m)) s = "cannot be opened"; for (auto& e : m) s += e.first + " " + e.second.r.str() + "; "; vfs::hook = hk; return 0; } }
  return 0; }
int main(int argc, char** argv) {
  Check c; c.id = "C12"; c.level = "fault_enumeration";
  c.assumptions = {"in-memory file system; reads fail with EIO, writes with ENOSPC, or transfer about half; positioning and locking do not fail"};
  c.build = [](bool th, std::vector<Family>& fs) { for (auto& cf : cfgs()) { std::string n = cf.name; records(fs, cf, 2, 0); records(fs, cf, 3, 0); if (n == "same-bin" || n == "varied-length" || n == "case-variants") records(fs, cf, 3, 3); if (th) { records(fs, cf, 4, 0); records(fs, cf, 3, 2); } }
    for (auto& cf : cfgs()) { auto C = std::make_shared<Cfg>(cf); size_t k = cf.ops.size(); std::string nm = cf.name; int d = nm == "same-bin" || nm == "hash-collision" || nm == "small-blocks" ? 2 : 1; if (th) d++; Family f; f.name = strf("%s-squeeze", cf.name); f.n = seqCount(k, d, d) * 3; f.chunk = 4; f.rule = strf("a squeeze (by name, of an open file in place, of an open file by replacement) after all %d-operation histories: every read, write, truncation, deletion and renaming fails in four ways, or is where the squeeze is cancelled", d); f.describe = [=](uint64_t i) { std::string s = i % 3 == 0 ? "zsqueeze after " : i % 3 == 1 ? "in place after " : "by replacement after "; for (int o : seqDecode(i / 3, k, d, d)) s += std::string(C->ops[o].name) + ","; return s; };
      f.run = [=](uint64_t i) { auto seq = seqDecode(i / 3, k, d, d); Plan p; p.hash = C->hash; p.bin = C->bin; p.blk = C->blk; p.key = strf("%s:squeeze%d", C->name, (int)(i % 3)); for (int o : seq) p.what += std::string(C->ops[o].name) + ","; p.setup = [=](File& f) { f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); for (int o : seq) { *vfs::nowMs += 1000; if (isErr(apply(f, C->ops[o], *C)) && C->ops[o].code == REOPEN) return 1; } return 0; }; fault::exploreSqueeze(p, i % 3); }; fs.push_back(f); }
    { static const int SZ[] = {32000, 64000, 131072, 200000}; Family f; f.name = "large-squeeze"; f.n = 3 * (th ? 4 : 3); f.chunk = 1; f.rule = "the same for files of several copying blocks (128 KB to 800 KB)"; f.describe = [](uint64_t i) { return strf("squeeze way %d, record of %d values", (int)(i % 3), SZ[i / 3]); };
      f.run = [](uint64_t i) { Plan p; p.hash = 7; p.bin = 40; p.key = strf("large:squeeze%d", (int)(i % 3)); p.what = strf("a record of %d values", SZ[i / 3]); int n = SZ[i / 3]; p.setup = [=](File& f) { f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); f.write("/L/A/R/G/E//", makeRec(90, 1, 0, 0, n, 0, 0, 4)); return f.write("/BACK/GROUND////S/", makeRec(90, 3, 1, 2, 44, 2, 2, 5)); }; fault::exploreSqueeze(p, i % 3); }; fs.push_back(f); }
    { Family f; f.name = "questions"; f.n = sizeof Q / sizeof *Q * 4; f.chunk = 1; f.rule = "reading, listing, retrieving, opening and copying a file that holds records of every kind: every read and write fails in four ways; the answer is an error or the right one"; f.describe = [](uint64_t i) { return strf("%s, arrangement %d", Q[i / 4], (int)(i % 4)); };
      f.run = [](uint64_t i) { Plan p; int q = i / 4, c = i % 4; p.hash = c & 1 ? 50 : 1; p.bin = c & 2 ? 200 : 40; p.blk = c == 0 ? 2 : 0; p.key = strf("question:%s", Q[q]); p.what = Q[q]; p.setup = [=](File& f) { f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); for (int k = 1; k < 12; k += 2) kind(k, 1)->put(f); for (int k : {2, 4, 6}) storeTs(f, k); f.write("/GONE/BEFORE////R/", makeRec(90, 3, 1, 2, 44, 2, 2, 5)); zdelete(f.ifltab, "/GONE/BEFORE////R/"); return 0; };
        auto want = std::make_shared<std::string>(); p.action = [=](File& f) { std::string s; bool first = want->empty(); int rc = ask(q, f, s); if (first) { *want = s + "."; return rc; } if (rc == 0 && s + "." != *want) { if (verbose()) fprintf(stderr, "answer %s\ninstead of %s\n", s.c_str(), want->c_str()); return -777; } return rc; }; fault::explore(p); }; fs.push_back(f); }
    { Family f; f.name = "typed-stores"; f.n = 12 * 13; f.chunk = 2; f.rule = "storing text, arrays, locations, grids, TINs and embedded files, new or over every other kind already stored"; f.describe = [](uint64_t i) { return kind(i % 12, 1)->str() + (i / 12 ? " over " + kind(i / 12 - 1, 2)->str() : " new"); };
      f.run = [=](uint64_t i) { int a = i % 12, b = (int)(i / 12) - 1; Plan p; p.key = strf("typed:%d", a); p.what = kind(a, 1)->str() + (b >= 0 ? " over " + kind(b, 2)->str() : " new"); p.setup = [=](File& f) { f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); kind((a + 5) % 12, 3)->put(f); if (b >= 0) kind(b, 2)->put(f); return f.write("/S/Z/TEXT///F/", makeRec(90, 1, 0, 0, 5, 0, 0, 3)); }; p.action = [=](File& f) { return kind(a, 1)->put(f); }; fault::explore(p); }; fs.push_back(f); }
    for (int lev = 1; lev <= 3; lev += 2) { Family f; f.name = lev == 1 ? "time-series" : "time-series-reclaim"; f.n = 7 * 8 * (th ? 8 : 1); f.chunk = 2; f.rule = "storing a regular or irregular series over several blocks, after any one (thorough: two) of seven stores" + std::string(lev == 1 ? "" : ", re-using the space of deleted records"); f.describe = [](uint64_t i) { return strf("store %d after stores %d, %d", (int)(i % 7), (int)(i / 7 % 8) - 1, (int)(i / 56) - 1); };
      f.run = [=](uint64_t i) { int a = i % 7, b = i / 7 % 8, cc = i / 56; if (cc && !b) return; Plan p; p.level = lev == 1 ? 0 : lev; p.merges = true; p.key = strf("series:%d", a); p.what = strf("series store %d after %d,%d", a, b - 1, cc - 1); p.setup = [=](File& f) { if (lev > 1) f.write("/GONE/BEFORE////R/", makeRec(90, 3, 1, 2, 900, 2, 2, 5)); f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); if (lev > 1) zdelete(f.ifltab, "/GONE/BEFORE////R/"); if (b) storeTs(f, b - 1); *vfs::nowMs += 1000; if (cc) storeTs(f, cc - 1); return 0; }; p.action = [=](File& f) { return storeTs(f, a); }; fault::explore(p); }; fs.push_back(f); }
  };
  return run(argc, argv, c);
}
