// A process that dies anywhere inside a call that modifies a file leaves a file in which everything else is intact and which stays usable.
#include "alphabets.h"
#include "crash.h"
#include "stores.h"
using namespace store; using items::P;
using crash::Plan;
static int apply(File& f, const Op& o, const Cfg& C) { static auto recs = R(); const std::string &A = C.paths[o.a], &B = C.paths[o.b]; switch (o.code) { case WRITE: return f.write(A, recs[o.rec]); case DEL: return zdelete(f.ifltab, A.c_str()); case UNDEL: return zundelete(f.ifltab, A.c_str()); case REN: return zrename(f.ifltab, A.c_str(), B.c_str()); case DUP: return zduplicateRecord(f.ifltab, A.c_str(), B.c_str()); case RECLAIM: return zsetFile(f.ifltab, "recl", "", o.rec); case REOPEN: f.close(); return f.open("/mc/a.dss", 0, C.hash, C.bin); } return 0; }
static const char* const BG = "/BACK/GROUND////R/";
static void records(std::vector<Family>& fs, const Cfg& cf, int d, int tear, bool cont, int level) {
  auto C = std::make_shared<Cfg>(cf); size_t k = cf.ops.size(); Family f; f.name = strf("%s-%d-%s%s", cf.name, d, tear ? tear == 8 ? "torn" : "sectors" : "writes", level ? "-reclaim" : ""); f.n = seqCount(k, d, d); f.chunk = 4;
  f.rule = strf("all %d-operation histories over %zu operations, the last one cut at every write%s; then nothing, a squeeze, the same call again%s", d, k, tear == 8 ? " and inside every write after each 8 bytes" : tear ? " and inside every write at each 512-byte sector" : "", cont ? ", or any other operation of the alphabet" : "");
  f.describe = [C, d, k](uint64_t i) { std::string s; for (int o : seqDecode(i, k, d, d)) s += (s.empty() ? "" : ",") + std::string(C->ops[o].name); return s; };
  f.run = [=](uint64_t i) { auto seq = seqDecode(i, k, d, d); Op last = C->ops[seq[d - 1]]; if (last.code == REOPEN) return; Plan p; p.hash = C->hash; p.bin = C->bin; p.blk = C->blk; p.tear = tear; p.level = level; for (int o : seq) p.what += (p.what.empty() ? "" : ",") + std::string(C->ops[o].name); p.key = strf("%s:%s", cf.name, last.name);
    p.setup = [=](File& f) { if (level) f.write("/GONE/BEFORE////R/", makeRec(90, 3, 1, 2, 44, 2, 2, 5)); f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); if (level) zdelete(f.ifltab, "/GONE/BEFORE////R/"); for (int j = 0; j + 1 < d; j++) { *vfs::nowMs += 1000; if (isErr(apply(f, C->ops[seq[j]], *C)) && C->ops[seq[j]].code == REOPEN) return 1; } return 0; };
    p.action = [=](File& f) { return apply(f, last, *C); }; if (last.code == REN) { p.renFrom = C->paths[last.a]; p.renTo = C->paths[last.b]; }
    if (cont) for (auto& o : C->ops) { if (o.code == REOPEN) continue; std::set<std::string> t = {upper(C->paths[o.a]), upper(C->paths[o.b])}; if (p.renFrom.size() && (t.count(upper(p.renFrom)) || t.count(upper(p.renTo)))) { t.insert(upper(p.renFrom)); t.insert(upper(p.renTo)); } p.then.push_back({o.name, [=](File& f) { return apply(f, o, *C); }}); p.thenTouch.push_back(t); }
    crash::explore(p); };
  fs.push_back(f); }
int main(int argc, char** argv) {
  Check c; c.id = "C11"; c.level = "fault_enumeration";
  c.assumptions = {"the writes of a process that dies reach the file in the order issued; the last one may be cut short after any multiple of eight bytes (torn families) or not at all", "in-memory file system instead of the operating system; the surviving file is reopened by a fresh handle"};
  c.build = [](bool th, std::vector<Family>& fs) {
    for (auto& cf : cfgs()) { std::string n = cf.name; records(fs, cf, 2, 0, true, 0); if (th || n != "many-small-bins") records(fs, cf, 2, 512, th, 0); records(fs, cf, 3, 0, true, 0); if (n == "same-bin" || n == "varied-length" || n == "case-variants") records(fs, cf, 3, 0, true, 3); if (n == "default-tables" || n == "hash-collision" || th) records(fs, cf, 4, 0, false, 0); if (th) { records(fs, cf, 3, 512, false, 2); records(fs, cf, 4, 0, false, 3); } }
    for (auto& cf : cfgs()) { auto C = std::make_shared<Cfg>(cf); size_t k = cf.ops.size(); int d = th ? 3 : 2; Family f; f.name = strf("%s-squeeze", cf.name); f.n = seqCount(k, d, d) * 3; f.chunk = 4; f.rule = strf("a squeeze (by name, of an open file in place, of an open file by replacement) after all %d-operation histories, cut at every write, truncation, deletion and renaming and at every %d bytes inside each write: the file or the temporary copy is complete", d, th ? 512 : 4096); f.describe = [=](uint64_t i) { std::string s = i % 3 == 0 ? "zsqueeze after " : i % 3 == 1 ? "in place after " : "by replacement after "; for (int o : seqDecode(i / 3, k, d, d)) s += std::string(C->ops[o].name) + ","; return s; };
      f.run = [=](uint64_t i) { auto seq = seqDecode(i / 3, k, d, d); Plan p; p.hash = C->hash; p.bin = C->bin; p.blk = C->blk; p.tear = th ? 512 : 4096; p.key = strf("%s:squeeze%d", C->name, (int)(i % 3)); for (int o : seq) p.what += std::string(C->ops[o].name) + ","; p.setup = [=](File& f) { f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); for (int o : seq) { *vfs::nowMs += 1000; if (isErr(apply(f, C->ops[o], *C)) && C->ops[o].code == REOPEN) return 1; } return 0; }; crash::exploreSqueeze(p, i % 3); }; fs.push_back(f); }
    { Family f; f.name = "create"; f.n = 8; f.rule = "creating a file (four sizes of hash table and bins) or opening one that has no length, cut at every write and after every 8 bytes of each: opening it again gives an empty file that works, or opening or storing is refused"; f.describe = [](uint64_t i) { return strf("hash %llu%s", (unsigned long long)(i / 2), i % 2 ? ", empty file there" : ""); };
      f.run = [](uint64_t i) { static const int H[] = {0, 1, 7, 1000}; std::string key = strf("create:%d", (int)i); freshWorld(); const char* F = "/mc/a.dss"; if (i % 2) vfs::put(F, ""); auto snap = vfs::snapshot(); vfs::journalStart(); File f; int rc = f.open(F, 0, H[i / 2], i / 2 ? 40 : 0); auto J = vfs::journalStop(); if (rc) { fail(key, "open"); return; } f.abandon(); bool done = false;
        for (size_t cut = 0; cut <= J.size(); cut++) for (long part = 0; part == 0 || (cut < J.size() && J[cut].kind == vfs::OP_WRITE && part < (long)J[cut].data.size()); part += 8) { execution(); transition(); vfs::restore(snap); for (size_t j = 0; j < cut; j++) vfs::applyEntry(J[j]); if (part) vfs::applyEntry(J[cut], part); state(vfs::contentHash(F)); crash::budget_ = 100000; crash::hung = false; vfs::hook = crash::guard; File g; int st = g.open(F, 0, H[i / 2], i / 2 ? 40 : 0); std::string at = strf("the creating process dies at write %zu of %zu (after %ld bytes): ", cut, J.size(), part); if (crash::hung) { vfs::hook = nullptr; fail(key, "%sopening does not end", at.c_str()); return; }
          if (st == 0) { Rec r = makeRec(90, 3, 1, 2, 30, 2, 2, 9), q; int w = g.write("/A/B/C///F/", r), c = (int)g.catalog("", 0, 0).size(); g.close(); vfs::hook = nullptr; if (w) continue; if (c != 1) { fail(key, "%sthe file opens, one record is stored, %d are listed", at.c_str(), c); return; } File h; if (crash::hung || h.open(F) || h.read("/A/B/C///F/", q) || q != r) { fail(key, "%sthe record stored after opening it is lost", at.c_str()); return; } h.close(); if (cut == J.size()) done = true; } else { vfs::hook = nullptr; if (cut == 0 && !part) { fail(key, "opening returned %d although nothing was written", st); return; } } vfs::hook = nullptr; }
        if (!done) fail(key, "the finished file cannot be opened"); }; fs.push_back(f); }
    { Family f; f.name = "typed-stores"; f.n = 12 * 13; f.chunk = 2; f.rule = "storing text, arrays, locations, grids, TINs and embedded files, new or over every other kind already stored; cut at every write and inside every write after each 8 bytes; then nothing, a squeeze or the same call again"; f.describe = [](uint64_t i) { return kind(i % 12, 1)->str() + (i / 12 ? " over " + kind(i / 12 - 1, 2)->str() : " new"); };
      f.run = [=](uint64_t i) { int a = i % 12, b = (int)(i / 12) - 1; Plan p; p.tear = th ? 64 : 512; p.key = strf("typed:%d", a); p.what = kind(a, 1)->str() + (b >= 0 ? " over " + kind(b, 2)->str() : " new"); p.setup = [=](File& f) { f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); kind((a + 5) % 12, 3)->put(f); if (b >= 0) kind(b, 2)->put(f); return f.write("/S/Z/TEXT///F/", makeRec(90, 1, 0, 0, 5, 0, 0, 3)); }; p.action = [=](File& f) { return kind(a, 1)->put(f); }; crash::explore(p); }; fs.push_back(f); }
    for (int lev = 1; lev <= 3; lev += 2) { Family f; f.name = lev == 1 ? "time-series" : "time-series-reclaim"; f.n = 7 * 8 * 8; f.chunk = 2; f.rule = "storing a regular or irregular series over several blocks, after any two of seven stores" + std::string(lev == 1 ? "" : ", re-using the space of deleted records") + "; cut at every write and at every 512-byte sector (thorough: after each 64 bytes) inside every write; then nothing, a squeeze or the same call again"; f.describe = [](uint64_t i) { return strf("store %d after stores %d, %d", (int)(i % 7), (int)(i / 7 % 8) - 1, (int)(i / 56) - 1); };
      f.run = [=](uint64_t i) { int a = i % 7, b = i / 7 % 8, cc = i / 56; if (cc && !b) return; Plan p; p.level = lev == 1 ? 0 : lev; p.merges = true; p.tear = th ? 64 : 512; p.key = strf("series:%d", a); p.what = strf("series store %d after %d,%d", a, b - 1, cc - 1); p.setup = [=](File& f) { if (lev > 1) f.write("/GONE/BEFORE////R/", makeRec(90, 3, 1, 2, 900, 2, 2, 5)); f.write(BG, makeRec(90, 3, 1, 2, 30, 2, 2, 9)); if (lev > 1) zdelete(f.ifltab, "/GONE/BEFORE////R/"); if (b) storeTs(f, b - 1); *vfs::nowMs += 1000; if (cc) storeTs(f, cc - 1); return 0; }; p.action = [=](File& f) { return storeTs(f, a); }; crash::explore(p); }; fs.push_back(f); }
  };
  return run(argc, argv, c);
}
