// With any space-reclamation setting, every history of writes, expansions, deletes, undeletes, renames and copies keeps every
// live record intact, and freed space never overlaps anything that is still in use.
#include "alphabets.h"
using namespace store;
struct RC { const char* name; int level; std::vector<Op> ops; int qd, td; int bin; int slots = 0; };
static std::vector<Rec> RR() { return {makeRec(90, 4, 0, 2, 20, 0, 0, 1), makeRec(90, 4, 2, 4, 240, 10, 4, 2), makeRec(90, 2, 0, 2, 460, 0, 0, 3), makeRec(90, 1, 1, 2, 700, 30, 6, 4)}; }
static std::vector<RC> cfg3() {
  std::vector<Op> a = {{WRITE, 0, 0, 0, "W(A,20)"}, {WRITE, 0, 0, 1, "W(A,254)"}, {WRITE, 0, 0, 2, "W(A,460)"}, {WRITE, 1, 1, 1, "W(B,254)"}, {WRITE, 1, 1, 3, "W(B,736)"}, {WRITE, 2, 2, 2, "W(C,460)"}, {DEL, 0, 0, 0, "D(A)"}, {DEL, 1, 1, 0, "D(B)"}, {UNDEL, 0, 0, 0, "U(A)"}, {UNDEL, 1, 1, 0, "U(B)"}, {REN, 0, 2, 0, "R(A,C)"}, {DUP, 1, 2, 0, "C(B,C)"}};
  std::vector<Op> b = {{WRITE, 0, 0, 1, "W(A,254)"}, {WRITE, 0, 0, 3, "W(A,736)"}, {WRITE, 1, 1, 2, "W(B,460)"}, {DEL, 0, 0, 0, "D(A)"}, {UNDEL, 0, 0, 0, "U(A)"}, {REN, 0, 1, 0, "R(A,B)"}, {REN, 1, 0, 0, "R(B,A)"}, {DEL, 1, 1, 0, "D(B)"}, {RECLAIM, 0, 0, 1, "level(none)"}, {RECLAIM, 0, 0, 3, "level(all)"}, {REOPEN, 0, 0, 0, "reopen"}};
  std::vector<Op> t = {{WRITE, 0, 0, 1, "W(A,254)"}, {WRITE, 0, 0, 3, "W(A,736)"}, {WRITE, 1, 1, 2, "W(B,460)"}, {WRITE, 1, 1, 3, "W(B,736)"}, {WRITE, 2, 2, 1, "W(C,254)"}, {DEL, 0, 0, 0, "D(A)"}, {DEL, 1, 1, 0, "D(B)"}, {DEL, 2, 2, 0, "D(C)"}};
  return {{"reclaim-all", 3, a, 4, 6, 40}, {"reclaim-excess", 2, a, 4, 5, 40}, {"level-changes", 2, b, 5, 6, 40}, {"reclaim-none", 1, b, 4, 5, 40}, {"tiny-table", 3, t, 6, 8, 40, 2}};
}
int main(int argc, char** argv) {
  Check c; c.id = "C03"; c.level = "model_checking";
  c.assumptions = {"the operating system file interface is replaced by an in-memory file system; everything above it is the real library", "bounds: 3 pathnames, record sizes on both sides of the minimum reclaimable size, operation sequences up to the stated depth"};
  c.build = [](bool th, std::vector<Family>& fs) {
    for (auto& cf : cfg3()) { int d = th ? cf.td : cf.qd; size_t k = cf.ops.size(); auto C = std::make_shared<RC>(cf);
      Family f; f.name = cf.name; f.n = seqCount(k, d, d); f.chunk = 128; f.rule = strf("all %d-operation sequences over %zu operations with reclaim level %d; contents, catalog and free-space map checked after every operation", d, k, cf.level);
      f.describe = [C, d, k](uint64_t i) { std::string s; for (int o : seqDecode(i, k, d, d)) s += (s.empty() ? "" : ",") + std::string(C->ops[o].name); return s; };
      f.run = [C, d, k](uint64_t i) {
        freshWorld(); World w; w.recs = RR(); w.paths = {"/A/B/C/D/E/F/", "/AB/LONGER PART/FLOW-DATA/X/Y/SOMEVERSION/", "/A/B/C/D/E/G/"}; w.hash = 1; w.bin = 60; w.keyPrefix = std::string(C->name) + ":"; w.reclaim = true; w.level = C->level; if (!w.open()) return;
        if (C->slots) {   // a file whose free-space tables hold only a few entries, so that they fill up and chain
          w.f.close(); std::string b = vfs::get(w.file); long long v = C->slots; memcpy(&b[zdssFileKeys.kreclaimNumber * 8], &v, 8); v = C->slots * 2 + 2; memcpy(&b[zdssFileKeys.kreclaimSize * 8], &v, 8); vfs::put(w.file, b); if (!w.open()) return; }
        zsetFile(w.f.ifltab, "recl", "", C->level);
        auto seq = seqDecode(i, k, d, d); int n = 0;
        for (int o : seq) { *vfs::nowMs += 1000; if (!w.step(C->ops[o])) return; state(mix(w.m.hash(), vfs::contentHash(w.file))); if (++n > 1) { if (!w.verifyStructure()) return; if (!w.verify()) return; } }
        if (!w.step({REOPEN, 0, 0, 0, "reopen"})) return; if (!w.verify()) return; if (!w.verifyCatalog()) return; if (!w.verifyStructure()) return; w.f.close(); };
      fs.push_back(f); } };
  return run(argc, argv, c);
}
