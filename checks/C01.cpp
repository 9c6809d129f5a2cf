// Every operation history up to a depth behaves like a map from case-insensitive pathnames to records.
#include "alphabets.h"
using namespace store;
int main(int argc, char** argv) {
  Check c; c.id = "C01"; c.level = "model_checking";
  c.assumptions = {"the operating system file interface is replaced by an in-memory file system; everything above it is the real library", "bounds: 3 pathnames, 4 record shapes, operation sequences up to the stated depth"};
  c.build = [](bool th, std::vector<Family>& fs) {
    for (auto& cf : cfgs()) { int d = th ? cf.td : cf.qd; size_t k = cf.ops.size(); auto C = std::make_shared<Cfg>(cf);
      Family f; f.name = cf.name; f.n = seqCount(k, d, d); f.chunk = 256; f.rule = strf("all %d-operation sequences over %zu operations on 3 pathnames (hash table %d, bin %d, %d bins per block); model compared after every operation", d, k, cf.hash, cf.bin, cf.blk ? cf.blk : 32);
      f.describe = [C, d, k](uint64_t i) { std::string s; for (int o : seqDecode(i, k, d, d)) s += (s.empty() ? "" : ",") + std::string(C->ops[o].name); return s; };
      f.run = [C, d, k](uint64_t i) {
        freshWorld(); World w; w.recs = R(); w.paths = C->paths; w.hash = C->hash; w.bin = C->bin; w.blk = C->blk; w.keyPrefix = std::string(C->name) + ":"; if (!w.open()) return;
        auto seq = seqDecode(i, k, d, d); int n = 0;
        for (int o : seq) { *vfs::nowMs += 1000; if (!w.step(C->ops[o])) return; state(mix(w.m.hash(), hashBytes(C->name, strlen(C->name)))); n++; if (n >= 2 || d < 3) if (!w.verify()) return; }
        if (!w.verifyCatalog()) return; if (!w.step({REOPEN, 0, 0, 0, "reopen"})) return; if (!w.verify()) return; if (!w.verifyCatalog()) return; w.f.close(); };
      fs.push_back(f); } };
  return run(argc, argv, c);
}
