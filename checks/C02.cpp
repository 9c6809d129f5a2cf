// After every operation of every history the file on disk is structurally sound: every live record is reachable exactly
// once, no two pieces of the file overlap, every chain ends, counts agree, and the library's own checkers find nothing.
#include "alphabets.h"
using namespace store;
int main(int argc, char** argv) {
  Check c; c.id = "C02"; c.level = "model_checking";
  c.assumptions = {"the operating system file interface is replaced by an in-memory file system; everything above it is the real library", "the file image is read by an independent structural reader in the harness, not by the library", "bounds: 3-5 pathnames, 4 record shapes, operation sequences up to the stated depth"};
  c.build = [](bool th, std::vector<Family>& fs) {
    for (auto& cf : cfgs()) { int d = th ? cf.td : cf.qd; size_t k = cf.ops.size(); auto C = std::make_shared<Cfg>(cf); if (!th && (C->name == std::string("hash-collision") || C->name == std::string("case-variants"))) d--;
      for (int mode = 0; mode < 2; mode++) {
      Family f; f.name = std::string(cf.name) + (mode ? "-multiuser" : ""); if (mode) { if (cf.ops.size() > 11 || !th) continue; } f.n = seqCount(k, d, d); f.chunk = 256; f.rule = strf("all %d-operation sequences over %zu operations (hash table %d, bin %d, %d bins per block); whole file image checked after every operation", d, k, cf.hash, cf.bin, cf.blk ? cf.blk : 32);
      f.describe = [C, d, k](uint64_t i) { std::string s; for (int o : seqDecode(i, k, d, d)) s += (s.empty() ? "" : ",") + std::string(C->ops[o].name); return s; };
      f.run = [C, d, k, mode](uint64_t i) {
        freshWorld(); World w; w.recs = R(); w.paths = C->paths; w.hash = C->hash; w.bin = C->bin; w.blk = C->blk; w.access = mode ? MULTI_USER_ACCESS : 0; w.keyPrefix = std::string(C->name) + ":"; if (!w.open()) return;
        auto seq = seqDecode(i, k, d, d); int n = 0;
        for (int o : seq) { *vfs::nowMs += 1000; if (!w.step(C->ops[o])) return; state(vfs::contentHash(w.file)); if (++n > 1 && !w.verifyStructure()) return; }
        w.f.close(); if (w.f.open(w.file) == 0) { if (!w.verifyStructure()) return; if (!w.verifyCatalog()) return; if (!w.verifyStructure()) return; w.f.close(); Walk wk = walk(vfs::get(w.file)); if (!wk.errors.empty()) fail(w.key(), "closed file after %s: %s", w.trail.c_str(), wk.errors[0].c_str()); } };
      fs.push_back(f); } } };
  return run(argc, argv, c);
}
