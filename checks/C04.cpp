// Squeezing a file, or copying it record by record, keeps exactly the live records with identical content.
// flavour: asan
#include "alphabets.h"
using namespace store;
static const char* const HOW[] = {"zsqueeze(name)", "squeeze open handle, in place", "squeeze open handle, by renaming", "copy to a new file", "squeeze only if needed", "copy onto another file"};
static bool noDead(World& w, const std::string& file) {
  Walk k = walk(vfs::get(file)); if (!k.errors.empty()) { fail(w.key(), "file structure after %s: %s", w.trail.c_str(), k.errors[0].c_str()); return false; }
  for (auto& e : k.entries) if (!w.m.live.count(upper(e.path))) { fail(w.key(), "%s (status %d) is still in the file after %s", e.path.c_str(), e.status, w.trail.c_str()); return false; }
  for (auto& e : k.entries) if (e.path != w.m.spelled[upper(e.path)]) { fail(w.key(), "%s is spelled %s after %s", w.m.spelled[upper(e.path)].c_str(), e.path.c_str(), w.trail.c_str()); return false; }
  return true; }
static bool act(World& w, int how) {
  w.trail += std::string(" then ") + HOW[how]; trace("%s", HOW[how]); transition(); int st; std::string squ = "/tmp/a_squ.dss";
  auto bad = [&](const char* what, int st) { fail(w.key(), "%s returned %d after %s", what, st, w.trail.c_str()); return false; };
  switch (how) {
  case 0: if ((st = w.f.close())) return bad("close", st); if ((st = zsqueeze(w.file.c_str()))) return bad("squeeze", st); if (!w.open()) return false; break;
  case 1: if ((st = zsqueeze7(w.f.ifltab, 0, 1))) return bad("squeeze", st); break;
  case 2: if ((st = zsqueeze7(w.f.ifltab, 0, 0))) return bad("squeeze", st); squ = "/mc/a_squ.dss"; break;
  case 4: if ((st = zsqueeze7(w.f.ifltab, 1, 1))) return bad("squeeze", st); break;
  case 3: case 5: { File g; if (g.open("/mc/b.dss", 0, 3, 60)) return bad("open copy", -1); Rec x = makeRec(90, 1, 0, 0, 5, 0, 0, 42), y;
      if (how == 5) { if (g.write(w.paths[0], x) || g.write("/OTHER/B/C/D/E/F/", x)) return bad("write to copy", -1); for (auto& p : w.m.live) if (p.second.type != 90 && upper(w.paths[0]) == p.first) return true; }
      if ((st = zcopyFile(w.f.ifltab, g.ifltab, 0))) return bad("copy", st); if (!w.verify()) return false; if ((st = g.close())) return bad("close copy", st); if ((st = w.f.close())) return bad("close", st);
      w.file = "/mc/b.dss"; if (!w.open()) return false;
      if (how == 5) { if (w.f.read("/OTHER/B/C/D/E/F/", y) || y != x) { fail(w.key(), "copying damaged another record of the target after %s", w.trail.c_str()); return false; } if (!w.m.live.count(upper(w.paths[0]))) { w.m.live[upper(w.paths[0])] = x; }
        w.m.spelled[upper(w.paths[0])] = w.paths[0]; w.paths.push_back("/OTHER/B/C/D/E/F/"); w.m.live["/OTHER/B/C/D/E/F/"] = x; w.m.spelled["/OTHER/B/C/D/E/F/"] = "/OTHER/B/C/D/E/F/"; }
    } }
  if (vfs::exists(squ)) { fail(w.key(), "the temporary file is left behind after %s", w.trail.c_str()); return false; }
  if (how != 4) { w.m.deleted.clear(); for (auto& p : w.paths) if (!w.m.live.count(upper(p)) && zundelete(w.f.ifltab, p.c_str()) == 0) { fail(w.key(), "deleted record %s can still be undeleted after %s", p.c_str(), w.trail.c_str()); return false; } }
  return true; }
int main(int argc, char** argv) {
  Check c; c.id = "C04"; c.level = "model_checking";
  c.assumptions = {"the operating system file interface is replaced by an in-memory file system (including the squeeze's temporary file in /tmp)", "bounds: 3-5 pathnames, record shapes and operation sequences up to the stated depth; file sizes around the copy-block boundaries"};
  c.build = [](bool th, std::vector<Family>& fs) {
    for (auto& cf : cfgs()) { std::string nm = cf.name; if (nm == "default-tables" || nm == "one-bin-blocks" || nm == "two-buckets") continue; if (!th && (nm == "tiny-bins" || nm == "small-blocks")) continue;
      int d = (cf.ops.size() > 10 ? 3 : 4) + (th ? 1 : 0); size_t k = cf.ops.size(); auto C = std::make_shared<Cfg>(cf); uint64_t S = seqCount(k, d, d);
      Family f; f.name = nm; f.n = S * 6; f.chunk = 64; f.rule = strf("all %d-operation sequences over %zu operations, then each of 6 ways to squeeze or copy the file; then one more write, close and reopen; model, catalog and image compared", d, k);
      f.describe = [C, d, k, S](uint64_t i) { std::string s; for (int o : seqDecode(i % S, k, d, d)) s += (s.empty() ? "" : ",") + std::string(C->ops[o].name); return s + ", then " + HOW[i / S]; };
      f.run = [C, d, k, S](uint64_t i) {
        freshWorld(); World w; w.recs = R(); w.paths = C->paths; w.hash = C->hash; w.bin = C->bin; w.blk = C->blk; w.keyPrefix = std::string(C->name) + ":"; if (!w.open()) return;
        for (int o : seqDecode(i % S, k, d, d)) { *vfs::nowMs += 1000; if (!w.step(C->ops[o])) return; }
        int how = i / S; if (!act(w, how)) return; if (!w.verify()) return; if (how != 4 && !noDead(w, w.file)) return; if (!w.verifyStructure()) return;
        state(vfs::contentHash(w.file)); *vfs::nowMs += 1000;
        if (!w.step(C->ops[0])) return; if (!w.step({REOPEN, 0, 0, 0, "reopen"})) return; if (!w.verify()) return; if (!w.verifyCatalog()) return; w.f.close(); };
      fs.push_back(f); }
    { // record sizes chosen so that every part of the file falls on every offset of the internal copy blocks (4028 and 32768 words)
      int lo = -24, hi = 24; std::vector<long long> targets = {4028, 8056, 32768, 65536}; int N = hi - lo + 1; uint64_t n = (uint64_t)N * targets.size() * 5;
      Family f; f.name = "block-boundaries"; f.n = n; f.chunk = 16; f.rule = "a filler record sized so that the following records start at each of 49 word offsets around each copy-block boundary, squeezed or copied in each of 5 ways";
      f.describe = [=](uint64_t i) { uint64_t x = i; int off = lo + digit(x, N); long long t = targets[digit(x, 4)]; return strf("next record at word %lld%+d, %s", t, off, HOW[x == 4 ? 5 : x]); };
      f.run = [=](uint64_t i) { uint64_t x = i; int off = lo + digit(x, N); long long t = targets[digit(x, 4)]; int how = x == 4 ? 5 : x;
        freshWorld(); World w; w.paths = {"/A/B/C/D/E/F/", "/A/B/C/D/E/G/", "/A/B/C/D/E/H/"}; w.hash = 3; w.bin = 60; w.keyPrefix = strf("boundary%lld%+d:", t, off); if (!w.open()) return;
        w.recs = {makeRec(90, 1, 0, 0, 4, 0, 0, 9), makeRec(90, 4, 0, 2, 7, 3, 0, 2), makeRec(90, 2, 2, 2, 9, 0, 1, 3)};
        if (!w.step({WRITE, 0, 0, 0, "W(filler)"})) return; long long have = vfs::size(w.file) / 8 - 1; long long need = t + off - have; if (need < 4) return; w.f.close(); vfs::reset(); w = World(); w.paths = {"/A/B/C/D/E/F/", "/A/B/C/D/E/G/", "/A/B/C/D/E/H/"}; w.hash = 3; w.bin = 60; w.keyPrefix = strf("boundary%lld%+d:", t, off);
        if (!w.open()) return; w.recs = {makeRec(90, 1, 0, 0, (int)need * 2 + 4, 0, 0, 9), makeRec(90, 4, 0, 2, 7, 3, 0, 2), makeRec(90, 2, 2, 2, 9, 0, 1, 3)};
        if (!w.step({WRITE, 0, 0, 0, "W(filler)"})) return; if (!w.step({WRITE, 1, 1, 1, "W(B)"})) return; if (!w.step({WRITE, 2, 2, 2, "W(C)"})) return; if (!w.step({DEL, 1, 1, 0, "D(B)"})) return; if (!w.step({WRITE, 1, 1, 1, "W(B)"})) return; count("boundary_cases");
        if (!act(w, how)) return; if (!w.verify()) return; if (!noDead(w, w.file)) return; if (!w.verifyStructure()) return; state(vfs::contentHash(w.file)); if (!w.step({REOPEN, 0, 0, 0, "reopen"})) return; if (!w.verify()) return; w.f.close(); };
      fs.push_back(f); }
    { // data words that look like the file's own markers
      static const long long W[] = {-97532, -97534, -97536, 0, 1, 12, 13};
      int L = th ? 5 : 4; uint64_t S = 1; for (int i = 0; i < L; i++) S *= 7;
      Family f; f.name = "marker-like-data"; f.n = S * 5; f.chunk = 32; f.rule = strf("a data array holding every sequence of %d words over {end-of-file flag, record flag, -97536, 0, 1, 12, 13}, squeezed or copied in each of 5 ways", L);
      f.describe = [=](uint64_t i) { std::string s; uint64_t x = i; for (int k = 0; k < L; k++) s += strf("%lld ", W[digit(x, 7)]); return s + HOW[x == 4 ? 5 : x]; };
      f.run = [=](uint64_t i) { uint64_t x = i; Rec r = makeRec(90, 2, 0, 0, 0, 0, 0, 1); for (int k = 0; k < L; k++) { long long v = W[digit(x, 7)]; r.v1.push_back((int)(v & 0xffffffff)); r.v1.push_back((int)(v >> 32)); } for (int k = 0; k < 40; k++) r.v1.push_back(k + 1000); int how = x == 4 ? 5 : x;
        freshWorld(); World w; w.paths = {"/A/B/C/D/E/F/", "/A/B/C/D/E/G/"}; w.hash = 1; w.bin = 60; w.keyPrefix = "marker:"; if (!w.open()) return; w.recs = {r, makeRec(90, 4, 0, 2, 7, 3, 0, 2)};
        if (!w.step({WRITE, 0, 0, 0, "W(data that looks like file markers)"})) return; if (!w.step({WRITE, 1, 1, 1, "W(B)"})) return;
        if (!act(w, how)) return; if (!w.verify()) return; if (!w.verifyCatalog()) return; if (!noDead(w, w.file)) return; if (!w.verifyStructure()) return; state(vfs::contentHash(w.file)); if (!w.step({REOPEN, 0, 0, 0, "reopen"})) return; if (!w.verify()) return; w.f.close(); };
      fs.push_back(f); }
  };
  return run(argc, argv, c);
}
