// The operation alphabets and file configurations shared by the record-store checks.
#pragma once
#include "store.h"
namespace store {
inline std::vector<Rec> R() { return {makeRec(90, 4, 0, 2, 6, 0, 0, 1), makeRec(90, 4, 2, 4, 60, 10, 4, 2), makeRec(90, 1, 1, 2, 4, 2, 2, 3), makeRec(200, 2, 0, 0, 8, 0, 0, 4)}; }
struct Cfg { const char* name; std::vector<std::string> paths; std::vector<Op> ops; int hash, bin; int qd, td; int blk = 0; };
inline std::vector<Cfg> cfgs() {
  std::vector<Op> core = {{WRITE, 0, 0, 0, "W(A,small)"}, {WRITE, 0, 0, 1, "W(A,big)"}, {WRITE, 0, 0, 2, "W(A,othershape)"}, {WRITE, 1, 1, 0, "W(B,small)"}, {WRITE, 1, 1, 1, "W(B,big)"}, {DEL, 0, 0, 0, "D(A)"}, {DEL, 1, 1, 0, "D(B)"}, {UNDEL, 0, 0, 0, "U(A)"}, {REN, 0, 1, 0, "R(A,B)"}, {REN, 1, 2, 0, "R(B,C)"}, {DUP, 0, 1, 0, "C(A,B)"}, {DUP, 1, 2, 0, "C(B,C)"}, {WRITE, 2, 2, 3, "W(C,pd)"}, {REOPEN, 0, 0, 0, "reopen"}};
  std::vector<Op> lean = {{WRITE, 0, 0, 0, "W(A,small)"}, {WRITE, 0, 0, 1, "W(A,big)"}, {WRITE, 1, 1, 2, "W(B,othershape)"}, {DEL, 0, 0, 0, "D(A)"}, {UNDEL, 0, 0, 0, "U(A)"}, {REN, 0, 1, 0, "R(A,B)"}, {REN, 1, 0, 0, "R(B,A)"}, {DUP, 0, 2, 0, "C(A,C)"}, {REOPEN, 0, 0, 0, "reopen"}};
  std::vector<std::string> same = {"/A/B/C/D/E/F/", "/A/B/C/D/E/G/", "/A/B/C/D/E/H/"};
  std::vector<std::string> lens = {"/A/B/C/D/E/F/", "/AB/LONGER PART/FLOW-DATA/X/Y/SOMEVERSION/", "/a/b/Much Longer Location Name/d/e/x/"};
  std::vector<std::string> coll = {"/AP/B/C/D/E/F/", "/B1/B/C/D/E/F/", "/AP/B/C/D/E/G/"};   // the first two have equal pathname hashes
  std::vector<std::string> cas = {"/Loc/b/Flow/D/E/f/", "/LOC/B/FLOW/d/e/F/", "/loc/B/Stage/D/E/f/"};  // the first two differ only in case
  std::vector<std::string> five = {"/A/B/C///F/", "/AAA/BBBBBBBBBB/C/D/E/F/", "/A1/B2/C3/D4/E5/F6/", "/LONGEST LOCATION NAME/WITH MORE/FLOW/D/E/F/", "/A2/B/C///F/"};
  std::vector<Op> mb; static std::vector<std::string> nm; if (nm.empty()) for (int i = 0; i < 5; i++) { nm.push_back(strf("W(P%d)", i)); nm.push_back(strf("D(P%d)", i)); }
  for (int i = 0; i < 5; i++) { mb.push_back({WRITE, i, i, i % 3, nm[2 * i].c_str()}); mb.push_back({DEL, i, i, 0, nm[2 * i + 1].c_str()}); } mb.push_back({REN, 0, 3, 0, "R(P0,P3)"});
  return {{"many-small-bins", five, mb, 1, 27, 5, 7}, {"same-bin", same, core, 1, 40, 5, 6}, {"varied-length", lens, lean, 1, 44, 6, 7}, {"hash-collision", coll, lean, 1, 60, 6, 7}, {"case-variants", cas, lean, 3, 60, 6, 7}, {"default-tables", same, lean, 0, 0, 4, 5}, {"two-buckets", lens, core, 2, 30, 4, 6}, {"tiny-bins", lens, core, 7, 23, 5, 6}, {"small-blocks", five, mb, 1, 27, 5, 7, 2}, {"one-bin-blocks", lens, core, 2, 23, 4, 6, 1}};
}
}
