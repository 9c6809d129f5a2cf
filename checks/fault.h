// Fault exploration: every read and write that a call issues fails (once, or from there on until the call or the closing of the file is over,
// or by transferring only a part); afterwards the file is closed, reopened without faults, and examined.
#pragma once
#include "crash.h"
extern "C" { void zsetInterrupt(int); void zresetProgress(int, long long); }
namespace fault {
using namespace dss; using namespace mc; using crash::Img; using crash::Plan; using crash::Act;
enum Mode { ONCE, REST, CLOSE, SHORT, NMODE };   // fails once; for the rest of the call; also while closing; transfers half
static const char* const MODE[] = {"fails once", "and all later ones fail", "and all later ones until the file is closed fail", "transfers only a part"};
static long at = -1, seen = 0, budget = 0; static int mode = 0; static bool on = false, hit = false, hung = false;
__attribute__((noinline)) inline void here(long k) { if (mc::verbose()) { static const char* d = getenv("MC_FAULT"); if (d && atol(d) == k) abort(); } }
inline int hook(const vfs::Op& o) {
  if (budget-- <= 0) { hung = true; return EIO; }
  if (o.kind == vfs::OP_WRITE || o.kind == vfs::OP_READ) { long k = seen++; if (!on) return 0; bool f = k == at || (k > at && (mode == REST || mode == CLOSE)); if (!f) return 0; if (k == at) { hit = true; here(k); } if (mode == SHORT) return o.len > 1 ? -(int)(o.len / 16 * 8) - 1 : EIO; return o.kind == vfs::OP_WRITE ? ENOSPC : EIO; }
  return 0; }
inline void explore(const Plan& p) {
  const char* F = "/mc/a.dss"; Img before, after; std::set<std::string> keys; int ref = 0; long n = 0;
  auto start = [&](File& f) { vfs::hook = nullptr; freshWorld(); if (crash::openIt(f, p, true)) return 1; if (p.setup && p.setup(f)) { f.close(); return 1; } *vfs::nowMs += 1000; return 0; };
  { File f; if (start(f)) return; auto snap = vfs::snapshot(); seen = 0; budget = 1000000; on = false; vfs::hook = hook; ref = p.action(f); vfs::hook = nullptr; n = seen; f.close(); if (!crash::image(F, after)) { fail(p.key + ":image", "cannot read the finished file"); return; } vfs::restore(snap); if (!crash::image(F, before)) { fail(p.key + ":image", "cannot read the file before the call"); return; } }
  std::set<std::string> all; for (auto& x : before) all.insert(x.first); for (auto& x : after) all.insert(x.first); bool caseOnly = p.renFrom.size() && upper(p.renFrom) == upper(p.renTo); count("calls"); count("operations", n);
  for (long k = 0; k < n; k++) for (int m = 0; m < NMODE; m++) { execution(); transition(); File f; if (start(f)) return; seen = 0; at = k; mode = m; on = true; hit = false; hung = false; budget = 100000; vfs::hook = hook; int rc = p.action(f); vfs::OpKind kind = vfs::OP_WRITE; (void)kind; if (m != CLOSE) on = false; int cl = f.close(); on = false; vfs::hook = nullptr;
    std::string tag = strf("%s: operation %ld of %ld %s, the call returns %d: ", p.what.c_str(), k, n, MODE[m], rc); auto bad = [&](const std::string& q, const std::string& w) { if (keys.insert(q).second) fail(p.key + ":" + q, "%s%s", tag.c_str(), w.c_str()); };
    if (hung) { bad("hang", "it does not end"); f.abandon(); continue; } if (vfs::openFdCount()) { bad("descriptor", strf("after zclose (%d) the file is still open", cl)); f.abandon(); continue; } if (rc == -777) { bad("wrong", "success, and the result is wrong"); continue; } if (!hit) continue;
    bool ok = rc == 0 && ref == 0; if (rc == 0 && ref != 0) { bad("status", strf("without the fault it returns %d", ref)); continue; }
    vfs::pid = 7000; File g; int st = g.open(F); vfs::pid = 4242; auto end = [&] { g.close(); }; if (st) { bad("open", strf("opening the file afterwards returns %d", st)); continue; }
    crash::budget_ = 1000000; crash::hung = false; vfs::hook = crash::guard; std::set<std::string> free; bool fine = true;
    auto look = [&](const char* when, File& g) { int okX = 0, okY = 0; for (auto& x : all) { std::string sp = before.count(x) ? before[x].spelled : after[x].spelled; Rec r; int st = g.read(sp, r); bool good = ok ? (after.count(x) ? st == 0 && r == after[x].r : st == -1) : crash::allowed(p, before, after, x, st, r) || (caseOnly && x == upper(p.renFrom)); if (!good) { bool other = before.count(x) && after.count(x) && x != upper(p.renTo) && before[x].r == after[x].r; bad(ok ? "success" : other ? "other" : "self", strf("%s %s reads status %d %s; before the call %s, after it without fault %s", when, sp.c_str(), st, st == 0 ? r.str().c_str() : "", crash::want(before, x).c_str(), crash::want(after, x).c_str())); return false; } if (x == upper(p.renFrom) && st == 0 && r == before[x].r) okX = 1; if (x == upper(p.renTo) && st == 0 && after.count(x) && r == after[x].r) okY = 1; }
      if (!ok && p.renFrom.size() && !caseOnly && !okX && !okY && before.count(upper(p.renFrom))) { bad("renamed-lost", "the record is under neither name"); return false; }
      auto c = g.catalog("", 0, 0); std::map<std::string, int> cnt; for (auto& s : c) cnt[upper(s)]++; for (auto& x : all) { bool same = before.count(x) && after.count(x) && !(p.renFrom.size() && x == upper(p.renTo)); int w = ok ? after.count(x) : same ? 1 : -1; if (w >= 0 && cnt[x] != w && !(caseOnly && x == upper(p.renFrom))) { bad("catalog", strf("%s %s is listed %d times", when, x.c_str(), cnt[x])); return false; } } for (auto& x : cnt) if (!all.count(x.first) && !free.count(x.first) && !caseOnly) { bad("catalog", strf("%s %s is listed and never existed", when, x.first.c_str())); return false; } return true; };
    fine = look("afterwards", g); if (fine) { Rec nr = makeRec(90, 3, 1, 2, 30, 2, 2, 9), q; std::string np = "/NEW/B/C/D/E/F/"; free.insert(np); int s = g.write(np, nr); if (s) bad("new-record", strf("storing a new record afterwards returns %d", s)); else { g.close(); File h; if (h.open(F)) bad("open", "reopening"); else { if (h.read(np, q) || q != nr) bad("new-record", "a record stored afterwards is lost"); else look("after storing another record", h); h.close(); } } }
    vfs::hook = nullptr; if (crash::hung) bad("hang", "looking at the file afterwards does not end"); if (g.isOpen) end(); state(vfs::contentHash(F)); }
}
// A squeeze in which an operation fails (reading, writing, truncating, deleting, renaming), or which is cancelled at that moment: success means that the file holds every record; otherwise the file, or the copy left beside it, does.
inline int sqHook(const vfs::Op& o) {
  if (budget-- <= 0) { hung = true; return EIO; } bool mod = o.kind == vfs::OP_WRITE || o.kind == vfs::OP_TRUNC || o.kind == vfs::OP_UNLINK || o.kind == vfs::OP_RENAME; if (!mod && o.kind != vfs::OP_READ) return 0; long k = seen++; if (!on) return 0;
  if (mode == NMODE) { if (k == at) { hit = true; zsetInterrupt(0); } return 0; } bool f = k == at || (k > at && (mode == REST || mode == CLOSE)); if (!f) return 0; if (k == at) hit = true; if (mode == SHORT && (o.kind == vfs::OP_READ || o.kind == vfs::OP_WRITE)) return o.len > 1 ? -(int)(o.len / 16 * 8) - 1 : EIO; return mod ? ENOSPC : EIO; }
inline void exploreSqueeze(const Plan& p, int how) {
  const char* F = "/mc/a.dss"; Img before; std::set<std::string> keys; long n = 0;
  auto start = [&](File& f) { vfs::hook = nullptr; freshWorld(); if (crash::openIt(f, p, true)) return 1; if (p.setup && p.setup(f)) { f.close(); return 1; } *vfs::nowMs += 1000; if (!how) f.close(); return 0; };
  auto act = [&](File& f) { return how == 0 ? zsqueeze(F) : zsqueeze7(f.ifltab, 0, how == 1); };
  auto same = [&](const std::string& name) { Img m; if (!vfs::exists(name) || !vfs::size(name) || !crash::image(name.c_str(), m) || m.size() != before.size()) return false; for (auto& e : before) if (!m.count(e.first) || m[e.first].r != e.second.r) return false; return true; };
  { File f; if (start(f)) return; auto snap = vfs::snapshot(); seen = 0; budget = 1000000; on = false; vfs::hook = sqHook; int rc = act(f); vfs::hook = nullptr; n = seen; if (how) f.close(); if (rc) { fail(p.key + ":rc", "%s: squeezing returns %d", p.what.c_str(), rc); return; } vfs::restore(snap); if (!crash::image(F, before)) { fail(p.key + ":image", "cannot read the file before the call"); return; } }
  count("calls"); count("operations", n);
  for (long k = 0; k < n; k++) for (int m = 0; m <= NMODE; m++) { execution(); transition(); File f; if (start(f)) return; zresetProgress(0, 0); seen = 0; at = k; mode = m; on = true; hit = hung = false; budget = 1000000; vfs::hook = sqHook; int rc = act(f); if (m != CLOSE) on = false; if (how) f.close(); on = false; vfs::hook = nullptr; zresetProgress(0, 0);
    std::string tag = strf("%s: operation %ld of %ld %s, the squeeze returns %d: ", p.what.c_str(), k, n, m == NMODE ? "is where it is cancelled" : MODE[m], rc); auto bad = [&](const std::string& q, const std::string& w) { if (keys.insert(q).second) fail(p.key + ":" + q, "%s%s", tag.c_str(), w.c_str()); };
    if (hung) { bad("hang", "it does not end"); f.abandon(); continue; } if (vfs::openFdCount()) { bad("descriptor", "a file stays open"); continue; } if (!hit) continue; crash::budget_ = 1000000; crash::hung = false; vfs::hook = crash::guard; bool ok = same(F); if (rc == 0 && !ok) bad(m == NMODE ? "cancelled" : "success", "the file does not hold every record any more"); if (!ok && rc) for (auto& x : vfs::list()) if (x != F && x.size() > 8 && x.substr(x.size() - 8) == "_squ.dss" && same(x)) { ok = true; count("copies_left"); break; }
    if (!ok && rc) bad("lost", "neither the file nor a copy holds every record"); vfs::hook = nullptr; if (crash::hung) bad("hang", "looking at the file does not end"); state(vfs::contentHash(F)); }
}
}
