// Crash exploration: a call is recorded as the list of writes it issues; every prefix of that list, with every torn last write,
// is a possible file left behind by a process that died; each is reopened and examined.
#pragma once
#include "dss.h"
namespace crash {
using namespace dss; using namespace mc;
struct Cell { Rec r; long long info = 0; std::string spelled; };
typedef std::map<std::string, Cell> Img;      // upper-case pathname -> what a reader sees
inline bool image(const char* file, Img& out) { File f; if (f.open(file, 1)) return false; Walk w = walk(vfs::get(file), true, false); std::map<std::string, long long> info; for (auto& e : w.entries) if (e.status == 1) info[upper(e.path)] = e.info;
  for (auto& p : f.catalog("", 0, 0)) { Cell c; c.spelled = p; if (f.read(p, c.r) == 0) { c.info = info[upper(p)]; out[upper(p)] = c; } } f.close(); return true; }
static uint64_t budget_ = 0; static bool hung = false;
inline int guard(const vfs::Op&) { if (!budget_) { hung = true; return EIO; } budget_--; return 0; }
typedef std::function<int(File&)> Act;
struct Plan {
  std::string key, what;                      // stable key, description
  Act setup;                                  // runs before, on the open file
  Act action;                                 // the interrupted call
  std::vector<std::pair<std::string, Act>> then;   // continuations after reopening, on other records (run one at a time); names they touch
  std::vector<std::set<std::string>> thenTouch;
  std::string renFrom, renTo;                 // set if the call renames
  int hash = 1, bin = 40, blk = 0; int tear = 0;   // tear: 0 none, 512 at sector boundaries, 8 at every word
  bool repeat = true, squeeze = true, merges = false;   // merges: the call combines with what it finds, so repeating it over a record caught half overwritten is not the same
  int level = 0;
};
inline int openIt(File& f, const Plan& p, bool fresh) { const char* n = "/mc/a.dss"; int st = f.open(n, 0, p.hash, p.bin); if (!st && fresh && (p.blk || p.level)) { f.close(); std::string b = vfs::get(n); long long v = p.blk; if (v) { memcpy(&b[zdssFileKeys.kbinsPerBlock * 8], &v, 8); memcpy(&b[zdssFileKeys.kbinsRemainInBlock * 8], &v, 8); } v = 8; if (p.level) memcpy(&b[zdssFileKeys.kreclaimMin * 8], &v, 8); vfs::put(n, b); st = f.open(n, 0, p.hash, p.bin); } if (!st && p.level) zsetFile(f.ifltab, "recl", "", p.level); return st; }
inline std::string want(const Img& m, const std::string& k) { auto i = m.find(k); return i == m.end() ? "absent" : i->second.r.str(); }
// what one pathname may look like after the crash
inline bool allowed(const Plan& p, const Img& before, const Img& after, const std::string& k, int st, const Rec& r) {
  auto b = before.find(k), a = after.find(k); bool hb = b != before.end(), ha = a != after.end(); bool ren = !p.renFrom.empty() && (k == upper(p.renFrom) || k == upper(p.renTo)); if (!ren && hb && ha && b->second.r == a->second.r) return st == 0 && r == b->second.r;
  if (st == 0 && hb && r == b->second.r) return true; if (st == 0 && ha && r == a->second.r) return true; if (hb && ha && b->second.info == a->second.info && p.renFrom.empty()) return true;   // rewritten in place: its own content may be mixed
  if (isErr(st)) return false; if (st == 0) return false; return !hb || !ha || ren; }
inline void explore(const Plan& p) {
  const char* F = "/mc/a.dss"; freshWorld(); File f; if (openIt(f, p, true)) { fail(p.key + ":open", "open"); return; } if (p.setup && p.setup(f)) { f.close(); return; }
  *vfs::nowMs += 1000; auto snap = vfs::snapshot(); vfs::journalStart(); int rc = p.action(f); auto J = vfs::journalStop(); if (rc) { f.abandon(); return; } count("calls_interrupted"); f.abandon(); Img before, after; auto fin = vfs::snapshot(); if (!image(F, after)) { fail(p.key + ":image", "cannot read the finished file"); return; } vfs::restore(snap); if (!image(F, before)) { fail(p.key + ":image", "cannot read the file before the call"); return; }
  std::set<std::string> all; for (auto& x : before) all.insert(x.first); for (auto& x : after) all.insert(x.first); bool caseOnly = p.renFrom.size() && upper(p.renFrom) == upper(p.renTo); std::set<std::string> keys; int nThen = p.then.size();
  for (size_t cut = 0; cut <= J.size(); cut++) { std::vector<long> parts = {0}; if (cut < J.size() && J[cut].kind == vfs::OP_WRITE && p.tear) for (long q = p.tear == 8 ? 8 : 512 - J[cut].off % 512; q < (long)J[cut].data.size(); q += p.tear) parts.push_back(q);
    for (long part : parts) for (int th = -3; th < nThen; th++) { if (th == -3 && !p.squeeze) continue; if (th == -2 && (!p.repeat || p.renFrom.size())) continue;
      execution(); transition(); vfs::restore(snap); for (size_t j = 0; j < cut; j++) vfs::applyEntry(J[j]); if (part) vfs::applyEntry(J[cut], part); if (th == -1) { state(vfs::contentHash(F)); count(part ? "torn_writes" : "write_boundaries"); }
      std::string cont = th == -3 ? "squeeze" : th == -2 ? "the same call again" : th == -1 ? "nothing" : p.then[th].first, tag = strf("%s dies at write %zu of %zu%s, then %s: ", p.what.c_str(), cut, J.size(), part ? strf(" (torn after %ld bytes)", part).c_str() : "", cont.c_str());
      budget_ = 100000; hung = false; vfs::hook = guard; auto bad = [&](const std::string& k, const std::string& w) { if (keys.insert(k).second) fail(p.key + ":" + k, "%s%s", tag.c_str(), w.c_str()); };
      std::set<std::string> free; const char* when = "after reopening"; Img B = before, A = after;
      auto look = [&](File& g, bool done) { int okX = 0, okY = 0; for (auto& k : all) { if (free.count(k)) continue; std::string sp = B.count(k) ? B[k].spelled : A[k].spelled; Rec r; int st = g.read(sp, r); if (hung) { bad("hang", "reading " + sp + " does not end"); return false; }
          if (done && p.merges && B.count(k) && A.count(k) && B[k].info == A[k].info && B[k].r != A[k].r) continue; if (done ? (A.count(k) ? !(st == 0 && r == A[k].r) : (st == 0 || isErr(st))) : !allowed(p, B, A, k, st, r) && !(caseOnly && k == upper(p.renFrom))) { bool other = B.count(k) && A.count(k) && k != upper(p.renTo) && B[k].r == A[k].r; bad(other ? "other" : "self", strf("%s: %s reads status %d %s; before the call %s, after it %s", when, sp.c_str(), st, st == 0 ? r.str().c_str() : "", want(B, k).c_str(), want(A, k).c_str())); return false; }
          if (k == upper(p.renFrom) && st == 0 && r == B[k].r) okX = 1; if (k == upper(p.renTo) && st == 0 && A.count(k) && r == A[k].r) okY = 1; }
        if (!part && p.renFrom.size() && !caseOnly && !okX && !okY && !free.count(upper(p.renFrom)) && !free.count(upper(p.renTo))) { bad("renamed-lost", strf("%s: the record is under neither name", when)); return false; } return true; };
      auto lists = [&](File& g) { auto c = g.catalog("", 0, 0); std::map<std::string, int> n; for (auto& s : c) n[upper(s)]++; if (hung) { bad("hang", "listing does not end"); return false; } for (auto& k : all) if (!free.count(k)) { bool same = B.count(k) && A.count(k) && !(p.renFrom.size() && k == upper(p.renTo)); if (same && n[k] != 1 && !(caseOnly && k == upper(p.renFrom))) { bad("catalog", strf("%s: %s is listed %d times", when, k.c_str(), n[k])); return false; } if (!same && n[k] && p.renFrom.empty()) { Rec r; std::string sp = B.count(k) ? B[k].spelled : A[k].spelled; int st = g.read(sp, r); if (st) { bad("listed-unreadable", strf("%s: %s is listed, but reading it returns %d", when, sp.c_str(), st)); return false; } } } for (auto& x : n) if (!all.count(x.first) && !caseOnly && !free.count(x.first)) { bad("catalog", strf("%s: %s is listed and never existed", when, x.first.c_str())); return false; } return true; };
      File g; int st = openIt(g, p, false); if (st) { bad("open", strf("opening returned %d", st)); continue; } if (!look(g, false) || !lists(g)) { g.abandon(); continue; } *vfs::nowMs += 1000;
      if (th == -3) { when = "after squeezing"; g.close(); int s = zsqueeze(F); if (hung) { bad("hang", "squeezing does not end"); continue; } if (s) { bad("squeeze", strf("squeezing returned %d", s)); continue; } File h; if (h.open(F)) { bad("open", "opening the squeezed file"); continue; } look(h, false); lists(h); h.close(); Walk w = walk(vfs::get(F)); if (w.errors.size()) bad("squeezed-structure", w.errors[0]); continue; }
      if (th >= 0) { when = "after continuing"; free = p.thenTouch[th]; p.then[th].second(g); if (hung) { bad("hang", "the continuation does not end"); g.abandon(); continue; } if (!look(g, false)) { g.abandon(); continue; } }
      if (th == -2) { when = "after repeating the call"; p.action(g); if (hung) { bad("hang", "the repeated call does not end"); g.abandon(); continue; } if (!look(g, true)) { g.abandon(); continue; } }
      { Rec nr = makeRec(90, 3, 1, 2, 30, 2, 2, 9), q; std::string np = "/NEW/B/C/D/E/F/"; free.insert(np); int s = g.write(np, nr); if (s) { bad("new-record", strf("%s, storing a new record returned %d", when, s)); g.abandon(); continue; } g.close(); File h; when = "after continuing and reopening"; if (h.open(F)) { bad("open", "reopening"); continue; } if (h.read(np, q) || q != nr) bad("new-record", "the new record is lost"); else if (look(h, th == -2)) lists(h); h.close(); } } }
  vfs::hook = nullptr; }
// A squeeze that dies: at every point the file, or the complete temporary copy the squeeze was working with, holds every record.
inline void exploreSqueeze(const Plan& p, int how) {
  const char* F = "/mc/a.dss"; freshWorld(); File f; if (openIt(f, p, true)) { fail(p.key + ":open", "open"); return; } if (p.setup && p.setup(f)) { f.close(); return; } *vfs::nowMs += 1000; Img before; if (how == 0) f.close(); auto snap = vfs::snapshot(); if (how) { if (!image(F, before)) return; if (f.abandon(), vfs::restore(snap), f.open(F)) { fail(p.key + ":open", "open"); return; } }
  vfs::journalStart(); int rc = how == 0 ? zsqueeze(F) : zsqueeze7(f.ifltab, 0, how == 1); auto J = vfs::journalStop(); if (rc) { fail(p.key + ":rc", "%s: squeezing returned %d", p.what.c_str(), rc); return; } count("calls_interrupted"); f.abandon(); vfs::restore(snap); if (!image(F, before)) { fail(p.key + ":image", "cannot read the file before the call"); return; }
  auto same = [&](const std::string& name) { Img m; if (!vfs::exists(name) || !vfs::size(name) || !image(name.c_str(), m) || m.size() != before.size()) return false; for (auto& e : before) if (!m.count(e.first) || m[e.first].r != e.second.r) return false; return true; };
  for (size_t cut = 0; cut <= J.size(); cut++) { std::vector<long> parts = {0}; if (cut < J.size() && J[cut].kind == vfs::OP_WRITE && p.tear) for (long q = p.tear - J[cut].off % p.tear; q < (long)J[cut].data.size(); q += p.tear) parts.push_back(q);
    for (long part : parts) { execution(); transition(); vfs::restore(snap); for (size_t j = 0; j < cut; j++) vfs::applyEntry(J[j]); if (part) vfs::applyEntry(J[cut], part); count(part ? "torn_writes" : "write_boundaries"); state(vfs::contentHash(F)); budget_ = 100000; hung = false; vfs::hook = guard; bool ok = same(F); if (!ok) for (auto& n : vfs::list()) if (n != F && n.size() > 8 && n.substr(n.size() - 8) == "_squ.dss") { auto now = vfs::snapshot(); ok = same(n); vfs::restore(now); if (ok) break; }
      vfs::hook = nullptr; if (!ok) { fail(p.key + ":lost", "%s: the process dies at step %zu of %zu of a squeeze%s: neither the file nor the temporary copy holds the records", p.what.c_str(), cut, J.size(), part ? strf(" (torn after %ld bytes)", part).c_str() : ""); return; } } }
  if (!same(F)) fail(p.key + ":done", "%s: the squeezed file does not hold the records", p.what.c_str()); }
}
