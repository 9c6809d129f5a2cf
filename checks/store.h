// Reference model of the record store and the shared operation alphabet.
#pragma once
#include "dss.h"
#include <functional>
namespace store {
using namespace dss; using namespace mc;
struct Del { Rec rec; bool mayFail = false; std::string spelled; std::vector<Rec> older; };
struct Model {
  std::map<std::string, Rec> live;             // upper-case path -> record
  std::map<std::string, std::string> spelled;
  std::map<std::string, Del> deleted;          // latest deleted version, and older ones that may still be recoverable
  uint64_t hash() const { uint64_t h = 3; for (auto& p : live) h = mix(mix(h, hashBytes(p.first.data(), p.first.size())), p.second.hash()); h = mix(h, 77); for (auto& p : deleted) { h = mix(mix(h, hashBytes(p.first.data(), p.first.size())), p.second.rec.hash() * 2 + p.second.mayFail); for (auto& r : p.second.older) h = mix(h, r.hash()); } return h; }
  void remember(const std::string& k) { Del n; n.rec = live[k]; n.spelled = spelled[k]; auto it = deleted.find(k); if (it != deleted.end()) { n.older = it->second.older; n.older.insert(n.older.begin(), it->second.rec); } deleted[k] = n; }
  void named(const std::string& k) { for (auto& d : deleted) d.second.mayFail = true; }   // a new name was entered: deleted slots may be reused
};
enum OpCode { WRITE, DEL, UNDEL, REN, DUP, REOPEN, RECLAIM };
struct Op { OpCode code; int a, b; int rec; const char* name; };
struct World {
  File f; Model m; std::vector<Rec> recs; std::vector<std::string> paths; std::string file = "/mc/a.dss"; int hash = 1, bin = 40; int access = 0; std::string trail; std::string keyPrefix;
  bool reclaim = false; int level = 0; int sortedCatalog = 0; int blk = 0;   // blk: pathname bins per block (0: the default 32)
  bool open() { bool fresh = !vfs::exists(file); int st = f.open(file, access, hash, bin);
    if (!st && fresh && blk) {   // a file whose directory blocks hold only a few bins, so that new blocks have to be chained
      f.close(); std::string b = vfs::get(file); long long v = blk; memcpy(&b[zdssFileKeys.kbinsPerBlock * 8], &v, 8); memcpy(&b[zdssFileKeys.kbinsRemainInBlock * 8], &v, 8); vfs::put(file, b); st = f.open(file, access, hash, bin); }
    if (st) { fail(keyPrefix + "open", "open failed: %d %s", st, trail.c_str()); return false; } return true; }
  std::string key() { return keyPrefix + trail; }
  // perform one operation on the implementation and the model; reports disagreements
  bool step(const Op& o) {
    trail += (trail.empty() ? "" : ",") + std::string(o.name); transition(); trace("%s", o.name);
    const std::string& A = paths[o.a]; const std::string& B = paths[o.b]; std::string ka = upper(A), kb = upper(B); int st;
    switch (o.code) {
    case WRITE: { bool fresh = !m.live.count(ka); bool typeOk = fresh || m.live[ka].type == recs[o.rec].type;
      st = f.write(A, recs[o.rec]);
      if (!typeOk) { if (st == 0) { fail(key(), "write over a different record type was accepted after %s", trail.c_str()); return false; } count("type_conflicts_refused"); return true; }
      if (st) { fail(key(), "write returned %d after %s", st, trail.c_str()); return false; }
      if (fresh) { m.named(ka); m.spelled[ka] = A; } m.live[ka] = recs[o.rec]; count(fresh ? "creates" : "overwrites"); if (reclaim) for (auto& d : m.deleted) d.second.mayFail = true; return true; }
    case DEL: st = zdelete(f.ifltab, A.c_str());
      if (m.live.count(ka)) { if (st) { fail(key(), "delete of an existing record returned %d after %s", st, trail.c_str()); return false; } m.remember(ka); m.live.erase(ka); count("deletes"); }
      else if (st == 0) { fail(key(), "delete of a missing record reported success after %s", trail.c_str()); return false; } else count("deletes_of_missing");
      return true;
    case UNDEL: st = zundelete(f.ifltab, A.c_str());
      if (m.live.count(ka)) { count("undeletes_of_live"); return true; }
      if (m.deleted.count(ka)) { if (st == 0) { Del d = m.deleted[ka]; Rec got; m.spelled[ka] = d.spelled; m.deleted.erase(ka); m.live[ka] = d.rec; count("undeletes");
          if (!d.older.empty()) { std::vector<Rec> rest = d.older; if (d.mayFail && f.read(A, got) == 0 && got != d.rec) { auto it = std::find(rest.begin(), rest.end(), got); if (it == rest.end()) { fail(key(), "undelete recovered content never deleted under this name after %s", trail.c_str()); return false; } rest.erase(it); m.live[ka] = got; count("undeletes_of_older_version"); rest.insert(rest.begin(), d.rec); }
            if (!rest.empty()) { Del n; n.rec = rest[0]; n.mayFail = true; n.spelled = d.spelled; n.older.assign(rest.begin() + 1, rest.end()); m.deleted[ka] = n; } } }
        else if (!m.deleted[ka].mayFail) { fail(key(), "undelete of a just-deleted record returned %d after %s", st, trail.c_str()); return false; } else { count("undelete_space_reused"); m.deleted.erase(ka); } }
      else if (st == 0) { // only possible if an older incarnation is still recoverable; whatever it is must be readable
        Rec r; if (f.read(A, r) != 0) { fail(key(), "undelete reported success but the record is not readable after %s", trail.c_str()); return false; } fail(key(), "undelete of a never-deleted record succeeded after %s", trail.c_str()); return false; }
      return true;
    case REN: st = zrename(f.ifltab, A.c_str(), B.c_str());
      if (!m.live.count(ka)) { if (st == 0) { fail(key(), "rename of a missing record reported success after %s", trail.c_str()); return false; } count("renames_of_missing"); return true; }
      if (st) { fail(key(), "rename returned %d after %s", st, trail.c_str()); return false; }
      { Rec r = m.live[ka]; if (ka != kb && m.live.count(kb)) { count("renames_over_existing"); m.remember(kb); } m.live.erase(ka); m.named(kb); m.live[kb] = r; m.spelled[kb] = B; count("renames"); } return true;
    case DUP: st = zduplicateRecord(f.ifltab, A.c_str(), B.c_str());
      if (!m.live.count(ka)) { if (st == 0) { fail(key(), "duplicate of a missing record reported success after %s", trail.c_str()); return false; } count("duplicates_of_missing"); return true; }
      if (m.live.count(kb) && m.live[kb].type != m.live[ka].type) { if (st == 0) { fail(key(), "duplicate over another type accepted after %s", trail.c_str()); return false; } return true; }
      if (st) { fail(key(), "duplicate returned %d after %s", st, trail.c_str()); return false; }
      if (!m.live.count(kb)) { m.named(kb); m.spelled[kb] = B; } m.live[kb] = m.live[ka]; count("duplicates"); return true;
    case RECLAIM: st = zsetFile(f.ifltab, "recl", "", o.rec); level = o.rec; if (st) { fail(key(), "setting reclaim level returned %d after %s", st, trail.c_str()); return false; } count("reclaim_level_changes"); return true;
    case REOPEN: st = f.close(); if (st) { fail(key(), "close returned %d after %s", st, trail.c_str()); return false; } count("reopens"); if (!open()) return false; if (level) zsetFile(f.ifltab, "recl", "", level); return true;
    }
    return true;
  }
  // every record readable with the right content, absent ones absent, catalog and count agree
  bool verify() {
    for (auto& p : paths) { std::string k = upper(p); Rec r; int st = f.read(p, r); int ck = zcheck(f.ifltab, p.c_str());
      if (m.live.count(k)) { if (st) { fail(key(), "record %s unreadable (%d) after %s", p.c_str(), st, trail.c_str()); return false; }
        if (r != m.live[k]) { fail(key(), "record %s has wrong content after %s: got %s want %s", p.c_str(), trail.c_str(), r.str().c_str(), m.live[k].str().c_str()); return false; }
        if (ck) { fail(key(), "existence check says %d for existing %s after %s", ck, p.c_str(), trail.c_str()); return false; } }
      else { if (st == 0) { fail(key(), "missing record %s is readable after %s", p.c_str(), trail.c_str()); return false; }
        if (ck == 0) { fail(key(), "existence check finds missing %s after %s", p.c_str(), trail.c_str()); return false; }
        if (isErr(st)) { fail(key(), "reading missing %s gave error %d after %s", p.c_str(), st, trail.c_str()); return false; } } }
    long long nrec = zinquire(f.ifltab, "nrec");
    if (nrec != (long long)m.live.size()) { fail(key(), "file reports %lld records, %zu exist, after %s", nrec, m.live.size(), trail.c_str()); return false; }
    return true;
  }
  bool verifyCatalog() {
    int rc; auto c = f.catalog("", 0, sortedCatalog, &rc); std::set<std::string> got; for (auto& s : c) if (!got.insert(upper(s)).second) { fail(key(), "catalog lists %s twice after %s", s.c_str(), trail.c_str()); return false; }
    std::set<std::string> want; for (auto& p : m.live) want.insert(p.first);
    if (got != want) { fail(key(), "catalog lists %zu records, %zu exist, after %s", got.size(), want.size(), trail.c_str()); return false; }
    if (rc != (int)want.size()) { fail(key(), "catalog returned %d for %zu records after %s", rc, want.size(), trail.c_str()); return false; }
    return true;
  }
  bool verifyStructure(bool counts = true) {
    Walk w = walk(vfs::get(file), true, counts);
    if (!w.errors.empty()) { fail(key(), "file structure after %s: %s", trail.c_str(), w.errors[0].c_str()); return false; }
    int a = zcheckLinks(f.ifltab), b = zcheckPathnames(f.ifltab), c = zcheckPathnameBins(f.ifltab), d = zcheckHashTable(f.ifltab);
    if (a || b || c || d) { fail(key(), "integrity checkers report %d/%d/%d/%d errors after %s", a, b, c, d, trail.c_str()); return false; }
    return true;
  }
};
}
