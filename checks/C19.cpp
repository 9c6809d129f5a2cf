// Aliases: further names of a record, which stand for that record and only it, through every history of operations.
#include "reads.h"
#include <memory>
namespace al {
enum Code { WRITE, ADD, REMOVE, REMALL, DEL, UNDEL, REN, REOPEN, SQUEEZE, COPY };
struct Op { Code code; int a, b, rec; std::string name; };
struct Entry { Rec rec; std::string name; std::vector<std::string> aliases; };   // aliases in the order they were added
struct Cfg { std::string name; std::vector<std::string> paths; int hash, bin, level; };
struct World {
  File f, g; File* cur = &f; bool two = false; int access = 0; std::vector<Entry> live; std::map<std::string, std::vector<Rec>> gone; std::map<std::string, bool> sure; std::string trail; const Cfg* c = nullptr; std::vector<Rec> recs;
  std::string key() { return c->name + ":" + trail; }
  Entry* of(const std::string& n, bool* isAlias = nullptr) { for (auto& e : live) { if (upper(e.name) == upper(n)) { if (isAlias) *isAlias = false; return &e; } for (auto& a : e.aliases) if (upper(a) == upper(n)) { if (isAlias) *isAlias = true; return &e; } } return nullptr; }
  void entered() { for (auto& s : sure) s.second = false; }   // a name was entered, or space taken: what was deleted before may be gone for good
  void drop(Entry* e) { gone[e->name].push_back(e->rec); sure[e->name] = true; live.erase(live.begin() + (e - &live[0])); }
  uint64_t hash() { uint64_t h = 5; for (auto& e : live) { h = mix(mix(h, e.rec.hash()), hashBytes(e.name.data(), e.name.size())); for (auto& a : e.aliases) h = mix(h, hashBytes(a.data(), a.size())); } for (auto& g : gone) h = mix(mix(h, hashBytes(g.first.data(), g.first.size())), g.second.size()); return h; }
  bool open() { int st = cur->open("/mc/a.dss", access, c->hash, c->bin); if (st) { fail(key(), "open failed: %d", st); return false; } if (c->level > 1) zsetFile(cur->ifltab, "recl", "", c->level); return true; }
#define BAD(...) do { fail(key(), __VA_ARGS__); return false; } while (0)
  bool step(const Op& o) {
    trail += (trail.empty() ? "" : ",") + o.name; transition(); trace("%s", o.name.c_str()); *vfs::nowMs += 1000;
    const std::string& A = c->paths[o.a]; const std::string& B = c->paths[o.b]; bool aa = false, ba = false; Entry* e = of(A, &aa); Entry* t = of(B, &ba); int st; const char* W = trail.c_str();
    switch (o.code) {
    case WRITE: st = cur->write(A, recs[o.rec]); if (st) BAD("write returned %d after %s", st, W);
      if (e) { e->rec = recs[o.rec]; count(aa ? "writes through an alias" : "overwrites"); if (c->level > 1) entered(); } else { live.push_back({recs[o.rec], A, {}}); entered(); count("new records"); } return true;
    case ADD: st = zaliasAdd(cur->ifltab, A.c_str(), B.c_str());
      if (!e || t) { if (st == 0) BAD("an alias %s was accepted after %s", !e ? "of a name that is not there" : "with a name that is taken", W); count("additions refused"); return true; }
      if (st) BAD("adding an alias returned %d after %s", st, W);
      e->aliases.push_back(B); entered(); count(aa ? "aliases added through an alias" : "aliases added"); return true;
    case REMOVE: st = zaliasRemove(cur->ifltab, A.c_str());
      if (!e || !aa) { if (st == 0) BAD("removing %s as an alias reported success after %s", e ? "a record's own name" : "a name that is not there", W); if (isErr(st)) BAD("removing a name that is not an alias gave %d after %s", st, W); count("removals refused"); return true; }
      if (st) BAD("removing an alias returned %d after %s", st, W);
      count(upper(e->aliases.back()) == upper(A) ? "newest alias removed" : upper(e->aliases[0]) == upper(A) ? "oldest alias removed" : "middle alias removed");
      for (size_t i = 0; i < e->aliases.size(); i++) if (upper(e->aliases[i]) == upper(A)) { e->aliases.erase(e->aliases.begin() + i); break; }
      return true;
    case REMALL: st = zaliasRemoveAll(cur->ifltab, A.c_str());
      if (!e || e->aliases.empty()) { if (st > 0 || isErr(st)) BAD("removing all aliases of a name without any returned %d after %s", st, W); count("removals of all: none there"); return true; }
      if (st != (int)e->aliases.size()) BAD("removing all of %zu aliases returned %d after %s", e->aliases.size(), st, W);
      e->aliases.clear(); count("removals of all"); return true;
    case DEL: st = zdelete(cur->ifltab, A.c_str());
      if (!e) { if (st == 0) BAD("deleting a name that is not there reported success after %s", W); count("deletes of absent names"); return true; }
      if (st) BAD("delete returned %d after %s", st, W);
      count(aa ? "records deleted through an alias" : e->aliases.empty() ? "records deleted" : "records deleted with their aliases"); drop(e); return true;
    case UNDEL: st = zundelete(cur->ifltab, A.c_str());
      if (e) { if (st == 0) BAD("undeleting a name that exists reported success after %s", W); return true; }
      if (!gone.count(A) || gone[A].empty()) { if (st == 0) BAD("undeleting a name that was never a deleted record reported success after %s", W); return true; }
      if (st) { if (isErr(st)) BAD("undelete gave %d after %s", st, W); if (sure[A]) BAD("undeleting the record just deleted returned %d after %s", st, W); count("deleted record was gone"); return true; }
      { Rec r; int rs = cur->read(A, r); if (rs) BAD("an undeleted record cannot be read (%d) after %s", rs, W); auto& g = gone[A]; bool ok = false;
        for (size_t i = g.size(); i-- > 0;) if (g[i] == r) { if (sure[A] && i + 1 < g.size()) break; g.erase(g.begin() + i); ok = true; break; }
        if (!ok) BAD("undelete brought back something else after %s", W); live.push_back({r, A, {}}); sure[A] = false; count("undeletes"); }
      return true;
    case REN: if (aa || (t && ba)) return true;    // renaming an alias, or over one, is not part of the interface
      st = zrename(cur->ifltab, A.c_str(), B.c_str());
      if (!e) { if (st == 0) BAD("renaming a name that is not there reported success after %s", W); return true; }
      if (st) BAD("rename returned %d after %s", st, W);
      if (e != t) { Entry n = *e; n.name = B; count(n.aliases.empty() ? "renames" : "renames of records with aliases"); if (t) drop(t); e = of(A); live.erase(live.begin() + (e - &live[0])); live.push_back(n); entered(); }
      return true;
    case SQUEEZE: if (cur->close()) BAD("close failed after %s", W); st = zsqueeze("/mc/a.dss"); if (st) BAD("squeeze returned %d after %s", st, W); gone.clear(); sure.clear(); count("squeezes"); return open();
    case COPY: { File g; vfs::del("/mc/b.dss"); st = g.open("/mc/b.dss", 0, c->hash, c->bin); if (st) BAD("opening a second file failed: %d", st); if (c->paths.size() && o.rec) { st = g.write(c->paths[1], recs[0]); if (st) BAD("write to the second file failed"); }
      st = zcopyFile(cur->ifltab, g.ifltab, 0); if (st) BAD("copying the file returned %d after %s", st, W); if (cur->close()) BAD("close failed after %s", W); g.close(); vfs::put("/mc/a.dss", vfs::get("/mc/b.dss")); vfs::del("/mc/b.dss"); gone.clear(); sure.clear(); count("copies of the file"); return open(); }
    case REOPEN: if (cur->close()) BAD("close failed after %s", W); count("reopens"); return open();
    }
    return true;
  }
  bool verify(bool full) {
    const char* W = trail.c_str();
    for (auto& p : c->paths) { bool al = false; Entry* e = of(p, &al); Rec r; int st = cur->read(p, r), ck = zcheck(cur->ifltab, p.c_str()), nu = zaliasNumber(cur->ifltab, p.c_str()), ty = zdataType(cur->ifltab, p.c_str());
      char prim[400] = ""; int gp = zaliasGetPrimary(cur->ifltab, p.c_str(), prim, sizeof prim); char* list = nullptr; int len = 0; int nl = zaliasList(cur->ifltab, p.c_str(), &list, &len); std::vector<std::string> got; if (nl > 0 && list) for (int i = 0, at = 0; i < nl && at < len; i++) { got.push_back(list + at); at += got.back().size() + 1; } free(list);
      state(mix(hashBytes(p.data(), p.size()), e ? 1 + e->aliases.size() + 10 * al : 0));
      if (!e) { if (st == 0 || ck == 0 || nu > 0 || gp == 0 || nl > 0) BAD("%s is not there, yet reading gives %d, checking %d, counting its aliases %d, asking for its record %d, listing %d, after %s", p.c_str(), st, ck, nu, gp, nl, W); if (isErr(st) || isErr(ck)) BAD("%s is not there, but reading gave error %d, checking %d after %s", p.c_str(), st, ck, W); continue; }
      const char* k = al ? "alias" : "record";
      if (st) BAD("%s %s cannot be read (%d) after %s", k, p.c_str(), st, W);
      if (r != e->rec) BAD("%s %s reads as %s, should be %s, after %s", k, p.c_str(), r.str().c_str(), e->rec.str().c_str(), W);
      if (ck) BAD("existence check of %s %s says %d after %s", k, p.c_str(), ck, W);
      if (ty != e->rec.type) BAD("type of %s %s is given as %d after %s", k, p.c_str(), ty, W);
      if (gp || upper(prim) != upper(e->name)) BAD("%s %s is said to belong to '%s' (%d), not %s, after %s", k, p.c_str(), prim, gp, e->name.c_str(), W);
      if (nu != (int)e->aliases.size()) BAD("%s %s is said to have %d aliases, has %zu, after %s", k, p.c_str(), nu, e->aliases.size(), W);
      std::vector<std::string> want = {e->name}; want.insert(want.end(), e->aliases.rbegin(), e->aliases.rend()); bool same = got.size() == want.size() && nl == (int)want.size(); for (size_t i = 0; same && i < want.size(); i++) same = upper(got[i]) == upper(want[i]);
      if (!same) { std::string g; for (auto& s : got) g += s + " "; BAD("names listed for %s %s: %d (%s), should be %zu, after %s", k, p.c_str(), nl, g.c_str(), want.size(), W); } }
    size_t na = 0; for (auto& e : live) na += e.aliases.size(); long long npri = zinquire(cur->ifltab, "npri"), nali = zinquire(cur->ifltab, "nali"), nrec = zinquire(cur->ifltab, "nrec");
    if (npri != (long long)live.size() || nali != (long long)na) BAD("the file reports %lld records and %lld aliases, has %zu and %zu, after %s", npri, nali, live.size(), na, W); (void)nrec;
    if (!full) return true;
    for (int sel = 0; sel < 3; sel++) for (int sorted = 0; sorted < 1 + (c->hash == 0); sorted++) { auto l = cur->catalog("", sel, sorted); std::multiset<std::string> g, w; for (auto& s : l) g.insert(upper(s)); for (auto& e : live) { if (sel != 2) w.insert(upper(e.name)); if (sel != 1) for (auto& a : e.aliases) w.insert(upper(a)); }
      if (g != w) { std::string t; for (auto& s : g) t += s + " "; BAD("the %s catalogue of %s lists %zu names (%s), there are %zu, after %s", sorted ? "sorted" : "unsorted", sel == 0 ? "everything" : sel == 1 ? "records" : "aliases", g.size(), t.c_str(), w.size(), W); } }
    Walk w = walk(vfs::get("/mc/a.dss")); if (!w.errors.empty()) BAD("file structure after %s: %s", W, w.errors[0].c_str());
    int a = zcheckLinks(cur->ifltab), b = zcheckPathnames(cur->ifltab), d = zcheckPathnameBins(cur->ifltab), h = zcheckHashTable(cur->ifltab); if (a || b || d || h) BAD("the file checkers report %d/%d/%d/%d after %s", a, b, d, h, W);
    return true;
  }
};
std::string LONGP(char c, int n) { std::string s; for (int i = 0; i < 6; i++) s += "/" + std::string(n, c - i % 3); return s + "/"; }
std::vector<Rec> R() { return {makeRec(90, 4, 0, 2, 6, 0, 0, 1), makeRec(90, 4, 2, 4, 60, 10, 4, 2), makeRec(90, 2, 0, 0, 3, 0, 0, 3)}; }
std::vector<Op> alphabet() {
  const char* N[] = {"P", "X", "Y", "Q"}; std::vector<Op> o;
  for (int n = 0; n < 4; n++) { if (n < 2) for (int r = 0; r < 2; r++) o.push_back({WRITE, n, n, r, strf("write(%s,%s)", N[n], r ? "big" : "small")}); else if (n == 3) o.push_back({WRITE, n, n, 2, "write(Q,tiny)"}); }
  for (int n = 0; n < 4; n++) for (int m = 1; m < 4; m++) if (n != m && (n < 2 || m == 2 || (n == 2 && m == 1))) o.push_back({ADD, n, m, 0, strf("alias(%s=%s)", N[m], N[n])});
  for (int n = 0; n < 4; n++) o.push_back({REMOVE, n, n, 0, strf("remove(%s)", N[n])});
  o.push_back({REMALL, 0, 0, 0, "removeAll(P)"}); o.push_back({REMALL, 2, 2, 0, "removeAll(Y)"});
  for (int n = 0; n < 3; n++) o.push_back({DEL, n, n, 0, strf("delete(%s)", N[n])});
  for (int n = 0; n < 2; n++) o.push_back({UNDEL, n, n, 0, strf("undelete(%s)", N[n])});
  o.push_back({REN, 0, 3, 0, "rename(P,Q)"}); o.push_back({REN, 3, 0, 0, "rename(Q,P)"}); o.push_back({REOPEN, 0, 0, 0, "reopen"}); o.push_back({SQUEEZE, 0, 0, 0, "squeeze"}); o.push_back({COPY, 0, 0, 0, "copy"});
  return o;
}
// --- records of every kind, written and read through any of their names
std::string readKind(File& f, int k, const char* p) { using namespace reads; switch (k) { case 0: case 1: return text(f, p); case 2: return arr(f, p); case 3: case 4: case 5: case 6: return reads::ts(f, p, "01Dec2001", "0100", "31Dec2001", "2400", -1, k % 2 ? 0 : 2, 1); case 7: case 8: return reads::pd(f, p, 0); case 9: case 10: return gridOut(f, p, true); case 11: return tin(f, p, true); case 12: return blob(f, p); default: return textFile(f, p); } }
std::string nameOf(int k, int n) { const char* F[] = {"THE RECORD", "X", "ANOTHER NAME"}; if (k == 9 || k == 10) return strf("/R/G/PRECIP/01JAN2000:0100/01JAN2000:0200/%s/", F[n]); return strf(reg(k) ? "/R/ONE/FLOW/01Dec2001/1Hour/%s/" : irreg(k) ? "/R/ONE/FLOW/01Dec2001/IR-Month/%s/" : "/R/ONE/DATA///%s/", F[n]); }
const int SEED[] = {1, 9, 40};
bool kindWorld(const std::string& key, int k, int level, const std::vector<int>& seq, bool aliases, std::vector<std::string>& out) {
  freshWorld(); *vfs::nowMs = 1700000000000LL; File f; if (f.open("/mc/a.dss", 0, 1, 90)) { fail(key, "open"); return false; } if (level > 1) zsetFile(f.ifltab, "recl", "", level); std::string N[3] = {nameOf(k, 0), nameOf(k, 1), nameOf(k, 2)}; int rc = put(f, k, N[0].c_str(), 2); if (rc) { fail(key, "the first store returned %d", rc); return false; }
  if (aliases) { int a = zaliasAdd(f.ifltab, N[0].c_str(), N[1].c_str()), b = zaliasAdd(f.ifltab, N[1].c_str(), N[2].c_str()); if (a || b) { fail(key, "adding aliases returned %d, %d", a, b); return false; } }
  for (int o : seq) { *vfs::nowMs += 1000; rc = put(f, k, N[aliases ? o % 3 : 0].c_str(), SEED[o / 3]); if (rc) { fail(key, "a store through %s returned %d", o % 3 ? "an alias" : "the record's name", rc); return false; } count(o % 3 ? "stores through an alias" : "stores through the record's name"); }
  for (int pass = 0; pass < 2; pass++) { for (int n = 0; n < 3; n++) { out.push_back(readKind(f, k, N[aliases ? n : 0].c_str()) + strf(" kind %d", zdataType(f.ifltab, N[aliases ? n : 0].c_str()))); zStructRecordSize* z = zstructRecordSizeNew(N[aliases ? n : 0].c_str()); int r = zgetRecordSize(f.ifltab, z); reads::Out o; o.n("size", r).n("type", z->dataType).n("v1", z->values1Number).n("v2", z->values2Number).n("v3", z->values3Number).n("logical", z->logicalNumberValues); zstructFree(z); out.push_back(o.s); }
    if (!pass) { if (f.close() || f.open("/mc/a.dss")) { fail(key, "reopen"); return false; } } }
  f.close(); Walk w = walk(vfs::get("/mc/a.dss")); if (w.errors.size()) { fail(key, "file structure: %s", w.errors[0].c_str()); return false; } return true; }
}
using namespace al;
int main(int argc, char** argv) {
  Check c; c.id = "C19"; c.level = "model_checking";
  c.assumptions = {"the operating system file interface is replaced by an in-memory file system; everything above it is the real library", "bounds: 4 names (short, long, colliding), 3 record shapes, histories up to the stated length from each starting file"};
  c.build = [](bool th, std::vector<Family>& fs) {
    static std::vector<Cfg> cf = {{"one bucket", {"/A/B/C/D/E/F/", "/A/B/C/D/E/G/", "/A/B/C/D/E/H/", "/A/B/C/D/E/LONGER NAME/"}, 1, 40, 1}, {"hash collision", {"/AP/B/C/D/E/F/", "/B1/B/C/D/E/F/", "/AP/B/C/D/E/G/", "/B1/B/C/D/E/G LONGER NAME/"}, 1, 60, 2}, {"space reused", {"/A longer part/B/C/D/E/F/", "/A/B/C/D/E/G/", "/A/B/Longer part too/D/E/H/", "/Q/B/C/D/E/LONGER NAME/"}, 3, 30, 3}, {"default tables", {"/A/B/C/D/E/F/", "/a1/B/C/D/E/G/", "/Aa/Bb/Ccc/D/E/H/", "/Quite Long A/Part B/C/D/E/LONGER NAME/"}, 0, 0, 1}, {"long names", {LONGP('P', 60), "/A/B/C/D/E/short/", LONGP('Y', 62), LONGP('Q', 63)}, 2, 180, 2}};
    static std::vector<Op> ops = alphabet(); static std::vector<std::pair<std::string, std::vector<Op>>> base;
    if (base.empty()) { Op w{WRITE, 0, 0, 0, "write(P,small)"}, wb{WRITE, 0, 0, 1, "write(P,big)"}, x{ADD, 0, 1, 0, "alias(X=P)"}, y{ADD, 0, 2, 0, "alias(Y=P)"}, yx{ADD, 1, 2, 0, "alias(Y=X)"}, q{ADD, 0, 3, 0, "alias(Q=P)"}, wq{WRITE, 3, 3, 2, "write(Q,tiny)"}, d{DEL, 0, 0, 0, "delete(P)"};
      base = {{"empty file", {}}, {"record and alias", {w, x}}, {"record, two aliases", {w, x, yx}}, {"record, three aliases", {w, x, y, q}}, {"grown record, two aliases, another record", {w, x, y, wb, wq}}, {"deleted record and aliases, written again", {w, x, y, d, w}}}; }
    for (auto& k : cf) for (auto& b : base) { int d = th ? 4 : (k.hash == 0 || k.hash == 2 ? 2 : 3); const Cfg* C = &k; auto B = &b; size_t n = ops.size(); Family f; f.name = k.name + ": " + b.first; f.n = seqCount(n, d, d); f.chunk = 64;
      f.rule = strf("all %d-operation histories over %zu operations (write, add, remove, remove all, delete, undelete, rename, reopen on 4 names) from %s; hash table %d, bin %d, reclaim level %d; every name looked at in every way after each operation, the catalogues, the structure and the re-opened file at the end", d, n, b.first.c_str(), k.hash, k.bin, k.level);
      f.describe = [n, d](uint64_t i) { std::string s; for (int o : seqDecode(i, n, d, d)) s += (s.empty() ? "" : ",") + ops[o].name; return s; };
      f.run = [C, B, n, d](uint64_t i) {
        freshWorld(); World w; w.c = C; w.recs = R(); if (!w.open()) return; w.trail = "";
        for (auto& o : B->second) if (!w.step(o)) return;
        auto seq = seqDecode(i, n, d, d); size_t j = 0; for (int o : seq) { if (!w.step(ops[o])) return; state(w.hash()); if (++j >= seq.size() - 1 && !w.verify(j == seq.size())) return; }
        if (!w.step({REOPEN, 0, 0, 0, "reopen"}) || !w.verify(true)) return; w.f.close(); };
      fs.push_back(f); }
    for (int q = 0; q < 2; q++) for (auto& b : base) { int d = th || (q == 0 && b.second.size() > 1 && b.second.size() < 4) ? 3 : 2; const Cfg* C = &cf[q * 2]; auto B = &b; size_t n = (ops.size() - 2) * 2; Family f; f.name = "two handles, " + C->name + ": " + b.first; f.n = seqCount(n, d, d); f.chunk = 64;
      f.rule = strf("all %d-operation histories over the operations without squeeze and copy, each through the first or the second of two handles the file is open on, from %s; every name looked at through both handles after each operation", d, b.first.c_str());
      f.describe = [n, d](uint64_t i) { std::string s; for (int o : seqDecode(i, n, d, d)) s += strf("%s%s by handle %d", s.empty() ? "" : ",", ops[o / 2].name.c_str(), 1 + o % 2); return s; };
      f.run = [C, B, n, d](uint64_t i) {
        freshWorld(); World w; w.c = C; w.recs = R(); w.two = true; w.access = 2; if (!w.open()) return; w.cur = &w.g; if (!w.open()) return; size_t at = 0;
        for (auto& o : B->second) { w.cur = at++ % 2 ? &w.g : &w.f; if (!w.step(o)) return; }
        auto seq = seqDecode(i, n, d, d); size_t j = 0; for (int o : seq) { w.cur = o % 2 ? &w.g : &w.f; if (!w.step(ops[o / 2])) return; w.trail += o % 2 ? "/2" : "/1"; state(w.hash()); j++; for (File* h : {&w.g, &w.f}) { w.cur = h; if (!w.verify(j == seq.size())) return; } }
        w.f.close(); w.g.close(); };
      fs.push_back(f); }
    static Cfg many{"many aliases", {}, 1, 200, 1}, many3{"many aliases, space reused", {}, 2, 60, 3};
    if (many.paths.empty()) { many.paths.push_back("/THE RECORD/B/C/D/E/F/"); for (int i = 1; i < 40; i++) many.paths.push_back(strf("/A%d/%s/C/D/E/%s/", i, i % 3 ? "B" : "ANOTHER PART B", i % 5 ? "F" : "")); many3.paths = many.paths; }
    { int N = th ? 30 : 12; Family f; f.name = "many aliases"; std::vector<std::pair<int,int>> at; for (int n = 1; n <= N; n++) for (int i = 0; i <= n; i++) at.push_back({n, i}); size_t na = at.size(); f.n = na * 2 * 3 * 8 * 5; f.chunk = 64;
      f.rule = strf("1 to %d aliases, each added to the record, to the previous one or to either in turn x reclaim level x one of remove, remove all, delete, write bigger, write, rename, squeeze, copy through each of the names x then one of add, remove the newest, delete, write, undelete and write", N);
      auto dec = [at, na](uint64_t i, Cfg*& C, std::vector<Op>& v) { auto a = at[digit(i, na)]; C = digit(i, 2) ? &many3 : &many; int style = digit(i, 3), o1 = digit(i, 8), o2 = digit(i, 5), n = a.first, x = a.second; v.push_back({WRITE, 0, 0, 0, "write(0)"});
        for (int k = 1; k <= n; k++) { int to = style == 0 ? 0 : style == 1 ? k - 1 : k % 2 ? 0 : k - 1; v.push_back({ADD, to, k, 0, strf("alias(%d=%d)", k, to)}); }
        const Op O1[] = {{REMOVE, x, x, 0, strf("remove(%d)", x)}, {REMALL, x, x, 0, strf("removeAll(%d)", x)}, {DEL, x, x, 0, strf("delete(%d)", x)}, {WRITE, x, x, 1, strf("write(%d,big)", x)}, {WRITE, x, x, 2, strf("write(%d,tiny)", x)}, {REN, 0, n + 2, 0, strf("rename(0,%d)", n + 2)}, {SQUEEZE, 0, 0, 0, "squeeze"}, {COPY, 0, 0, 0, "copy"}}; v.push_back(O1[o1]);
        const Op O2[] = {{ADD, n ? 1 : 0, n + 1, 0, strf("alias(%d=1)", n + 1)}, {REMOVE, n, n, 0, strf("remove(%d)", n)}, {DEL, 1, 1, 0, "delete(1)"}, {WRITE, 0, 0, 1, "write(0,big)"}, {UNDEL, 0, 0, 0, "undelete(0)"}}; v.push_back(O2[o2]); return o1 < 3 || x == 0 || (o1 < 5); };
      f.describe = [dec](uint64_t i) { Cfg* C; std::vector<Op> v; dec(i, C, v); std::string s = C->name; for (auto& o : v) s += " " + o.name; return s; };
      f.run = [dec](uint64_t i) { Cfg* C; std::vector<Op> v; if (!dec(i, C, v)) return; freshWorld(); Cfg mine = *C; size_t top = 0; for (auto& o : v) top = std::max({top, (size_t)o.a, (size_t)o.b}); mine.paths.resize(top + 1); World w; w.c = &mine; w.recs = R(); if (!w.open()) return; w.trail = "";
        for (size_t j = 0; j < v.size(); j++) { if (!w.step(v[j])) return; state(w.hash()); if (j + 2 >= v.size() && !w.verify(j + 1 == v.size())) return; }
        if (!w.step({REOPEN, 0, 0, 0, "reopen"}) || !w.verify(true)) return; w.f.close(); };
      fs.push_back(f); }
    { int d = th ? 5 : 3; Family f; f.name = "records of every kind"; f.n = 13 * 2 * seqCount(9, d, d); f.chunk = 20; f.rule = strf("13 kinds of records with an alias and an alias of that alias x reclaim level x all sequences of %d stores of three sizes through any of the names; reading through each name, before and after re-opening, gives what the same history without aliases gives", d);
      f.describe = [d](uint64_t i) { int k = digit(i, 13), l = digit(i, 2); std::string s = strf("%s, reclaim %d", KIND[k].name, l ? 3 : 1); for (int o : seqDecode(i, 9, d, d)) s += strf(", store %d through name %d", SEED[o / 3], o % 3); return s; };
      f.run = [d](uint64_t i) { int k = digit(i, 13), l = digit(i, 2) ? 3 : 1; auto seq = seqDecode(i, 9, d, d); std::string key = strf("%s/reclaim %d", KIND[k].name, l); for (int o : seq) key += strf("/%d via %d", SEED[o / 3], o % 3); std::vector<std::string> want, got; if (!kindWorld(key, k, l, seq, false, want) || !kindWorld(key, k, l, seq, true, got)) return;
        for (size_t j = 0; j < want.size(); j++) { state(hashBytes(got[j].data(), got[j].size())); if (got[j] != want[j]) { fail(key, "through name %zu%s: got%s; without aliases:%s", j / 2 % 3, j >= 6 ? " after re-opening" : "", got[j].c_str(), want[j].c_str()); return; } } };
      fs.push_back(f); } };
  return run(argc, argv, c);
}
