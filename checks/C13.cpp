// Processes that share a file: whatever the schedule, every call behaves as if the calls had run one after the other.
#include "schedule.h"
#include "irr.h"
#include <functional>
extern "C" {
#include "zdssKeys.h"
}
using namespace dss; using namespace mc;
enum Code { W, D, REN, RD, UND, DUP, TS, IT, DB, PAT, RT };
struct Op { Code code; int a, b, rec; const char* name; };
static const char* const NAME[] = {"/A/B/C/D/E/F/", "/A/B/C/D/E/G/", "/A/B/C/D/E/H/", "/BACK/GROUND////R/"};
static std::vector<Rec> recs() { return {makeRec(90, 4, 0, 2, 6, 0, 0, 1), makeRec(90, 4, 2, 4, 60, 10, 4, 2), makeRec(90, 1, 1, 2, 4, 2, 2, 3), makeRec(90, 4, 0, 2, 6, 0, 0, 4), makeRec(90, 3, 1, 2, 30, 2, 2, 9)}; }
static const std::vector<Op> OPS = {{W, 0, 0, 0, "W(A,small)"}, {W, 0, 0, 1, "W(A,big)"}, {W, 1, 1, 2, "W(B,small)"}, {W, 2, 2, 3, "W(C,small)"}, {D, 0, 0, 0, "D(A)"}, {REN, 0, 1, 0, "R(A,B)"}, {REN, 1, 2, 0, "R(B,C)"}, {UND, 0, 0, 0, "U(A)"}, {DUP, 0, 2, 0, "C(A,C)"}, {RD, 0, 0, 0, "read A"}, {RD, 3, 3, 0, "read other"},
  {TS, 0, 3, 0, "T(0-2)"}, {TS, 1, 4, 0, "T(1-4)"}, {TS, 2, 2, 1, "T(2-3,fill)"}, {TS, 3, 3, 0, "T(3-5)"}, {DB, 3, 0, 0, "D(2000)"}, {IT, 0, 3, 0, "I(0-2)"}, {IT, 1, 4, 0, "I(1-4)"}, {IT, 1, 3, 1, "I(1-3,replace)"}, {IT, 3, 3, 0, "I(3-5)"}, {PAT, 0, 0, 0, "pattern"}, {RT, 0, 0, 0, "read series"}};
struct Cfg { int nproc, init, modes, hash, bin; std::vector<std::vector<int>> ops; bool openInside; int level; bool resume = false; };
static uint64_t H(const Rec& r) { return r.hash() | 1; }
static std::function<Cfg(unsigned long long)> DEC[16];
static const char* F = "/mc/a.dss";
// series: six days around the end of 2000, in two records; slot k of the regular (irregular) one is item 10 + k (20 + k) of the model
static const std::string RP = "/A/B/FLOW//1Day/F/", IP = "/A/B/FLOW//IR-Year/I/", PP = "/A/B/FLOW/TS-PATTERN/1Day/P/"; static const char* BLOCK = "/A/B/FLOW/01JAN2000/1DAY/F/";
static cal::ll T0() { return (cal::julian(2000, 12, 29) + 1) * 86400; }
static std::vector<double> tv(const Op& o) { std::vector<double> v; for (int k = 0; k < o.b; k++) v.push_back((&o - &OPS[0]) * 100 + o.a + k); return v; }
static uint64_t vh(double d) { uint64_t u; memcpy(&u, &d, 8); return u | 1; }
static int storeTs(File& f, const Op& o) { auto v = tv(o); if (o.code == TS) return ts::store(f, RP, T0() + o.a * 86400, v, o.rec);
  if (o.code == IT) { irr::Series s; for (int k = 0; k < o.b; k++) s[T0() + (o.a + k) * 86400] = irr::V{v[k], 0, 0, ""}; return irr::store(f, IP, s, o.rec, true, 60, false); }
  static double pv[] = {1, 2, 3}; zStructTimeSeries* t = zstructTsNewRegDoubles(PP.c_str(), pv, 3, "", "", "cfs", "INST-VAL"); int s = ztsStore(f.ifltab, t, 0); zstructFree(t); return s; }
static void readSeries(File& f, std::map<int, uint64_t>& m) { for (int w = 0; w < 2; w++) { auto g = ts::retrieve(f, w ? IP : RP, T0(), T0() + 5 * 86400); if (g.status) { if (isErr(g.status)) m[99] = 1; continue; } for (size_t i = 0; i < g.v.size() && i < g.times.size(); i++) if (!ts::missing(g.v[i])) m[(w ? 20 : 10) + (int)((g.times[i] - T0()) / 86400)] = vh(g.v[i]); } }
static uint64_t sh(const std::map<int, uint64_t>& m) { uint64_t h = 5; for (auto& e : m) if (e.first >= 10 && e.first < 30) h = mix(mix(h, e.first), e.second); return h; }
static void script(int p, unsigned long long sc) {
  Cfg c = DEC[sc >> 40](sc & ((1ull << 40) - 1)); if (p >= (int)c.ops.size()) return; static auto R = recs(); int mode = c.modes == 0 ? 0 : c.modes == 1 ? 2 : (p == 0 ? 0 : 2); File f; if (c.openInside) sch::counting = true; if (f.open(F, mode)) { auto& r = sch::begin(); r.status = -12345; sch::end(r); return; } if (c.level) zsetFile(f.ifltab, "recl", "", c.level); sch::counting = true; long lockByte = 8 * ((long long*)f.ifltab[zdssKeys.kfileHeader])[zdssFileKeys.klockAddressWord];
  for (int o : c.ops[p]) { const Op& op = OPS[o]; auto& r = sch::begin(); const char *A = NAME[op.a], *B = NAME[op.b]; switch (op.code) { case W: r.status = f.write(A, R[op.rec]); break; case D: r.status = zdelete(f.ifltab, A); break; case UND: r.status = zundelete(f.ifltab, A); break; case REN: r.status = zrename(f.ifltab, A, B); break; case DUP: r.status = zduplicateRecord(f.ifltab, A, B); break; case RD: { Rec q; r.status = f.read(A, q); r.rec = r.status == 0 ? H(q) : 0; break; } case TS: case IT: case PAT: r.status = storeTs(f, op); break; case DB: r.status = zdelete(f.ifltab, BLOCK); break; case RT: { std::map<int, uint64_t> q; readSeries(f, q); r.status = q.count(99) ? -98 : 0; r.rec = sh(q); } } sch::end(r); bool was = sch::counting; sch::counting = false;
    if (mode == 2 && vfs::holds(vfs::pid, lockByte)) r.status = -99; sch::counting = was; }
  if (!c.openInside) { f.close(); sch::counting = false; } else { f.close(); sch::counting = false; } }
typedef std::map<int, uint64_t> M; struct Model { M live, dead; };
static bool step(Model& m, const Op& o, int st, uint64_t rec, bool freeRead, const std::vector<Rec>& R) {   // can the operation have given this result here?
  bool has = m.live.count(o.a); switch (o.code) { case W: m.live[o.a] = H(R[o.rec]); return st == 0;
    case D: if (!has) return st == -1; m.dead[o.a] = m.live[o.a]; m.live.erase(o.a); return st == 0;
    case UND: if (has || !m.dead.count(o.a)) return st != 0 && !isErr(st); if (st) return !isErr(st); m.live[o.a] = m.dead[o.a]; m.dead.erase(o.a); return true;
    case REN: if (!has) return st == -1; if (m.live.count(o.b)) m.dead[o.b] = m.live[o.b]; m.live[o.b] = m.live[o.a]; m.live.erase(o.a); return st == 0;
    case DUP: if (!has) return st == -1; m.live[o.b] = m.live[o.a]; return st == 0;
    case RD: if (freeRead) return true; return has ? st == 0 && rec == m.live[o.a] : st == -1;
    case TS: { auto v = tv(o); for (int k = 0; k < o.b; k++) if (o.rec == 0 || !m.live.count(10 + o.a + k)) m.live[10 + o.a + k] = vh(v[k]); return st == 0; }
    case IT: { auto v = tv(o); for (int k = 0; k < o.b; k++) m.live[20 + o.a + k] = vh(v[k]); return st == 0; }
    case PAT: m.live[40] = 1; return st == 0;
    case DB: { bool any = false; for (int k = 0; k < 3; k++) any |= m.live.erase(10 + k) > 0; return st == (any ? 0 : -1); }
    case RT: return st == 0 && (freeRead || rec == sh(m.live)); } return false; }
static bool series(Code c) { return c >= TS && c != PAT; }
static void runCfg(int fam, uint64_t i, int bound) {
  sch::start(3, script); static auto R = recs(); Cfg c = DEC[fam](i); sch::S->nproc = c.nproc; sch::freeResume = c.resume; sch::S->scenario = (unsigned long long)fam << 40 | i;
  freshWorld(); File f; if (f.open(F, 0, c.hash, c.bin)) { fail("open", "open"); return; } Model m0; if (c.level) { zsetFile(f.ifltab, "recl", "", c.level); } f.write(NAME[3], R[4]); m0.live[3] = H(R[4]); if (c.init >= 1) { f.write(NAME[0], R[0]); m0.live[0] = H(R[0]); } if (c.init >= 2) { f.write(NAME[1], R[1]); m0.live[1] = H(R[1]); } if (c.init == 3) { storeTs(f, OPS[11]); storeTs(f, OPS[14]); storeTs(f, OPS[16]); readSeries(f, m0.live); } f.close(); std::string bytes = vfs::get(F); *vfs::nowMs += 1000; long long now = *vfs::nowMs;
  std::string who; for (auto& o : c.ops) { for (int k : o) who += std::string(who.size() ? "," : "") + OPS[k].name; } auto key = [&](const char* k) { return std::string(k) + " " + who + strf(" modes %d init %d", c.modes, c.init); };
  struct E { int p, k; const Op* op; sch::Result r; bool freeRead; };
  sch::explore([&] { vfs::put(F, bytes); *vfs::nowMs = now; }, bound, [&](const std::string& t) {
    transition(sch::S->step); vfs::hook = nullptr; std::vector<E> es; for (int p = 0; p < c.nproc; p++) for (int k = 0; k < sch::S->nops[p]; k++) es.push_back({p, k, &OPS[c.ops[p][k]], sch::S->res[p][k], false});
    auto say = [&] { std::string s; for (auto& e : es) s += strf(" %d:%s=%d[%d,%d]%s", e.p, e.op->name, e.r.status, e.r.start, e.r.end, e.op->code == RD && e.r.status == 0 ? strf("(%llx)", (unsigned long long)e.r.rec).c_str() : ""); return s; };
    if (sch::S->stuck) { fail(key("stuck"), "%s: the processes wait for ever:%s", t.c_str(), say().c_str()); return false; }
    for (auto& e : es) { if (e.r.status == -12345) { fail(key("open"), "%s: opening failed", t.c_str()); return false; } if (e.op->code == RD) for (auto& x : es) if (x.p != e.p && x.op->code != RD && (x.op->a == e.op->a || x.op->b == e.op->a) && !(x.r.end < e.r.start || e.r.end < x.r.start)) e.freeRead = true; }
    bool usesSeries = false; for (auto& e : es) usesSeries |= e.op->code >= TS; for (auto& e : es) if (e.r.status == -99) { fail(key("lock held"), "%s: a process still holds the lock of the file after %s", t.c_str(), e.op->name); return false; } for (auto& e : es) if (e.op->code == RT) for (auto& x : es) if (x.p != e.p && x.op->code != RT && series(x.op->code) && !(x.r.end < e.r.start || e.r.end < x.r.start)) e.freeRead = true;
    Model fin; { File g; if (g.open(F)) { fail(key("final"), "%s: the file cannot be opened afterwards:%s", t.c_str(), say().c_str()); return false; } auto cat = g.catalog("", 0, 0); for (auto& p : cat) { if (upper(p).find("/FLOW/") != std::string::npos) { if (upper(p).find("TS-PATTERN") != std::string::npos) fin.live[40] = 1; continue; } int id = -1; for (int n = 0; n < 4; n++) if (upper(p) == NAME[n]) id = n; if (id < 0 || fin.live.count(id)) { fail(key("catalog"), "%s: %s is listed wrongly:%s", t.c_str(), p.c_str(), say().c_str()); return false; } Rec q; int st = g.read(p, q); if (st) { fail(key("unreadable"), "%s: %s is listed and reads %d:%s", t.c_str(), p.c_str(), st, say().c_str()); return false; } fin.live[id] = H(q); } if (usesSeries) readSeries(g, fin.live); g.close(); }
    std::string img = vfs::get(F); state(std::hash<std::string>()(img)); Walk w = walk(img); if (w.errors.size()) { fail(key("structure"), "%s: %s:%s", t.c_str(), w.errors[0].c_str(), say().c_str()); return false; }
    std::vector<char> used(es.size(), 0); std::function<bool(Model, size_t)> lin = [&](Model m, size_t n) { if (n == es.size()) return m.live == fin.live; for (size_t j = 0; j < es.size(); j++) { if (used[j]) continue; bool ready = true; for (size_t x = 0; x < es.size(); x++) if (!used[x] && x != j && (es[x].p == es[j].p ? es[x].k < es[j].k : es[x].r.end < es[j].r.start)) ready = false; if (!ready) continue; Model q = m; if (!step(q, *es[j].op, es[j].r.status, es[j].r.rec, es[j].freeRead, R)) continue; used[j] = 1; bool ok = lin(q, n + 1); used[j] = 0; if (ok) return true; } return false; };
    if (!lin(m0, 0)) { std::string s; for (auto& x : fin.live) s += x.first < 4 ? std::string(" ") + NAME[x.first] : strf(" slot %d", x.first); fail(key("order"), "%s: no order of the calls explains%s, with%s at the end", t.c_str(), say().c_str(), s.c_str()); return false; }
    return true; }); }
static std::string show(const Cfg& c) { std::string s = strf("modes %d init %d:", c.modes, c.init); for (auto& o : c.ops) { s += " ["; for (int k : o) s += std::string(OPS[k].name) + " "; s += "]"; } return s; }
static void add(std::vector<Family>& fs, const char* name, uint64_t n, int bound, std::function<Cfg(unsigned long long)> dec, const std::string& rule) { int id = fs.size(); DEC[id] = dec; Family f; f.name = name; f.n = n; f.chunk = n / 64 + 1; f.timeoutS = 120; f.rule = rule + strf("; all schedules with at most %d preemptions", bound); f.describe = [=](uint64_t i) { return show(dec(i)); }; f.run = [=](uint64_t i) { runCfg(id, i, bound); }; fs.push_back(f); }
int main(int argc, char** argv) {
  Check c; c.id = "C13"; c.level = "model_checking";
  c.assumptions = {"simulated POSIX record locks and an in-memory file shared by real processes; a read or write is atomic", "preemption only at reads, writes and lock operations on the file"};
  c.build = [](bool th, std::vector<Family>& fs) { int k = 11;
    auto two = [](int a, int b) { return std::vector<std::vector<int>>{{a}, {b}}; };
    add(fs, "one-each", (uint64_t)k * k * 9, 2, [=](unsigned long long i) { return Cfg{2, (int)(i % 3), (int)(i / 3 % 3), 1, 40, two(i / 9 % k, i / 9 / k), false, 0}; }, "two processes with one call each of the eleven, three initial contents, default / multi-user / one of each access");
    static const int seven[] = {0, 2, 4, 5, 7, 8, 9};
    add(fs, "two-each", 2401 * 2, 1, [=](unsigned long long i) { int n = i / 2; return Cfg{2, 1, (int)(i % 2), 1, 40, {{seven[n % 7], seven[n / 7 % 7]}, {seven[n / 49 % 7], seven[n / 343]}}, false, 0}; }, "two processes with two calls each of seven, default or multi-user access");
    add(fs, "three", 343 * 3, 1, [=](unsigned long long i) { int n = i / 3; return Cfg{3, 1, (int)(i % 3), 1, 40, {{seven[n % 7]}, {seven[n / 7 % 7]}, {seven[n / 49]}}, false, 0}; }, "three processes with one call each of seven");
    add(fs, "wait", 64, 2, [=](unsigned long long i) { static const int four[] = {0, 2, 4, 5}; return Cfg{2, 1, 1, 1, 40, {{four[i % 4], four[i / 4 % 4]}, {four[i / 16]}}, false, 0, true}; }, "two calls of four against one; a process that waits for the lock may get it at once when it is released");
    add(fs, "open-close", 49 * 3, 2, [=](unsigned long long i) { int n = i / 3; return Cfg{2, 1, (int)(i % 3), 1, 40, two(seven[n % 7], seven[n / 7]), true, 0}; }, "two processes that open the file, make one call and close it");
    static const int wr[] = {0, 1, 2, 4, 5, 8};
    add(fs, "reclaim", 36 * 2, 2, [=](unsigned long long i) { int n = i / 2; return Cfg{2, 2, (int)(i % 2), 1, 40, two(wr[n % 6], wr[n / 6]), false, 3}; }, "the same with reuse of released space on");
    add(fs, "layouts", 49 * 3, 1, [=](unsigned long long i) { static const int hs[] = {1, 4, 2}, bs[] = {24, 40, 200}; int n = i / 3; return Cfg{2, 1, 1, hs[i % 3], bs[i % 3], two(seven[n % 7], seven[n / 7]), false, 0}; }, "other hash table and bin sizes");
    add(fs, "series", 11 * 11 * 4, 1, [=](unsigned long long i) { int n = i / 4; return Cfg{2, i % 2 ? 3 : 0, (int)(i / 2 % 2) * 2, 1, 40, two(11 + n % 11, 11 + n / 11), false, 0}; }, "two processes with one call each that store, delete or read the same regular or irregular series across two records, default / one of each access");
    if (th) {
      add(fs, "one-each-resume", 121 * 9, 2, [=](unsigned long long i) { return Cfg{2, (int)(i % 3), (int)(i / 3 % 3), 1, 40, two(i / 9 % k, i / 9 / k), false, 0, true}; }, "as one-each; waiting processes get the lock at once when it is released");
      add(fs, "three-resume", 343, 1, [=](unsigned long long i) { return Cfg{3, 1, 1, 1, 40, {{seven[i % 7]}, {seven[i / 7 % 7]}, {seven[i / 49]}}, false, 0, true}; }, "three processes with one call each of seven; waiting processes get the lock at once when it is released");
      add(fs, "series-2", 11 * 11 * 4, 2, [=](unsigned long long i) { int n = i / 4; return Cfg{2, i % 2 ? 3 : 0, 1 + (int)(i / 2 % 2), 1, 40, two(11 + n % 11, 11 + n / 11), false, 0}; }, "the same");
      add(fs, "one-each-3", 49 * 3, 3, [=](unsigned long long i) { int n = i / 3; return Cfg{2, 1, (int)(i % 3), 1, 40, two(seven[n % 7], seven[n / 7]), false, 0}; }, "two processes with one call each of seven");
      add(fs, "two-each-all", (uint64_t)k * k * k * k, 1, [=](unsigned long long i) { return Cfg{2, 1, 2, 1, 40, {{(int)(i % k), (int)(i / k % k)}, {(int)(i / k / k % k), (int)(i / k / k / k)}}, false, 0}; }, "two processes with two calls each of eleven");
      add(fs, "two-each-2", 625, 2, [=](unsigned long long i) { static const int five[] = {0, 2, 4, 5, 9}; return Cfg{2, 1, 1, 1, 40, {{five[i % 5], five[i / 5 % 5]}, {five[i / 25 % 5], five[i / 125]}}, false, 0}; }, "two processes with two calls each of five");
      add(fs, "three-2", 64, 2, [=](unsigned long long i) { static const int four[] = {0, 2, 4, 5}; return Cfg{3, 1, 1, 1, 40, {{four[i % 4]}, {four[i / 4 % 4]}, {four[i / 16]}}, false, 0}; }, "three processes with one call each of four");
    }
  };
  return run(argc, argv, c);
}
