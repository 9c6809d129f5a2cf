// Several processes over one file: real processes (own memory, own simulated process id) share the in-memory file system; a scheduler
// lets exactly one of them run and may switch before every read, write or lock operation. All schedules with at most a given number of
// preemptions are executed (a process that sleeps while waiting for a lock gives way without counting as one, and with
// freeResume neither does going back to it right after the lock was released).
#pragma once
#include "dss.h"
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
namespace sch {
using namespace mc; using namespace dss;
static const int MAXP = 3, MAXOPS = 6, MAXPRE = 5;
struct Result { int status; uint64_t rec; int start, end, n; char names[160]; };
struct Shared { sem_t go[MAXP], back; int nproc, step, naps, npre, preAt[MAXPRE], preTo[MAXPRE]; bool done[MAXP], stuck, waits[MAXP], unlocked; int nops[MAXP]; Result res[MAXP][MAXOPS]; unsigned long long scenario; unsigned char who[8192], alive[8192], freeTo[8192]; };
static Shared* S = nullptr; static int me = -1;
typedef std::function<void(int p, unsigned long long scenario)> Script;   // runs in process p: calls begin()/end() around each operation
static bool counting = false, freeResume = false;
inline void handTo(int q) { if (q == me) return; sem_post(&S->go[q]); while (sem_wait(&S->go[me])) ; }
inline int other() { for (int k = 1; k < S->nproc; k++) { int q = (me + k) % S->nproc; if (!S->done[q]) return q; } return -1; }
inline int onOp(const vfs::Op& o) {
  if (o.kind == vfs::OP_SLEEP) { int q = other(); S->naps++; S->waits[me] = true; if (S->naps > 5000) { S->stuck = true; return 0; } if (q >= 0) handTo(q); S->waits[me] = false; return 0; }
  if (o.kind != vfs::OP_READ && o.kind != vfs::OP_WRITE && o.kind != vfs::OP_LOCK && o.kind != vfs::OP_TEST && o.kind != vfs::OP_UNLOCK) return 0;
  if (!counting) return 0; S->step++; if (S->step < 8192) { S->who[S->step] = me; unsigned char a = 0; for (int p = 0; p < S->nproc; p++) if (!S->done[p]) a |= 1 << p; S->alive[S->step] = a; unsigned char f = 0; if (S->unlocked) for (int p = 0; p < S->nproc; p++) if (p != me && S->waits[p]) f |= 1 << p; S->freeTo[S->step] = f; } S->unlocked = o.kind == vfs::OP_UNLOCK && o.off == 800; for (int k = 0; k < S->npre; k++) if (S->preAt[k] == S->step && !S->done[S->preTo[k]]) handTo(S->preTo[k]); return 0; }
static int opNo = 0;
inline Result& begin() { Result& r = S->res[me][opNo++]; r.start = S->step; r.n = 0; r.rec = 0; S->nops[me] = opNo; return r; }
inline void end(Result& r) { r.end = S->step; }
inline void start(int n, Script script) {   // once per worker, before anything else
  if (S) return; vfs::init(true, 8, (size_t)8 << 20); setup(); S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (auto& g : S->go) sem_init(&g, 1, 0); sem_init(&S->back, 1, 0); S->nproc = n;
  for (int p = 0; p < n; p++) if (fork() == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() == 1) _exit(0); me = p; vfs::pid = 5000 + p; for (;;) { while (sem_wait(&S->go[me])) ; vfs::hook = onOp; opNo = 0; counting = false; script(me, S->scenario); counting = false; vfs::hook = nullptr; vfs::closeAllFds(); S->done[me] = true; int q = other(); if (q >= 0) sem_post(&S->go[q]); else sem_post(&S->back); } } }
inline bool runOnce(int first, const std::vector<std::pair<int, int>>& pre) { S->step = 0; S->naps = 0; S->stuck = false; S->npre = pre.size(); for (size_t k = 0; k < pre.size(); k++) { S->preAt[k] = pre[k].first; S->preTo[k] = pre[k].second; } for (int p = 0; p < S->nproc; p++) { S->done[p] = false; S->nops[p] = 0; S->waits[p] = false; } S->unlocked = false; sem_post(&S->go[first]); while (sem_wait(&S->back)) ; return !S->stuck; }
// all schedules with at most `bound` preemptions; check(trace) looks at S and the files afterwards and returns false to stop
typedef std::function<bool(const std::string&)> After;
inline bool explore(const std::function<void()>& prepare, int bound, After after) {
  std::function<bool(int, std::vector<std::pair<int, int>>&, int)> rec = [&](int first, std::vector<std::pair<int, int>>& pre, int used) { prepare(); runOnce(first, pre); int total = S->step; execution(); std::string t = strf("process %d starts", first); for (auto& x : pre) t += strf(", at step %d process %d", x.first, x.second); if (!after(t)) return false; if ((int)pre.size() >= MAXPRE) return true;
    if (total >= 8192) { fail("schedule-too-long", "more than 8191 steps"); return false; } std::vector<unsigned char> who(S->who, S->who + total + 1), alive(S->alive, S->alive + total + 1), freeTo(S->freeTo, S->freeTo + total + 1);
    for (int s = pre.empty() ? 1 : pre.back().first + 1; s <= total; s++) for (int q = 0; q < S->nproc; q++) if (q != who[s] && (alive[s] >> q & 1)) { int cost = freeResume && (freeTo[s] >> q & 1) ? 0 : 1; if (used + cost > bound) continue; pre.push_back({s, q}); bool ok = rec(first, pre, used + cost); pre.pop_back(); if (!ok) return false; } return true; };
  for (int f = 0; f < S->nproc; f++) { std::vector<std::pair<int, int>> pre; if (!rec(f, pre, 0)) return false; } return true; }
}
