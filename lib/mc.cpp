#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <errno.h>
#include <set>
#include <map>
#include <algorithm>

extern "C" pid_t __real_getpid(void);

namespace mc {
static const int MAXV = 256, MAXCTR = 96, MAXJ = 64;
static const uint64_t HASHN = 1ULL << 25;
struct Viol { int fam; uint64_t idx, chunkStart; char key[160]; char msg[900]; };
struct Ctr { char name[64]; uint64_t n; };
struct Slot { int fam; uint64_t cur, chunkStart, chunkEnd; long long startMs; int active; };
struct Shared {
  volatile int lock; uint64_t next; uint64_t nviol; Viol v[MAXV]; int nctr; Ctr c[MAXCTR];
  uint64_t states, transitions, executions; uint64_t done; uint64_t famDone[256]; Slot slot[MAXJ];
};
static Shared* sh; static uint64_t* table;
static Check chk; static std::vector<Family> fams;
static int curFam = -1; static uint64_t curIdx, curChunk; static bool curFailed; static bool isReplay = false; static bool verb = false;
static std::string traceBuf;
static int myslot = 0;
static void nap(long us) { struct timespec t{0, us * 1000}; nanosleep(&t, nullptr); }
static void lockS() { while (__sync_lock_test_and_set(&sh->lock, 1)) nap(10); }
static void unlockS() { __sync_lock_release(&sh->lock); }
static long long realMs() { struct timespec t; extern int __real_clock_gettime(clockid_t, struct timespec*) asm("__real_clock_gettime"); __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000LL + t.tv_nsec / 1000000; }

uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
uint64_t hashBytes(const void* p, size_t n, uint64_t h) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
std::string strf(const char* fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
uint64_t seqCount(uint64_t k, int a, int b) { uint64_t t = 0; for (int l = a; l <= b; l++) { uint64_t p = 1; for (int i = 0; i < l; i++) p *= k; t += p; } return t; }
std::vector<int> seqDecode(uint64_t idx, uint64_t k, int a, int b) {
  for (int l = a; l <= b; l++) { uint64_t p = 1; for (int i = 0; i < l; i++) p *= k; if (idx < p) { std::vector<int> v(l); for (int i = l - 1; i >= 0; i--) { v[i] = idx % k; idx /= k; } return v; } idx -= p; }
  return {};
}
std::string* capture = nullptr;
void fail(const std::string& key, const char* fmt, ...) {
  char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (capture) { if (capture->empty()) *capture = b; return; }
  if (verb) fprintf(stderr, "FAIL [%s] %s\n", key.c_str(), b);
  bool first = !curFailed; curFailed = true;
  if (!first) return;
  lockS();
  int same = 0; for (uint64_t i = 0; i < sh->nviol && i < MAXV; i++) if (!strcmp(sh->v[i].key, key.c_str())) same++;
  if (sh->nviol < MAXV && same < 4) { Viol& v = sh->v[sh->nviol++]; v.fam = curFam; v.idx = curIdx; v.chunkStart = curChunk; snprintf(v.key, sizeof v.key, "%s", key.c_str()); snprintf(v.msg, sizeof v.msg, "%s", b); }
  unlockS();
}
bool failed() { return curFailed; }
void state(uint64_t h) { if (!h) h = 1; uint64_t i = h & (HASHN - 1); for (int k = 0; k < 64; k++, i = (i + 1) & (HASHN - 1)) { uint64_t o = table[i]; if (o == h) return; if (!o) { if (__sync_bool_compare_and_swap(&table[i], 0, h)) { __sync_fetch_and_add(&sh->states, 1); return; } if (table[i] == h) return; } } }
void transition(uint64_t n) { __sync_fetch_and_add(&sh->transitions, n); }
void execution(uint64_t n) { __sync_fetch_and_add(&sh->executions, n); }
void count(const char* name, uint64_t n) {
  static std::map<const void*, int> cache; auto it = cache.find(name); int k = -1;
  if (it != cache.end() && !strncmp(sh->c[it->second].name, name, 63)) k = it->second;
  if (k < 0) { lockS(); for (int i = 0; i < sh->nctr; i++) if (!strncmp(sh->c[i].name, name, 63)) k = i; if (k < 0 && sh->nctr < MAXCTR) { k = sh->nctr++; snprintf(sh->c[k].name, 64, "%s", name); } unlockS(); if (k < 0) return; cache[name] = k; }
  __sync_fetch_and_add(&sh->c[k].n, n);
}
void trace(const char* fmt, ...) { if (!isReplay) return; char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fprintf(stderr, "  %s\n", b); }
bool replaying() { return isReplay; }
bool verbose() { return verb; }

static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void runOne(int f, uint64_t i, uint64_t chunk) { curFam = f; curIdx = i; curChunk = chunk; curFailed = false; fams[f].run(i); }

// run scenarios [a,b] of family f in a fresh process; returns wait status, or -1 on timeout
static int isolated(int f, uint64_t a, uint64_t b, bool quiet, int secs) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (quiet) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); }
    else dup2(2, 1);
    for (uint64_t i = a; i <= b; i++) runOne(f, i, a);
    _exit(0);
  }
  long long end = realMs() + secs * 1000LL; int st;
  while (true) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) return st; if (realMs() > end) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; } nap(500); }
}

int run(int argc, char** argv, Check c) {
  chk = c; std::string tier = "quick", replay; int jobs = 8; std::string out, dir = "."; std::string only; double budget = 780;
  long nproc = sysconf(_SC_NPROCESSORS_ONLN); if (nproc > 0) jobs = std::min<long>(nproc, MAXJ);
  int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--tier") tier = argv[++i]; else if (a == "--replay") replay = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--dir") dir = argv[++i]; else if (a == "--only") only = argv[++i]; else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--list") only = "\1"; }
  bool thorough = tier == "thorough";
  if (thorough && budget == 780) budget = 3300;
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  table = (uint64_t*)mmap(nullptr, HASHN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  c.build(thorough, fams);
  if (only == "\1") { for (auto& f : fams) printf("%-28s %llu  %s\n", f.name.c_str(), (unsigned long long)f.n, f.rule.c_str()); return 0; }
  if (!replay.empty()) {
    char fn[128]; unsigned long long idx = 0, ch = 0; FILE* fp = fopen(replay.c_str(), "r");
    if (!fp) { fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
    char line[256]; fn[0] = 0; while (fgets(line, sizeof line, fp)) { sscanf(line, "family %127[^\n]", fn); sscanf(line, "index %llu", &idx); sscanf(line, "chunk %llu", &ch); } fclose(fp);
    isReplay = verb = true;
    for (size_t f = 0; f < fams.size(); f++) if (fams[f].name == fn) {
      fprintf(stderr, "replaying %s %s[%llu]: %s\n", chk.id.c_str(), fn, idx, fams[f].describe ? fams[f].describe(idx).c_str() : "");
      int st = isolated(f, idx, idx, false, fams[f].timeoutS * 4);
      bool bad = st != 0 || sh->nviol;
      if (!bad && ch < idx) { st = isolated(f, ch, idx, false, fams[f].timeoutS * 8); bad = st != 0 || sh->nviol; }
      fprintf(stderr, bad ? "reproduced (status %d)\n" : "NOT reproduced\n", st);
      return bad ? 1 : 0; }
    fprintf(stderr, "no such family %s\n", fn); return 2;
  }
  long long t0 = realMs(); bool complete = true;
  std::vector<uint64_t> famStart(fams.size(), 0);
  for (size_t f = 0; f < fams.size(); f++) {
    if (!only.empty() && fams[f].name.find(only) == std::string::npos) continue;
    Family& F = fams[f]; sh->next = 0; long long tf = realMs();
    std::vector<pid_t> kids(jobs, 0); fflush(stdout); fflush(stderr);
    auto launch = [&](int j) {
      Slot& s = sh->slot[j]; s.active = 0;
      uint64_t a = __sync_fetch_and_add(&sh->next, F.chunk); if (a >= F.n) return (pid_t)0;
      if ((realMs() - t0) / 1000.0 > budget || sh->nviol >= MAXV) { complete = false; return (pid_t)0; }
      uint64_t b = std::min(F.n, a + F.chunk);
      s.fam = f; s.cur = a; s.chunkStart = a; s.chunkEnd = b; s.startMs = realMs(); s.active = 1;
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); myslot = j;
        int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2);
        for (uint64_t i = a; i < b; i++) { s.cur = i; s.startMs = realMs(); runOne(f, i, a); __sync_fetch_and_add(&sh->famDone[f], 1); }
        _exit(0);
      }
      return p; };
    auto crashed = [&](int j, const std::string& why) {
      Slot& s = sh->slot[j]; uint64_t i = s.cur, cs = s.chunkStart, ce = s.chunkEnd;
      // confirm in a fresh process: alone, then with the scenarios that ran before it in the same process
      uint64_t before = sh->nviol;
      int st = isolated(f, i, i, true, F.timeoutS * 4); bool rep = st != 0; 
      if (!rep && cs < i) { st = isolated(f, cs, i, true, F.timeoutS * 8); rep = st != 0; }
      if (rep && sh->nviol == before) { curFam = f; curIdx = i; curChunk = cs; curFailed = false; std::string d = F.describe ? F.describe(i) : ""; fail(strf("%s/%s:%s", F.name.c_str(), why.substr(0, 5) == "timeo" ? "hang" : "crash", d.substr(0, 110).c_str()), "%s in scenario: %s", why.c_str(), d.c_str()); }
      // continue with the rest of the chunk
      for (uint64_t k = i + 1; k < ce; ) { int q = isolated(f, k, k, true, F.timeoutS); (void)q; if (q != 0) { curFam = f; curIdx = k; curChunk = k; curFailed = false; std::string d = F.describe ? F.describe(k) : ""; fail(strf("%s/crash:%s", F.name.c_str(), d.substr(0, 110).c_str()), "crash or hang (status %d) in scenario: %s", q, d.c_str()); if (sh->nviol > 40) break; } __sync_fetch_and_add(&sh->famDone[f], 1); k++; }
      __sync_fetch_and_add(&sh->famDone[f], 1); };
    for (int j = 0; j < jobs; j++) kids[j] = launch(j);
    while (true) {
      bool any = false;
      int st; pid_t p;
      while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
        for (int j = 0; j < jobs; j++) if (kids[j] == p) { kids[j] = 0; if (st != 0) crashed(j, WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exited with status %d", WEXITSTATUS(st))); kids[j] = launch(j); }
      }
      for (int j = 0; j < jobs; j++) if (kids[j]) { any = true; if (realMs() - sh->slot[j].startMs > F.timeoutS * 1000LL) { pid_t q = kids[j]; kill(q, SIGKILL); waitpid(q, &st, 0); kids[j] = 0; crashed(j, "timeout"); kids[j] = launch(j); } }
      if (!any) break;
      nap(300);
    }
    if (sh->famDone[f] < F.n) complete = false;
    printf("%s: family %-26s %10llu/%llu scenarios  %.1fs  states=%llu transitions=%llu\n", chk.id.c_str(), F.name.c_str(), (unsigned long long)sh->famDone[f], (unsigned long long)F.n, (realMs() - tf) / 1000.0, (unsigned long long)sh->states, (unsigned long long)sh->transitions); fflush(stdout);
  }
  // known findings: lines  "property=<id> key=<key>  free text"
  std::set<std::string> known;
  { FILE* fp = fopen((dir + "/known-findings.txt").c_str(), "r"); char line[1024]; if (fp) { while (fgets(line, sizeof line, fp)) { if (line[0] == '#' || !strncmp(line, "fixed:", 6)) continue; std::string s = line; std::string pk = "property=" + chk.id + " key="; size_t a = s.find(pk); if (a == std::string::npos) continue; std::string k = s.substr(a + pk.size()); size_t e = k.find(" ::"); if (e == std::string::npos) e = k.find('\n'); known.insert(k.substr(0, e)); } fclose(fp); } }
  std::string rd = dir + "/replays"; mkdir(rd.c_str(), 0777);
  int nv = 0; std::set<std::string> kprinted;
  uint64_t total = sh->nviol;
  for (uint64_t i = 0; i < total && i < MAXV; i++) { Viol& v = sh->v[i]; std::string key = v.key;
    if (known.count(key)) { if (kprinted.insert(key).second) printf("KNOWN-FINDING: property=%s %s: %s\n", chk.id.c_str(), key.c_str(), v.msg); continue; }
    nv++; if (nv > (getenv("MC_SHOW") ? atoi(getenv("MC_SHOW")) : 10)) continue;
    std::string rf = strf("%s/%s-%d.replay", rd.c_str(), chk.id.c_str(), nv); FILE* fp = fopen(rf.c_str(), "w");
    if (fp) { fprintf(fp, "property %s\nfamily %s\nindex %llu\nchunk %llu\nkey %s\nscenario %s\nmessage %s\n", chk.id.c_str(), fams[v.fam].name.c_str(), (unsigned long long)v.idx, (unsigned long long)v.chunkStart, v.key, fams[v.fam].describe ? fams[v.fam].describe(v.idx).c_str() : "", v.msg); fclose(fp); }
    printf("VIOLATION property=%s replay=%s\n  key: %s\n  %s\n", chk.id.c_str(), rf.c_str(), v.key, v.msg);
  }
  double wall = (realMs() - t0) / 1000.0;
  // evidence
  std::string ev = dir + "/evidence"; mkdir(ev.c_str(), 0777); std::string ef = ev + "/" + chk.id + ".json";
  uint64_t exTot = 0; for (size_t f = 0; f < fams.size(); f++) exTot += sh->famDone[f];
  uint64_t execs = sh->executions ? sh->executions : exTot;
  FILE* fp = fopen(ef.c_str(), "w");
  if (fp) {
    fprintf(fp, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"%s\",\n \"coverage\": {\n", chk.id.c_str(), tier.c_str(), seed, chk.level.c_str());
    fprintf(fp, "  \"exhaustive\": %s,\n", complete && only.empty() ? "true" : "false");
    std::string rule; for (auto& F : fams) rule += (rule.empty() ? "" : " | ") + F.name + ": " + F.rule;
    if (chk.level == "model_checking") fprintf(fp, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", (unsigned long long)sh->states, (unsigned long long)sh->transitions, (unsigned long long)execs);
    else fprintf(fp, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)execs, (unsigned long long)sh->states);
    fprintf(fp, "  \"rule\": \"%s\",\n", jesc(rule).c_str());
    fprintf(fp, "  \"families\": {"); for (size_t f = 0; f < fams.size(); f++) fprintf(fp, "%s\"%s\": {\"scenarios\": %llu, \"completed\": %llu}", f ? ", " : "", jesc(fams[f].name).c_str(), (unsigned long long)fams[f].n, (unsigned long long)sh->famDone[f]); fprintf(fp, "},\n");
    fprintf(fp, "  \"counters\": {"); for (int i = 0; i < sh->nctr; i++) fprintf(fp, "%s\"%s\": %llu", i ? ", " : "", jesc(sh->c[i].name).c_str(), (unsigned long long)sh->c[i].n); fprintf(fp, "},\n");
    fprintf(fp, "  \"samples\": ["); int ns = 0; for (size_t f = 0; f < fams.size(); f++) for (uint64_t k : {(uint64_t)0, fams[f].n / 3, fams[f].n - 1}) { if (!fams[f].describe || k >= fams[f].n || ns >= 24) continue; fprintf(fp, "%s\"%s[%llu]: %s\"", ns ? ", " : "", jesc(fams[f].name).c_str(), (unsigned long long)k, jesc(fams[f].describe(k)).c_str()); ns++; } if (!ns) fprintf(fp, "\"see rule\""); fprintf(fp, "]\n },\n");
    fprintf(fp, " \"assumptions\": ["); for (size_t i = 0; i < chk.assumptions.size(); i++) fprintf(fp, "%s\"%s\"", i ? ", " : "", jesc(chk.assumptions[i]).c_str()); fprintf(fp, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, nv);
    fclose(fp);
  }
  printf("%s: %s tier, %llu scenarios, %llu executions, %llu distinct states, %llu transitions, exhaustive=%s, %.1fs, violations=%d known=%d\n", chk.id.c_str(), tier.c_str(), (unsigned long long)exTot, (unsigned long long)execs, (unsigned long long)sh->states, (unsigned long long)sh->transitions, complete ? "yes" : "no", wall, nv, (int)kprinted.size());
  return nv ? 1 : 0;
}
}
