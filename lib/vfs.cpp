#include "vfs.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <time.h>

namespace vfs {
const char* opName[] = {"open","read","write","seek","close","fsync","lock","unlock","test","truncate","stat","unlink","rename","access","realpath","sleep"};
Hook hook = nullptr;
uint64_t opCount = 0;
int pid = 4242;
long long tickPerCall = 0;
uint64_t sleeps = 0;

static const int MAXNAMES = 64, MAXFD = 128, FDBASE = 2000, MAXLOCK = 256;
struct Inode { bool used; bool readOnly; int links; int opens; size_t size; };
struct Name { bool used; char name[240]; int inode; };
struct Lock { bool used; int inode; long start, len; int owner; };
struct Fs { int maxInodes; size_t cap; Inode ino[64]; Name names[MAXNAMES]; Lock locks[MAXLOCK]; long long now; };
static Fs* fs = nullptr;
static char* store = nullptr;
long long* nowMs = nullptr;
struct Fd { bool used; int inode; long off; int flags; };
static Fd fds[MAXFD];
static bool journaling = false;
static std::vector<JEntry> journal;

static char* dat(int i) { return store + (size_t)i * fs->cap; }

void init(bool shared, int maxInodes, size_t cap) {
  if (fs) return;
  int fl = (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE;
  fs = (Fs*)mmap(nullptr, sizeof(Fs), PROT_READ | PROT_WRITE, fl, -1, 0);
  store = (char*)mmap(nullptr, cap * maxInodes, PROT_READ | PROT_WRITE, fl, -1, 0);
  if (fs == MAP_FAILED || store == MAP_FAILED) { perror("mmap"); _exit(97); }
  fs->maxInodes = maxInodes; fs->cap = cap; fs->now = 1700000000000LL;
  nowMs = &fs->now;
}
static void wipe(int i) { if (fs->ino[i].size) memset(dat(i), 0, fs->ino[i].size); fs->ino[i].size = 0; }
void reset() {
  for (int i = 0; i < fs->maxInodes; i++) { wipe(i); fs->ino[i] = Inode(); }
  memset(fs->names, 0, sizeof fs->names); memset(fs->locks, 0, sizeof fs->locks);
  memset(fds, 0, sizeof fds); fs->now = 1700000000000LL; tickPerCall = 0; opCount = 0; sleeps = 0;
  journaling = false; journal.clear(); hook = nullptr;
}
static int findName(const char* p) { for (int i = 0; i < MAXNAMES; i++) if (fs->names[i].used && !strcmp(fs->names[i].name, p)) return i; return -1; }
static int newInode() { for (int i = 0; i < fs->maxInodes; i++) if (!fs->ino[i].used) { fs->ino[i] = Inode(); fs->ino[i].used = true; return i; } fprintf(stderr, "vfs: out of inodes\n"); _exit(98); }
static void maybeFree(int i) { if (fs->ino[i].links <= 0 && fs->ino[i].opens <= 0) { wipe(i); fs->ino[i].used = false; } }
static int addName(const char* p, int ino) { for (int i = 0; i < MAXNAMES; i++) if (!fs->names[i].used) { fs->names[i].used = true; snprintf(fs->names[i].name, sizeof fs->names[i].name, "%s", p); fs->names[i].inode = ino; fs->ino[ino].links++; return i; } fprintf(stderr, "vfs: out of names\n"); _exit(98); }
static std::string pathOf(int ino) { for (int i = 0; i < MAXNAMES; i++) if (fs->names[i].used && fs->names[i].inode == ino) return fs->names[i].name; return ""; }
static void grow(int i, size_t n) { if (n > fs->cap) { fprintf(stderr, "vfs: file too big\n"); _exit(98); } if (n > fs->ino[i].size) fs->ino[i].size = n; }

bool exists(const std::string& p) { return findName(p.c_str()) >= 0; }
std::string get(const std::string& p) { int n = findName(p.c_str()); if (n < 0) return ""; int i = fs->names[n].inode; return std::string(dat(i), fs->ino[i].size); }
size_t size(const std::string& p) { int n = findName(p.c_str()); return n < 0 ? 0 : fs->ino[fs->names[n].inode].size; }
void put(const std::string& p, const std::string& b) { int n = findName(p.c_str()); int i; if (n < 0) { i = newInode(); addName(p.c_str(), i); } else i = fs->names[n].inode; wipe(i); grow(i, b.size()); memcpy(dat(i), b.data(), b.size()); }
void del(const std::string& p) { int n = findName(p.c_str()); if (n < 0) return; int i = fs->names[n].inode; fs->names[n].used = false; fs->ino[i].links--; maybeFree(i); }
void setReadOnly(const std::string& p, bool ro) { int n = findName(p.c_str()); if (n >= 0) fs->ino[fs->names[n].inode].readOnly = ro; }
uint64_t contentHash(const std::string& p) { int n = findName(p.c_str()); if (n < 0) return 0; int i = fs->names[n].inode; const char* d = dat(i); uint64_t h = 1469598103934665603ULL; size_t w = fs->ino[i].size / 8; const uint64_t* q = (const uint64_t*)d; for (size_t k = 0; k < w; k++) { h ^= q[k]; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } return h; }
std::vector<std::string> list() { std::vector<std::string> v; for (int i = 0; i < MAXNAMES; i++) if (fs->names[i].used) v.push_back(fs->names[i].name); return v; }
Snapshot snapshot() { Snapshot s; for (auto& n : list()) s.files.push_back({n, get(n)}); return s; }
void restore(const Snapshot& s) {
  long long t = fs->now, tp = tickPerCall; Hook h = hook; uint64_t oc = opCount;
  reset(); fs->now = t; tickPerCall = tp; hook = h; opCount = oc;
  for (auto& f : s.files) put(f.first, f.second);
}
void journalStart() { journaling = true; journal.clear(); }
std::vector<JEntry> journalStop() { journaling = false; std::vector<JEntry> j; j.swap(journal); return j; }
void applyEntry(const JEntry& e, long partial) {
  switch (e.kind) {
  case OP_OPEN: if (!exists(e.path)) put(e.path, ""); break;
  case OP_WRITE: { int n = findName(e.path.c_str()); if (n < 0) return; int i = fs->names[n].inode; size_t len = partial < 0 ? e.data.size() : (size_t)partial; grow(i, e.off + len); memcpy(dat(i) + e.off, e.data.data(), len); break; }
  case OP_TRUNC: { int n = findName(e.path.c_str()); if (n < 0) return; int i = fs->names[n].inode; if ((size_t)e.off < fs->ino[i].size) { memset(dat(i) + e.off, 0, fs->ino[i].size - e.off); fs->ino[i].size = e.off; } else grow(i, e.off); break; }
  case OP_UNLINK: del(e.path); break;
  case OP_RENAME: { int n = findName(e.path.c_str()); if (n < 0) return; if (exists(e.path2) && e.path2 != e.path) del(e.path2); snprintf(fs->names[n].name, sizeof fs->names[n].name, "%s", e.path2.c_str()); break; }
  default: break;
  }
}
bool lockConflict(int inode, long off, long len, int owner) {
  for (int k = 0; k < MAXLOCK; k++) { Lock& l = fs->locks[k]; if (!l.used || l.inode != inode || l.owner == owner) continue;
    long e1 = len == 0 ? 0x7fffffffffffL : off + len, e2 = l.len == 0 ? 0x7fffffffffffL : l.start + l.len;
    if (off < e2 && l.start < e1) return true; }
  return false;
}
bool holds(int owner, long off) { for (int k = 0; k < MAXLOCK; k++) { Lock& l = fs->locks[k]; if (l.used && l.owner == owner && l.start <= off && (l.len == 0 || off < l.start + l.len)) return true; } return false; }
static void addLock(int inode, long off, long len, int owner);
static void removeLock(int inode, long off, long len, int owner) {
  long e1 = len == 0 ? 0x7fffffffffffL : off + len;
  for (int k = 0; k < MAXLOCK; k++) { Lock& l = fs->locks[k]; if (!l.used || l.inode != inode || l.owner != owner) continue;
    long e2 = l.len == 0 ? 0x7fffffffffffL : l.start + l.len;
    if (!(off < e2 && l.start < e1)) continue;
    long s = l.start; l.used = false;
    if (s < off) addLock(inode, s, off - s, owner);
    if (e1 < e2) addLock(inode, e1, e2 == 0x7fffffffffffL ? 0 : e2 - e1, owner); }
}
static void addLock(int inode, long off, long len, int owner) {
  for (int k = 0; k < MAXLOCK; k++) if (!fs->locks[k].used) { fs->locks[k] = Lock{true, inode, off, len, owner}; return; }
  fprintf(stderr, "vfs: out of locks\n"); _exit(98);
}
static void dropLocks(int inode, int owner) { for (int k = 0; k < MAXLOCK; k++) if (fs->locks[k].used && fs->locks[k].inode == inode && fs->locks[k].owner == owner) fs->locks[k].used = false; }
void closeAllFds() { for (int i = 0; i < MAXFD; i++) if (fds[i].used) { fds[i].used = false; int n = fds[i].inode; dropLocks(n, pid); fs->ino[n].opens--; maybeFree(n); } }
int openFdCount() { int c = 0; for (int i = 0; i < MAXFD; i++) c += fds[i].used; return c; }
int inodeOf(int fd) { return (fd >= FDBASE && fd < FDBASE + MAXFD && fds[fd - FDBASE].used) ? fds[fd - FDBASE].inode : -1; }
static bool isV(const char* p) {
  if (!p) return false; if (!strncmp(p, "/mc/", 4)) return true;
  size_t n = strlen(p); return !strncmp(p, "/tmp/", 5) && n > 8 && !strcmp(p + n - 8, "_squ.dss");   // the temporary file of an in-place squeeze
}
static bool isF(int fd) { return fd >= FDBASE && fd < FDBASE + MAXFD; }
static int pre(OpKind k, int ino, long off, long len, const char* path = nullptr, int flags = 0) {
  opCount++;
  if (!hook) return 0;
  Op o{k, ino, off, len, path, flags};
  return hook(o);
}
}
using namespace vfs;

extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
off_t __real_lseek(int, off_t, int); int __real_fsync(int); int __real_lockf(int, int, off_t); int __real_ftruncate(int, off_t);
int __real_stat(const char*, struct stat*); int __real_fstat(int, struct stat*); int __real_unlink(const char*); int __real_remove(const char*); int __real_rename(const char*, const char*);
int __real_access(const char*, int); char* __real_realpath(const char*, char*); int __real_usleep(useconds_t); int __real_clock_gettime(clockid_t, struct timespec*);
pid_t __real_getpid(void); ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_pwrite(int, const void*, size_t, off_t); int __real_fdatasync(int);

int __wrap_open(const char* p, int flags, ...) {
  mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  if (!isV(p)) return __real_open(p, flags, mode);
  int r = pre(OP_OPEN, -1, 0, 0, p, flags); if (r > 0) { errno = r; return -1; }
  int n = findName(p), ino;
  if (n < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    ino = newInode(); addName(p, ino);
    if (journaling) journal.push_back({OP_OPEN, p, "", 0, "", flags});
  } else {
    ino = fs->names[n].inode;
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if ((flags & O_ACCMODE) != O_RDONLY && fs->ino[ino].readOnly) { errno = EACCES; return -1; }
    if (flags & O_TRUNC) { wipe(ino); if (journaling) journal.push_back({OP_TRUNC, p, "", 0, "", 0}); }
  }
  for (int i = 0; i < MAXFD; i++) if (!fds[i].used) { fds[i] = Fd{true, ino, 0, flags}; fs->ino[ino].opens++; return FDBASE + i; }
  errno = EMFILE; return -1;
}
int __wrap_close(int fd) {
  if (!isF(fd)) return __real_close(fd);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  int r = pre(OP_CLOSE, f.inode, 0, 0);
  f.used = false; dropLocks(f.inode, pid); fs->ino[f.inode].opens--; maybeFree(f.inode);
  if (r > 0) { errno = r; return -1; }
  return 0;
}
static ssize_t vread(Fd& f, void* b, size_t n, long off) {
  int r = pre(OP_READ, f.inode, off, n); if (r > 0) { errno = r; return -1; }
  if ((f.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  size_t sz = fs->ino[f.inode].size; size_t av = (size_t)off < sz ? sz - off : 0; if (av > n) av = n;
  if (r < 0 && av > (size_t)(-r - 1)) av = (size_t)(-r - 1);
  memcpy(b, dat(f.inode) + off, av); return av;
}
static ssize_t vwrite(Fd& f, const void* b, size_t n, long off) {
  int r = pre(OP_WRITE, f.inode, off, n); if (r > 0) { errno = r; return -1; }
  if ((f.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (r < 0 && n > (size_t)(-r - 1)) n = (size_t)(-r - 1);
  if (off < 0 || n > (size_t)1 << 40) { errno = EINVAL; return -1; }
  grow(f.inode, off + n); memcpy(dat(f.inode) + off, b, n);
  if (journaling) journal.push_back({OP_WRITE, pathOf(f.inode), "", off, std::string((const char*)b, n), 0});
  return n;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (!isF(fd)) return __real_read(fd, b, n);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  ssize_t k = vread(f, b, n, f.off); if (k > 0) f.off += k; return k;
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
  if (!isF(fd)) return __real_pread(fd, b, n, o);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  return vread(f, b, n, o);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (!isF(fd)) return __real_write(fd, b, n);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  if (f.flags & O_APPEND) f.off = fs->ino[f.inode].size;
  ssize_t k = vwrite(f, b, n, f.off); if (k > 0) f.off += k; return k;
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!isF(fd)) return __real_pwrite(fd, b, n, o);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  return vwrite(f, b, n, o);
}
off_t __wrap_lseek(int fd, off_t o, int wh) {
  if (!isF(fd)) return __real_lseek(fd, o, wh);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  int r = pre(OP_SEEK, f.inode, o, 0); if (r > 0) { errno = r; return -1; }
  long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f.off : (long)fs->ino[f.inode].size;
  if (base + o < 0) { errno = EINVAL; return -1; }
  f.off = base + o; return f.off;
}
int __wrap_fsync(int fd) {
  if (!isF(fd)) return __real_fsync(fd);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  int r = pre(OP_FSYNC, f.inode, 0, 0); if (r > 0) { errno = r; return -1; }
  if (journaling) journal.push_back({OP_FSYNC, pathOf(f.inode), "", 0, "", 0});
  return 0;
}
int __wrap_fdatasync(int fd) { if (!isF(fd)) return __real_fdatasync(fd); return __wrap_fsync(fd); }
int __wrap_lockf(int fd, int cmd, off_t len) {
  if (!isF(fd)) return __real_lockf(fd, cmd, len);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  OpKind k = cmd == F_ULOCK ? OP_UNLOCK : cmd == F_TEST ? OP_TEST : OP_LOCK;
  int r = pre(k, f.inode, f.off, len, nullptr, cmd); if (r > 0) { errno = r; return -1; }
  if (cmd == F_ULOCK) { removeLock(f.inode, f.off, len, pid); return 0; }
  bool c = lockConflict(f.inode, f.off, len, pid);
  if (cmd == F_TEST) { if (c) { errno = EACCES; return -1; } return 0; }
  if (c) { errno = cmd == F_LOCK ? EDEADLK : EAGAIN; return -1; }   // a blocking F_LOCK only gets here once the scheduler saw it free
  if ((f.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }   // lockf needs write access
  removeLock(f.inode, f.off, len, pid); addLock(f.inode, f.off, len, pid); return 0;
}
int __wrap_ftruncate(int fd, off_t n) {
  if (!isF(fd)) return __real_ftruncate(fd, n);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  int r = pre(OP_TRUNC, f.inode, n, 0); if (r > 0) { errno = r; return -1; }
  if ((size_t)n < fs->ino[f.inode].size) { memset(dat(f.inode) + n, 0, fs->ino[f.inode].size - n); fs->ino[f.inode].size = n; } else grow(f.inode, n);
  if (journaling) journal.push_back({OP_TRUNC, pathOf(f.inode), "", n, "", 0});
  return 0;
}
static void fillStat(int ino, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | (fs->ino[ino].readOnly ? 0444 : 0666); s->st_size = fs->ino[ino].size; s->st_ino = ino + 1; s->st_nlink = 1; }
int __wrap_stat(const char* p, struct stat* s) {
  if (!isV(p)) return __real_stat(p, s);
  int n = findName(p); int r = pre(OP_STAT, n < 0 ? -1 : fs->names[n].inode, 0, 0, p); if (r > 0) { errno = r; return -1; }
  n = findName(p); if (n < 0) { errno = ENOENT; return -1; } fillStat(fs->names[n].inode, s); return 0;
}
int __wrap_fstat(int fd, struct stat* s) {
  if (!isF(fd)) return __real_fstat(fd, s);
  Fd& f = fds[fd - FDBASE]; if (!f.used) { errno = EBADF; return -1; }
  int r = pre(OP_STAT, f.inode, 0, 0); if (r > 0) { errno = r; return -1; }
  fillStat(f.inode, s); return 0;
}
static int vunlink(const char* p) {
  int n = findName(p); int r = pre(OP_UNLINK, n < 0 ? -1 : fs->names[n].inode, 0, 0, p); if (r > 0) { errno = r; return -1; }
  if (n < 0) { errno = ENOENT; return -1; } if (journaling) journal.push_back({OP_UNLINK, p, "", 0, "", 0}); del(p); return 0;
}
int __wrap_unlink(const char* p) { return isV(p) ? vunlink(p) : __real_unlink(p); }
int __wrap_remove(const char* p) { return isV(p) ? vunlink(p) : __real_remove(p); }
int __wrap_rename(const char* a, const char* b) {
  if (!isV(a) && !isV(b)) return __real_rename(a, b);
  int n = findName(a); int r = pre(OP_RENAME, n < 0 ? -1 : fs->names[n].inode, 0, 0, b); if (r > 0) { errno = r; return -1; }
  n = findName(a); if (n < 0) { errno = ENOENT; return -1; }
  if (journaling) journal.push_back({OP_RENAME, a, b, 0, "", 0});
  if (strcmp(a, b)) { del(b); n = findName(a); snprintf(fs->names[n].name, sizeof fs->names[n].name, "%s", b); }
  return 0;
}
int __wrap_access(const char* p, int m) {
  if (!isV(p)) return __real_access(p, m);
  int r = pre(OP_ACCESS, -1, 0, 0, p); if (r > 0) { errno = r; return -1; }
  int n = findName(p); if (n < 0) { errno = ENOENT; return -1; }
  if ((m & W_OK) && fs->ino[fs->names[n].inode].readOnly) { errno = EACCES; return -1; } return 0;
}
char* __wrap_realpath(const char* p, char* out) {
  if (!isV(p)) return __real_realpath(p, out);
  if (findName(p) < 0) { errno = ENOENT; return nullptr; }
  if (out) { strcpy(out, p); return out; } return strdup(p);
}
int __wrap_usleep(useconds_t us) { sleeps++; *nowMs += us / 1000; pre(OP_SLEEP, -1, 0, us); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  if (!fs) return __real_clock_gettime(c, t);
  t->tv_sec = *nowMs / 1000; t->tv_nsec = (*nowMs % 1000) * 1000000; *nowMs += tickPerCall; return 0;
}
pid_t __wrap_getpid(void) { return fs ? vfs::pid : __real_getpid(); }
}
