// In-memory file system that replaces the operating system underneath the code under test.
// Every path starting with "/mc/" lives here; anything else goes to the real system calls.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace vfs {

enum OpKind { OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_FSYNC, OP_LOCK, OP_UNLOCK, OP_TEST,
              OP_TRUNC, OP_STAT, OP_UNLINK, OP_RENAME, OP_ACCESS, OP_REALPATH, OP_SLEEP };
extern const char* opName[];

struct Op { OpKind kind; int inode; long off; long len; const char* path; int flags; };

// Called before each virtual operation.  Return 0 to let it proceed; a positive errno makes it fail;
// a negative value -k-1 makes a read/write transfer only k bytes (short count).
typedef int (*Hook)(const Op&);
extern Hook hook;
extern uint64_t opCount;              // number of operations that reached the hook

void init(bool shared, int maxInodes = 16, size_t bytesPerInode = (size_t)256 << 20);
void reset();                         // remove every file, fd and lock
extern int pid;                       // simulated process id: owner of locks, value of getpid()
void closeAllFds();                   // what the kernel does when a process dies (fds and locks of `pid`)
int openFdCount();

// virtual clock, milliseconds since 1970
extern long long* nowMs;
extern long long tickPerCall;         // added after every clock read
extern uint64_t sleeps;

// Direct access for oracles
bool exists(const std::string& path);
std::string get(const std::string& path);
void put(const std::string& path, const std::string& bytes);
void del(const std::string& path);
void setReadOnly(const std::string& path, bool ro);
uint64_t contentHash(const std::string& path);
size_t size(const std::string& path);
std::vector<std::string> list();

struct Snapshot { std::vector<std::pair<std::string, std::string>> files; };
Snapshot snapshot();
void restore(const Snapshot&);        // also drops every fd and lock

// Journal of state-changing operations since journalStart()
struct JEntry { OpKind kind; std::string path, path2; long off; std::string data; int flags; };
void journalStart();
std::vector<JEntry> journalStop();
// apply one journal entry (or the first `partial` bytes of a write) to the current files
void applyEntry(const JEntry& e, long partial = -1);

bool lockConflict(int inode, long off, long len, int owner);
int inodeOf(int fd);
bool holds(int owner, long off);        // does this process hold a lock on that byte of any file?
}
