// Thin helpers over the public API of the code under test, and an independent reader of the on-disk structure.
#pragma once
#include "mc.h"
#include "vfs.h"
extern "C" {
#include "heclib.h"
#include "hecdss.h"
#include "hecdssInternal.h"
#include "zStructTransfer.h"
#include "zdssKeys.h"
#include "zdssVals.h"
}
#undef min
#undef max
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <string.h>
#include <stdlib.h>
#include <math.h>

namespace dss {
void setup();                       // vfs + message muting; call once per process (idempotent)
void freshWorld();                  // empty file system, library global state re-muted

struct Rec {                        // what a record logically contains
  int type = 90;
  std::vector<int> ih, h2, uh, v1, v2, v3;
  int numberValues = 0, logical = 0;
  bool operator==(const Rec& o) const;
  bool operator!=(const Rec& o) const { return !(*this == o); }
  uint64_t hash() const;
  std::string str() const;
};
// deterministic record: sizes in 4-byte words, contents derived from seed
Rec makeRec(int type, int nih, int nh2, int nuh, int n1, int n2, int n3, int seed);

struct File {
  long long ifltab[250]; bool isOpen = false; int status = -1; std::string path;
  File() { memset(ifltab, 0, sizeof ifltab); }
  ~File() { if (isOpen) close(); }
  int open(const std::string& p, int access = 0, int hash = 1, int bin = 40);
  int close();
  void abandon() { isOpen = false; }    // simulate a process that died: no close
  int write(const std::string& path, const Rec& r, int allocated = 0, int expanded = 0);
  int read(const std::string& path, Rec& r);
  std::vector<std::string> catalog(const std::string& pattern = "", int status = 0, int sorted = 1, int* rc = nullptr);
};
extern const char* const PATHS[8];

struct Extent { long long a, n; std::string what; };
struct Walk {
  std::vector<std::string> errors;
  long long records = 0, aliases = 0, fileSize = 0;
  struct Entry { std::string path; int status; int type; long long info; long long hash; };
  std::vector<Entry> entries;
  std::vector<Extent> extents, freeList;
};
// independent structural reading of a file image; checks containment, non-overlap, chains, counts
Walk walk(const std::string& bytes, bool checkFree = true, bool checkCounts = true);
std::string upper(std::string s);
bool isErr(int st);                  // error, as opposed to OK / not found
}
