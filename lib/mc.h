// Exhaustive-enumeration engine: a check is a list of finite scenario families; every index of every
// family is executed on the real code, in forked workers, and any deviation is reported with a replay.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <memory>

namespace mc {
struct Family {
  std::string name;          // stable name (part of the replay key)
  std::string rule;          // what is enumerated and the bound, for the evidence file
  uint64_t n;                // number of scenarios
  std::function<void(uint64_t)> run;         // runs one scenario on the implementation
  std::function<std::string(uint64_t)> describe;   // human-readable scenario
  uint64_t chunk = 64;       // scenarios per forked worker process
  int timeoutS = 60;         // per scenario; a hang is a violation
};
struct Check {
  std::string id;
  std::string level;         // model_checking | fault_enumeration | exploration ...
  std::vector<std::string> assumptions;
  std::function<void(bool thorough, std::vector<Family>&)> build;
};
int run(int argc, char** argv, Check c);

// Called from scenarios -------------------------------------------------
// Report that the property fails in the current scenario. `key` identifies the failing input/call site/history
// (stable across runs) and is what the known-findings file matches.  Returns normally.
extern std::string* capture;           // if set, fail() only puts its message there
void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool failed();                          // has the current scenario already failed
void state(uint64_t hash);              // a state was reached (counts distinct ones)
void transition(uint64_t n = 1);        // an operation / step was executed
void count(const char* name, uint64_t n = 1);   // named coverage counter (what the exploration really exercised)
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // step log of the scenario, kept for replay output
void execution(uint64_t n = 1);         // one complete schedule/history/fault run on the implementation
bool replaying();
bool verbose();

uint64_t mix(uint64_t h, uint64_t v);
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
// decode helper: take the next digit of a mixed-radix index
inline uint64_t digit(uint64_t& x, uint64_t radix) { uint64_t d = x % radix; x /= radix; return d; }
// sequences of length 0..d over an alphabet of k: total count and decoding (length first)
uint64_t seqCount(uint64_t k, int minLen, int maxLen);
std::vector<int> seqDecode(uint64_t idx, uint64_t k, int minLen, int maxLen);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}
