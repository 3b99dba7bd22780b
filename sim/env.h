// Seams of the simulated world: PRNG, clock, file system faults, crash points,
// process starts. Everything here is decided by the simulator alone.
#pragma once
#include <setjmp.h>
#include <stdint.h>

#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// ---- the file system seam -------------------------------------------------
enum FaultClass { FC_OPEN, FC_STAT, FC_MMAP, FC_READ, FC_WRITE, FC_MKDIR, FC_RENAME, FC_SYNC, FC_TRUNC, FC_N };
extern const char* const kFaultName[FC_N];

struct FaultPlan {
  bool active = false;
  int cls = -1;        // FC_*; -1: none
  int at = 0;          // first failing call of that class in this operation (1-based)
  int count = 1;       // how many consecutive calls fail
  int err = 5;         // errno
  int shortLen = -1;   // FC_WRITE / FC_READ: >=0: the first failing call transfers that many bytes, the others fail
  int crashAt = 0;     // crash just before the n-th product system call (1-based), 0: never
  int editAt = 0;      // another program edits a file just before the n-th product system call, 0: never
  int editFile = -1;   // F_*
  std::string editMode, editData;
};

struct Env {
  std::string root;              // scratch directory of this run
  bool inProduct = false;        // calls come from the product / fcitx
  int64_t clockNs = 0;           // simulated wall clock
  int64_t monoNs = 1000000000;   // simulated monotonic clock
  int64_t mtimeSeq = 0;          // makes every modification time unique
  FaultPlan plan;
  int seen[FC_N] = {0};          // calls of each class in this operation
  int calls = 0;                 // product system calls in this operation
  int firedInOp = 0;             // faults that fired in this operation
  bool edited = false;           // the edit of this operation's plan has happened
  std::function<void()> onEdit;
  int firedCls[FC_N] = {0};      // the same, by class
  bool crashed = false;
  sigjmp_buf crashJmp;
  bool crashArmed = false;
  std::vector<std::vector<std::string>> starts;   // process starts recorded in this operation
  std::vector<std::string> startDirs;
  bool startFails = false;
  // counters for the evidence
  uint64_t fired[FC_N] = {0};
  uint64_t shorts = 0, crashes = 0, productCalls = 0;
  bool forbidden = false;        // product tried to fork/exec/unlink outside the seam
  std::string forbiddenWhat;
};
extern Env env;

void opBegin(const FaultPlan& p);   // resets the per-operation counters
void opEnd();
int64_t nextMtimeNs();
void stampFd(int fd);
void stampPath(const std::string& p, int64_t ns);
int64_t mtimeOf(const std::string& p);
int heldFiles();                    // files of the world that are open or mapped

// helpers for the simulator's own (fault free) file access
bool readAll(const std::string& p, std::string* out);
bool writeAll(const std::string& p, const std::string& data, bool append = false);  // in place
bool exists(const std::string& p);
bool isDir(const std::string& p);
void mkdirs(const std::string& p);
void rmrf(const std::string& p);    // only below env.root

struct InProduct {
  bool old;
  InProduct() : old(env.inProduct) { env.inProduct = true; }
  ~InProduct() { env.inProduct = old; }
};
struct OutOfProduct {
  bool old;
  OutOfProduct() : old(env.inProduct) { env.inProduct = false; }
  ~OutOfProduct() { env.inProduct = old; }
};

}  // namespace sim
