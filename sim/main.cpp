// Runs seeds in parallel child processes, one simulated execution per process,
// and turns the first violation into a minimised replay file.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>

#include <fcitx-utils/standardpath.h>

#include "gen.h"
#include "world.h"

using namespace sim;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:symbolize=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:handle_segv=1:handle_abort=1:allocator_may_return_null=0:max_allocation_size_mb=2000"; }

namespace {
constexpr size_t kTrace = 4u << 20, kBits = 1u << 23;
struct Slot {
  int done, failed;
  char kind[32];
  char text[6000];
  Stats st;
  uint64_t fired[FC_N], shorts, crashes, calls;
  uint64_t hash, nstates;
  uint64_t simStart, simEnd;
  size_t traceLen, traceOps;
  char trace[kTrace];
};
Slot* slots;
unsigned char* bits;
std::string scratch;

double nowS() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
std::string rootOf(int s) { return scratch + "/r" + std::to_string(s); }

struct Result {
  bool failed = false;
  std::string kind, text;
};

void childSetup(int s) {
  std::string R = rootOf(s);
  env.root = R;
  mkdirs(R);
  int e = (int)syscall(SYS_openat, AT_FDCWD, (R + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(e, 2);
  dup2(e, 1);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  struct itimerval it = {{0, 0}, {25, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
  struct itimerval wall = {{0, 0}, {300, 0}};
  setitimer(ITIMER_REAL, &wall, nullptr);
  setenv("HOME", (R + "/home").c_str(), 1);
  setenv("XDG_DATA_HOME", (R + "/home/data").c_str(), 1);
  setenv("XDG_CONFIG_HOME", (R + "/home/config").c_str(), 1);
  setenv("XDG_CACHE_HOME", (R + "/home/cache").c_str(), 1);
  setenv("XDG_RUNTIME_DIR", (R + "/run").c_str(), 1);
  setenv("XDG_DATA_DIRS", (R + "/usr").c_str(), 1);
  setenv("XDG_CONFIG_DIRS", (R + "/etc").c_str(), 1);
  setenv("SKIP_FCITX_PATH", "1", 1);
  setenv("TZ", "UTC", 1);
  setenv("LC_ALL", "C.UTF-8", 1);
  unsetenv("DISPLAY");
  unsetenv("WAYLAND_DISPLAY");
  unsetenv("DBUS_SESSION_BUS_ADDRESS");
  fcitx::StandardPath::global();
}
void trace(Slot* sl, const Op& op) {
  std::string l = formatOp(op) + "\n";
  if (sl->traceLen + l.size() >= kTrace) return;
  memcpy(sl->trace + sl->traceLen, l.data(), l.size());
  sl->traceLen += l.size();
  sl->traceOps++;
}
void finishChild(Slot* sl, World& w) {
  sl->failed = w.failed;
  snprintf(sl->kind, sizeof sl->kind, "%s", w.bad.kind.c_str());
  snprintf(sl->text, sizeof sl->text, "%s", w.bad.text.c_str());
  sl->st = w.st;
  for (int i = 0; i < FC_N; i++) sl->fired[i] = env.fired[i];
  sl->shorts = env.shorts;
  sl->crashes = env.crashes;
  sl->calls = env.productCalls;
  sl->hash = w.hash;
  sl->nstates = w.states.size();
  for (auto h : w.states) { size_t b = (size_t)((h ^ (h >> 29)) % (kBits * 8)); __atomic_or_fetch(&bits[b / 8], (unsigned char)(1u << (b % 8)), __ATOMIC_RELAXED); }
  __atomic_store_n(&sl->done, 1, __ATOMIC_SEQ_CST);
}
void resetSlot(Slot* sl) { sl->done = sl->failed = 0; sl->kind[0] = sl->text[0] = 0; sl->st = Stats(); sl->traceLen = sl->traceOps = 0; sl->hash = 0; sl->nstates = 0; memset(sl->fired, 0, sizeof sl->fired); sl->shorts = sl->crashes = sl->calls = 0; }

typedef std::function<void(Slot*)> Body;
pid_t launch(int s, const Body& body) {
  resetSlot(&slots[s]);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    childSetup(s);
    body(&slots[s]);
    _exit(0);
  }
  return p;
}
std::string crashText(int s, int status) {
  std::string e, out;
  readAll(rootOf(s) + ".err", &e);
  std::istringstream is(e);
  std::string l;
  int n = 0;
  while (std::getline(is, l) && n < 14) {
    if (l.find("ERROR: AddressSanitizer") != std::string::npos) { size_t p = l.find("AddressSanitizer"); out += l.substr(p, 120) + "\n"; n++; }
    else if (l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what()") != std::string::npos) { out += l.substr(0, 300) + "\n"; n++; }
    else if (l.find("    #") == 0 && n > 0) { out += l.substr(0, 200) + "\n"; n++; }
  }
  if (out.empty()) out = e.substr(0, 400);
  if (WIFSIGNALED(status)) out = "killed by signal " + std::to_string(WTERMSIG(status)) + "\n" + out;
  return out;
}
Result resultOf(int s, int status) {
  Slot* sl = &slots[s];
  Result r;
  if (sl->done) {
    r.failed = sl->failed;
    r.kind = sl->kind;
    r.text = sl->text;
    return r;
  }
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) { r.failed = true; r.kind = "hang"; r.text = "blocked for 300 s"; return r; }
  if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGXCPU)) { r.failed = true; r.kind = "hang"; r.text = "no progress within 25 s of processor time"; return r; }
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) { r.kind = "killed"; return r; }  // by the sandbox (memory), not by the product
  r.failed = true;
  r.kind = "crash";
  r.text = crashText(s, status);
  return r;
}
void cleanup(int s) { env.root = scratch; rmrf(rootOf(s)); env.root.clear(); }

Body genBody(uint64_t seed, const Profile* p) {
  return [seed, p](Slot* sl) {
    World w(env.root);
    w.kinds = p->kinds;
    Gen g(seed, *p, w);
    Op op;
    while (g.next(&op)) { trace(sl, op); if (!w.exec(op)) break; }
    w.finish();
    finishChild(sl, w);
  };
}
Body opsBody(const std::vector<Op>& ops, const std::string& kinds) {
  return [ops, kinds](Slot* sl) {
    World w(env.root);
    w.kinds = kinds;
    for (auto& o : ops) { trace(sl, o); if (!w.exec(o)) break; }
    w.finish();
    finishChild(sl, w);
  };
}
// Runs bodies[i] in slot i, all at once.
std::vector<Result> runBatch(const std::vector<Body>& b) {
  std::vector<pid_t> pid(b.size());
  std::vector<Result> r(b.size());
  for (size_t i = 0; i < b.size(); i++) pid[i] = launch((int)i, b[i]);
  for (size_t i = 0; i < b.size(); i++) {
    int st = 0;
    while (waitpid(pid[i], &st, 0) < 0 && errno == EINTR) {}
    r[i] = resultOf((int)i, st);
    cleanup((int)i);
  }
  return r;
}
std::vector<Op> parseOps(const std::string& t) {
  std::vector<Op> v;
  std::istringstream is(t);
  std::string l;
  Op o;
  while (std::getline(is, l)) if (parseOp(l, &o)) v.push_back(o);
  return v;
}
int jobs() { long n = sysconf(_SC_NPROCESSORS_ONLN); if (const char* e = getenv("SIM_JOBS")) n = atol(e); return (int)std::max(1l, std::min(16l, n)); }

std::vector<Op> minimise(std::vector<Op> ops, const std::string& kind, const std::string& kinds, double limit) {
  double end = nowS() + limit;
  int J = jobs();
  auto test = [&](const std::vector<std::vector<Op>>& cands) -> int {
    std::vector<Body> b;
    for (auto& c : cands) b.push_back(opsBody(c, kinds));
    auto r = runBatch(b);
    for (size_t i = 0; i < r.size(); i++) if (r[i].failed && r[i].kind == kind) return (int)i;
    return -1;
  };
  // spread groups of keys over single operations
  std::vector<Op> flat;
  for (auto& o : ops) {
    if ((o.name == "k" || o.name == "syl") && o.args.size() > 1) for (auto& a : o.args) { Op x = o; x.args = {a}; flat.push_back(x); }
    else flat.push_back(o);
  }
  if (test({flat}) == 0) ops = flat;
  bool again = true;
  while (again && nowS() < end) {
    again = false;
    for (size_t len = std::max<size_t>(1, ops.size() / 2);; len /= 2) {
      size_t i = 0;
      while (i < ops.size() && nowS() < end) {
        std::vector<std::vector<Op>> c;
        std::vector<size_t> at;
        for (size_t k = i; k < ops.size() && (int)c.size() < J; k += len) {
          std::vector<Op> x(ops.begin(), ops.begin() + (long)k);
          if (k + len < ops.size()) x.insert(x.end(), ops.begin() + (long)(k + len), ops.end());
          c.push_back(x);
          at.push_back(k);
        }
        int hit = test(c);
        if (hit >= 0) { ops = c[(size_t)hit]; i = at[(size_t)hit]; again = true; }
        else i = at.back() + len;
      }
      if (len <= 1 || nowS() >= end) break;
    }
    // faults that do not matter
    for (size_t i = 0; i < ops.size() && nowS() < end; i++)
      if (ops[i].plan.active) { auto x = ops; x[i].plan = FaultPlan(); if (test({x}) == 0) { ops = x; again = true; } }
    // syllables of a reading
    for (size_t i = 0; i < ops.size() && nowS() < end; i++)
      if (ops[i].name == "syl" && ops[i].args.size() == 1) {
        auto s = model::splitReadings(ops[i].args[0]);
        if (s.size() < 2) continue;
        for (int side = 0; side < 2; side++) {
          auto y = s;
          if (side) y.erase(y.begin()); else y.pop_back();
          auto x = ops;
          x[i].args[0] = model::joinReadings(y);
          if (test({x}) == 0) { ops = x; again = true; break; }
        }
      }
  }
  return ops;
}

std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
uint64_t counter(const Stats& s, const std::string& n, uint64_t faults) {
  if (n == "adds") return s.adds + s.addsFaulted;
  if (n == "fileEdits") return s.fileEdits;
  if (n == "faults") return faults;
  if (n == "starts") return s.starts ? s.starts : s.sessions > 1;
  if (n == "commits") return s.commits;
  if (n == "learned") return s.learned;
  if (n == "macros") return s.macros;
  if (n == "cfgs") return s.cfgs;
  if (n == "activations") return s.activations;
  return s.compared;
}
std::string verifDir() {
  char b[4096];
  ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, "/proc/self/exe", b, sizeof b - 1);
  b[n > 0 ? n : 0] = 0;
  std::string s = b;
  s = s.substr(0, s.rfind('/'));
  return s.substr(0, s.rfind('/'));
}

int check(const std::string& id, const std::string& tier) {
  const Profile* p = profileOf(id);
  if (!p) { fprintf(stderr, "no such property: %s\n", id.c_str()); return 2; }
  double t0 = nowS();
  long base = getenv("VERIF_SEED") ? atol(getenv("VERIF_SEED")) : 1;
  bool quick = tier != "thorough";
  int runs = quick ? p->quickRuns : p->thoroughRuns;
  if (const char* e = getenv("SIM_RUNS")) runs = atoi(e);
  double cap = quick ? 420 : 3000;
  int J = jobs();
  auto seedOf = [&](int i) { return fnv(id, (uint64_t)base * 1000003ull) + (uint64_t)i * 0x9E3779B97F4A7C15ull; };
  // one seed is one execution: the same seed twice, in different slots
  bool gate = true;
  {
    std::vector<Body> b;
    for (int i = 0; i < J; i++) b.push_back(genBody(seedOf(i / 2), p));
    auto r = runBatch(b);
    for (int i = 0; i + 1 < J; i += 2)
      if (!r[(size_t)i].failed && !r[(size_t)i + 1].failed && r[(size_t)i].kind != "killed" && r[(size_t)i + 1].kind != "killed" && slots[i].hash != slots[i + 1].hash) {
        fprintf(stderr, "the simulation is not deterministic: seed %llu\n", (unsigned long long)seedOf(i / 2));
        gate = false;
      }
  }
  std::vector<pid_t> pid((size_t)J, 0);
  std::vector<int> idx((size_t)J, -1);
  int next = 0, active = 0, done = 0, nontrivial = 0, killed = 0, unrepro = 0, reruns = 0, rerunDiffers = 0;
  Stats tot;
  uint64_t fired[FC_N] = {0}, shorts = 0, crashes = 0, calls = 0, nstates = 0;
  std::set<uint64_t> hashes, ntHashes;
  std::map<int, uint64_t> firstHash;
  Result bad;
  std::vector<Op> badOps;
  int badRun = -1;
  std::string sample;
  bool stop = false;
  const int kRerun = 40;  // every so many-th seed is executed a second time at the end
  int total = runs + runs / kRerun;
  auto runOf = [&](int i) { return i < runs ? i : (i - runs) * kRerun; };
  int rc = 0;
  std::string replayPath;
  for (;;) {
  while (active > 0 || (next < total && !stop)) {
    while (!stop && next < total) {
      int s = -1;
      for (int k = 0; k < J; k++) if (!pid[(size_t)k]) { s = k; break; }
      if (s < 0) break;
      idx[(size_t)s] = next;
      pid[(size_t)s] = launch(s, genBody(seedOf(runOf(next)), p));
      next++;
      active++;
      if (nowS() - t0 > cap) stop = true;
    }
    int st;
    pid_t q = waitpid(-1, &st, 0);
    if (q < 0) { if (errno == EINTR) continue; break; }
    for (int k = 0; k < J; k++) {
      if (pid[(size_t)k] != q) continue;
      pid[(size_t)k] = 0;
      active--;
      Slot* sl = &slots[k];
      Result r = resultOf(k, st);
      cleanup(k);
      if (r.kind == "killed") { killed++; break; }
      int i = idx[(size_t)k];
      if (r.failed) {
        if (badRun < 0 || runOf(i) < badRun) { badRun = runOf(i); bad = r; badOps = parseOps(std::string(sl->trace, sl->traceLen)); }
        stop = true;
        break;
      }
      if (i >= runs) { reruns++; auto it = firstHash.find(runOf(i)); if (it != firstHash.end() && it->second != sl->hash) { rerunDiffers++; fprintf(stderr, "seed %llu gave two executions\n", (unsigned long long)seedOf(runOf(i))); } break; }
      done++;
      if (i % kRerun == 0) firstHash[i] = sl->hash;
      uint64_t f = sl->crashes;
      for (int c = 0; c < FC_N; c++) { fired[c] += sl->fired[c]; f += sl->fired[c]; }
      shorts += sl->shorts; crashes += sl->crashes; calls += sl->calls; nstates += sl->nstates;
      uint64_t* a = (uint64_t*)&tot; const uint64_t* b = (const uint64_t*)&sl->st;
      for (size_t x = 0; x < sizeof(Stats) / sizeof(uint64_t); x++) a[x] += b[x];
      hashes.insert(sl->hash);
      if (counter(sl->st, p->nontrivial, f)) { nontrivial++; ntHashes.insert(sl->hash); }
      if (i < 200 && sl->traceLen > 200 && (sample.empty() || (sl->traceLen < sample.size()))) sample.assign(sl->trace, sl->traceLen);
      break;
    }
  }
  if (badRun < 0) break;
  {
    // it must happen again, in a process of its own
    std::string kind = bad.kind;
    Result again;
    for (int t = 0; t < 3 && !again.failed; t++) {
      auto r = runBatch({opsBody(badOps, p->kinds)});
      if (r[0].failed && r[0].kind == kind) again = r[0];
      else if (r[0].failed) { kind = r[0].kind; again = r[0]; }
    }
    if (!again.failed) {
      unrepro++;
      fprintf(stderr, "run %d (seed %llu) reported `%s: %s`, which its recorded trace does not reproduce\n", badRun, (unsigned long long)seedOf(badRun), bad.kind.c_str(), bad.text.c_str());
      for (auto& o : badOps) fprintf(stderr, "  %s\n", formatOp(o).c_str());
      rc = 2;
      if (unrepro >= 6 || nowS() - t0 > cap) break;
      badRun = -1;
      bad = Result();
      stop = false;
    } else {
      badOps = getenv("SIM_NOMIN") ? badOps : minimise(badOps, kind, p->kinds, quick ? 60 : 120);
      auto r = runBatch({opsBody(badOps, p->kinds), opsBody(badOps, p->kinds)});
      if (r[0].failed) again = r[0];
      std::string dir = verifDir() + "/replays";
      mkdir(dir.c_str(), 0755);
      replayPath = dir + "/" + id + "-" + std::to_string(base) + "-" + std::to_string(badRun) + ".ops";
      std::ofstream o(replayPath);
      o << "# property " << id << "\n# kind " << kind << "\n# seed " << seedOf(badRun) << " (VERIF_SEED=" << base << " run " << badRun << ")\n";
      std::istringstream is(again.text);
      std::string l;
      while (std::getline(is, l)) o << "# " << l << "\n";
      for (auto& x : badOps) o << formatOp(x) << "\n";
      o.close();
      printf("%s: %s\n", kind.c_str(), again.text.c_str());
      for (auto& x : badOps) printf("  %s\n", formatOp(x).substr(0, 300).c_str());
      printf("VIOLATION property=%s replay=%s\n", id.c_str(), replayPath.c_str());
      rc = 1;
      break;
    }
  }
  }
  if (rerunDiffers || !gate) rc = rc == 1 ? 1 : 2;
  double wall = nowS() - t0;
  uint64_t distinct = 0;
  for (size_t i = 0; i < kBits; i++) distinct += (uint64_t)__builtin_popcount(bits[i]);
  std::string ev = verifDir() + "/evidence";
  mkdir(ev.c_str(), 0755);
  std::ofstream o(ev + "/" + id + ".json");
  o << "{\n \"property\": \"" << id << "\", \"tier\": \"" << (quick ? "quick" : "thorough") << "\", \"seed\": " << base << ", \"level\": \"exploration\",\n \"coverage\": {\n";
  o << "  \"evaluations\": " << done << ",\n  \"distinct_nontrivial\": " << ntHashes.size() << ",\n";
  o << "  \"rule\": \"one evaluation is one simulated execution of the real add-on in the real framework, chosen operation by operation from one seed; it is non-trivial when its counter '" << p->nontrivial
    << "' is not zero, and distinct when the hash of everything observed in it is new\",\n";
  o << "  \"samples\": [\"" << esc(sample.substr(0, 3000)) << "\"],\n";
  o << "  \"simulated_runs\": " << done << ", \"seeds_per_hour\": " << (long)(done / std::max(0.1, wall) * 3600) << ", \"distinct_executions\": " << hashes.size() << ",\n";
  o << "  \"simulated_seconds\": " << tot.simSeconds << ", \"clock_jumps\": " << tot.clockJumps << ",\n";
  o << "  \"faults_injected\": {";
  for (int c = 0; c < FC_N; c++) o << (c ? ", " : "") << "\"" << kFaultName[c] << "\": " << fired[c];
  o << ", \"short_transfers\": " << shorts << ", \"crash_at_system_call\": " << crashes << ", \"crash_or_kill_of_the_instance\": " << tot.crashes << ", \"files_changed_by_others\": " << tot.fileEdits << ", \"files_changed_between_two_system_calls\": " << tot.midEdits << "},\n";
  o << "  \"transitions_seen\": " << nstates << ", \"distinct_transitions\": " << distinct
    << ", \"transition_measure\": \"pair of abstract states (kind of state, mode, client, numbers of readings/units/choices/learned contexts, settings, freshness of each user file) and the event between them\",\n";
  o << "  \"events\": {\"operations\": " << tot.ops << ", \"keys\": " << tot.keys << ", \"compared_with_model\": " << tot.compared << ", \"not_compared\": " << tot.unknownEvents << ", \"ties\": " << tot.ties
    << ", \"sessions\": " << tot.sessions << ", \"activations\": " << tot.activations << ", \"focus_changes\": " << tot.focusChanges << ", \"commits\": " << tot.commits << ", \"candidate_windows\": " << tot.lists
    << ", \"adds\": " << tot.adds << ", \"adds_hit_by_a_fault\": " << tot.addsFaulted << ", \"programs_started\": " << tot.starts << ", \"settings_changes\": " << tot.cfgs << ", \"learned\": " << tot.learned
    << ", \"suggestions\": " << tot.suggested << ", \"forgotten\": " << tot.forgotten << ", \"evicted\": " << tot.evicted << ", \"date_entries\": " << tot.macros << ", \"forced_drains\": " << tot.drains
    << ", \"clicks\": " << tot.clicks << ", \"history_checks\": " << tot.historyChecks << ", \"out_of_scope_differences\": " << tot.otherKinds << ", \"product_system_calls\": " << calls << "},\n";
  o << "  \"determinism\": {\"seeds_executed_twice\": " << reruns << ", \"differing\": " << rerunDiffers << ", \"not_reproduced\": " << unrepro << ", \"runs_lost_to_memory_limit\": " << killed << "},\n";
  o << "  \"components\": {\"real\": [\"all of /repo/src (built from the working tree with AddressSanitizer)\", \"libFcitx5Core/Config/Utils\", \"ICU\", \"json-c\", \"file system (scratch directory)\"], "
       "\"stub\": [\"clients (three simulated input contexts)\", \"clock\", \"process starting (recorded, never executed)\", \"keyboard and pointer\", \"other programs editing files\", \"notification service\", \"language data: a small excerpt of the shipped data, or made from the seed\"]}\n";
  o << " },\n \"assumptions\": [\"process crash, not power loss\", \"one focused client at a time\", \"writes by other programs change the modification time\"],\n";
  o << " \"wall_s\": " << wall << ", \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
  o.close();
  printf("%s %s: %d runs, %zu distinct non-trivial, %.1f s, %llu keys, %llu comparisons, %llu distinct transitions%s\n", id.c_str(), tier.c_str(), done, ntHashes.size(), wall, (unsigned long long)tot.keys,
         (unsigned long long)tot.compared, (unsigned long long)distinct, rc == 0 ? ": held" : "");
  return rc;
}

int verbose(const std::string& file) {
  std::string t;
  readAll(file, &t);
  auto ops = parseOps(t);
  pid_t p = fork();
  if (p == 0) {
    int o1 = dup(1);
    childSetup(0);
    dup2(o1, 1);
    dup2(o1, 2);
    World w(env.root);
    size_t pp = t.find("# property ");
    if (pp != std::string::npos)
      if (const Profile* pr = profileOf(t.substr(pp + 11, t.find('\n', pp) - pp - 11))) w.kinds = pr->kinds;
    if (const char* k = getenv("SIM_KINDS")) w.kinds = k;
    for (auto& op : ops) {
      printf("> %s\n", formatOp(op).c_str());
      fflush(stdout);
      bool ok = w.exec(op);
      for (auto& s : env.starts) { printf("   start:"); for (auto& a : s) printf(" %s", a.c_str()); printf("\n"); }
      printf("   up=%d focus=%d unk=%d bu=%d st=%s [%s]@%d list=%zu", w.up, w.focus, w.unknown, w.builtinUnknown, model::kStateName[w.m.st->t], w.obs.preedit.c_str(), w.obs.cursor, w.obs.list.size());
      for (size_t i = 0; i < w.obs.list.size() && i < 12; i++) printf(" %s", w.obs.list[i].c_str());
      printf(" commits:");
      for (auto& c : w.obs.commits) printf("[%s]", c.c_str());
      printf(" calls=%d fired=%d\n", env.calls, env.firedInOp);
      fflush(stdout);
      if (!ok) break;
    }
    w.finish();
    if (w.failed) printf("VIOLATION %s: %s\n", w.bad.kind.c_str(), w.bad.text.c_str());
    printf("hash %llx\n", (unsigned long long)w.hash);
    fflush(stdout);
    _exit(w.failed);
  }
  int st;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) printf("signal %d\n", WTERMSIG(st));
  cleanup(0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}
}  // namespace

int main(int argc, char** argv) {
  // the same addresses every time
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) {
    setenv("SIM_ASLR", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  std::string cmd = argc > 1 ? argv[1] : "";
  struct stat sb;
  std::string base = (::stat("/dev/shm", &sb) == 0 && S_ISDIR(sb.st_mode) && ::access("/dev/shm", W_OK) == 0) ? "/dev/shm" : "/tmp";
  scratch = base + "/dsim." + std::to_string((long)getpid());
  mkdirs(scratch);
  slots = (Slot*)mmap(nullptr, sizeof(Slot) * 17, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  bits = (unsigned char*)mmap(nullptr, kBits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int rc = 2;
  if (cmd == "check" && argc > 3) rc = check(argv[2], argv[3]);
  else if (cmd == "replay" && argc > 2) {
    std::string t, kinds, id = "?";
    readAll(argv[2], &t);
    size_t p = t.find("# property ");
    if (p != std::string::npos) id = t.substr(p + 11, t.find('\n', p) - p - 11);
    if (const Profile* pr = profileOf(id)) kinds = pr->kinds;
    auto r = runBatch({opsBody(parseOps(t), kinds)});
    printf("%s %s\nhash %llx\n", r[0].kind.c_str(), r[0].text.c_str(), (unsigned long long)slots[0].hash);
    if (r[0].failed) printf("VIOLATION property=%s replay=%s\n", id.c_str(), argv[2]);
    rc = r[0].failed ? 1 : 0;
  } else if (cmd == "trace" && argc > 2) rc = verbose(argv[2]);
  else if (cmd == "gen" && argc > 3) {
    auto r = runBatch({genBody(strtoull(argv[3], nullptr, 10), profileOf(argv[2]))});
    fwrite(slots[0].trace, 1, slots[0].traceLen, stdout);
    printf("# %s %s\n", r[0].kind.c_str(), r[0].text.c_str());
    rc = r[0].failed;
  } else fprintf(stderr, "usage: dsim check ID quick|thorough | replay FILE | trace FILE | gen ID SEED\n");
  env.root = base;
  std::string s = scratch;
  env.root = s;
  rmrf(s);
  return rc;
}
