// One simulated execution: executes operations against the real system and the
// reference model side by side and checks every step.
#pragma once
#include <setjmp.h>

#include <set>
#include <string>
#include <vector>

#include "env.h"
#include "host.h"
#include "model.h"

namespace sim {

struct Op {
  std::string name;
  std::vector<std::string> args;
  FaultPlan plan;
};
std::string formatOp(const Op& op);
bool parseOp(const std::string& line, Op* op);
std::string pct(const std::string& s);
std::string unpct(const std::string& s);

struct Violation {
  std::string kind;
  std::string text;
};

enum File { F_USER, F_EXCL, F_REPL, F_DICT, F_MAIN, F_PLAIN, F_ASSOC, F_CONF, F_N };
extern const char* const kFileName[F_N];

struct Disk {       // what is at a path
  int kind = 0;     // 0 nothing, 1 file, 2 directory / something else
  std::string data;
  bool operator==(const Disk& o) const { return kind == o.kind && data == o.data; }
};

struct Stats {
  uint64_t ops = 0, keys = 0, events = 0, compared = 0, unknownEntered = 0, unknownEvents = 0, ties = 0, commits = 0, adds = 0, addsFaulted = 0,
           starts = 0, sessions = 0, crashes = 0, activations = 0, focusChanges = 0, clicks = 0, fileEdits = 0, reloads = 0, drains = 0, cfgs = 0,
           simSeconds = 0, clockJumps = 0, learned = 0, suggested = 0, forgotten = 0, evicted = 0, macros = 0, dictLookups = 0, lists = 0, probes = 0, otherKinds = 0, midEdits = 0, historyChecks = 0;
};

class World {
 public:
  explicit World(const std::string& root);
  bool exec(const Op& op);          // false: a violation was found (see `bad`)
  void finish();                    // end of the run
  Violation bad;
  bool failed = false;
  std::string kinds;                // the kinds of violation that end a run (empty: all)

  // readable by the generator
  model::Engine m;
  Host host;
  Obs obs;                          // of the focused client after the last event
  int focus = -1;
  bool up = false;                  // an instance is running
  bool unknown = false;             // the model is not followed until the next clean point
  bool builtinUnknown = false;
  bool uomTrusted = true;
  uint64_t observed_ = 0;
  bool icPlain[kClients] = {false, false, false};
  bool icSecret[kClients] = {false, false, false};
  Stats st;
  uint64_t hash = 1469598103934665603ull;
  std::vector<uint64_t> states;     // abstract transitions seen
  std::string path(int f) const;
  Disk look(int f) const;
  const std::string& base(int f) const;   // pristine content of built-in files
  std::vector<std::string> hot_;          // readings the language data made for this run are about

 private:
  friend class Gen;
  std::string synth_[F_N];
  std::string lastOp_;
  int heldBefore_ = 0;
  static constexpr int kMostHeld = 20;
  uint64_t lastAbs_ = 0;
  bool fileTouched_[F_N] = {false};    // edited by another program since it was last loaded
  int edited_ = -1;                    // the file edited in the middle of this operation
  std::string editedFrom_;
  bool torn_ = false;                  // ... not atomically: until the next activation no complete version may be loaded
  bool uncertain_[F_N] = {false};      // which version is loaded is not determined
  std::vector<std::string> held_[F_N];      // the same, before the event
  std::vector<std::string> versions_[F_N];  // contents since (and including) the last load
  bool tieSeen_ = false;
  bool addSeen_ = false;
  bool dirty_ = false;               // some data holds arbitrary bytes: text need not be valid
  bool shownHalf_ = false, shownAssoc_ = false;  // what the status texts have to say
  bool confUnknown_ = false;         // settings could not be read at start
  bool assocUnknown_ = false;
  bool servicesUnknown_ = false;
  bool tainted_ = false;             // the user's folder was unusable at start: user files need not work before a restart
  Disk before_[F_N];
  struct Expect { bool accepted = true; bool known = false; };

  void fail(const std::string& kind, const std::string& text);
  template <class F> bool guarded(const FaultPlan& p, F f);
  void snapshot();
  void onCrash();
  bool doKey(const Op& op, const std::string& token);
  void doStart(const Op& op);
  void afterEvent(const char* what, bool followed, bool checkAccepted, bool accepted, bool mAccepted);
  bool invariants(const Obs& o, int ic);
  bool checkStarts();
  bool checkSettings();
  bool checkNotice(bool half, bool on);
  bool desktop_ = false;
  bool checkFiles(bool addExpected);
  void reloadUser();
  void loadBuiltin(bool plain);
  void activated(int i, bool switched);
  void becomeUnknown(const char* why);
  void resync();
  bool excusable() const;
  bool allowedList(const std::vector<std::string>& got) const;
  void checkConf(const model::Config& a, const model::Config& b);
  void abstractState(const std::string& op);
  void loadServices();
  bool blockedDir() const;
  bool doFile(const Op& op);
  void doBlur(const Op& op, int next);
  void drain();
  void textEqual(const char* what, const std::string& got, const std::string& want);
  std::string describe() const;
};

model::Config parseConf(const std::string& path, bool* ok);
std::vector<std::pair<std::string, std::string>> confPairs(const std::string& arg);
void applyConf(model::Config* c, const std::string& k, const std::string& v);
extern const char* const kConfKeys[];

}  // namespace sim
