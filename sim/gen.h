// Decides, from one seed, every operation, delay and fault of a run.
#pragma once
#include <deque>
#include <string>
#include <vector>

#include "world.h"

namespace sim {

struct Profile {
  const char* id;
  const char* kinds;       // violation kinds this property speaks about
  int ops;                 // operations per run (about)
  int quickRuns, thoroughRuns;
  // weights of what comes next
  double type, edit, cand, raw, feature, shiftRet, focus, icreset, im, cfg, toggle, menu, file, builtin, dict, session, clock, markAdd, probe, learn, drain, userdir;
  double fault, crash;     // chance that an eligible operation meets a fault / the process dies in it
  bool wild;               // other programs write arbitrary bytes too
  const char* nontrivial;  // the counter that makes a run count
};
const Profile* profileOf(const std::string& id);
extern const Profile kProfiles[];
extern const int kProfileCount;

class Gen {
 public:
  Gen(uint64_t seed, const Profile& p, World& w);
  bool next(Op* op);       // false: the run is over
 private:
  Rng r_;
  const Profile& p_;
  World& w_;
  int left_;
  std::deque<Op> q_;
  std::vector<std::string> pool_;     // readings this run keeps coming back to
  std::vector<std::string> values_;   // and values
  std::vector<std::string> history_;  // texts files had before
  bool numLock_ = false, recover_ = false, begun_ = false, data_ = false;
  int scenario_ = 0;

  void push(const std::string& n, std::vector<std::string> a = {}, bool faulty = false);
  void keys(const std::string& spaceSeparated);
  void start(bool faulty = false);
  void key(const std::string& k, bool faulty = false);
  void begin();
  void choose();
  void typeSome();
  void editKey();
  void candKey();
  void rawKey();
  void feature();
  void number();
  void cfg();
  void confFile();
  std::string setting();
  void file();
  void builtinFile();
  void dictFile();
  void session();
  void clock();
  void markAdd();
  void probe(const std::string& reading);
  void learn();
  void userDir();
  void recovery();
  void clearAll();
  void wear();
  void lookup();
  void nested();
  bool evictStep();
  std::vector<std::vector<std::string>> contexts_;
  int phase_ = 0, steps_ = 0;
  std::string reading(int maxLen = 6);
  std::string value(const std::string& reading);
  std::string line(bool user);
  std::string content(int f);
  std::string garbage();
  std::string syllable();
  FaultPlan plan();
};

}  // namespace sim
