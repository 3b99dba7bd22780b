#include "world.h"

#include <fcitx-config/iniparser.h>
#include <fcitx-config/rawconfig.h>
#include <json-c/json.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unicode/timezone.h>

#include <algorithm>

#include "data.h"
#include "macro.h"

namespace sim {

const char* const kFileName[F_N] = {"user", "excl", "repl", "dict", "main", "plain", "assoc", "conf"};

// ---- operations as text ----------------------------------------------------
std::string pct(const std::string& s) {
  std::string r;
  bool raw = !model::validUtf8(s);
  for (unsigned char c : s) {
    if (c <= 32 || (raw && c >= 128) || c == '%' || c == '@' || c == 127) { char b[4]; snprintf(b, sizeof b, "%%%02X", c); r += b; }
    else r += (char)c;
  }
  return r.empty() ? "%" : r;
}
std::string unpct(const std::string& s) {
  std::string r;
  if (s == "%") return r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else r += s[i];
  }
  return r;
}
static int fileByName(const std::string& n) {
  for (int f = 0; f < F_N; f++) if (n == kFileName[f]) return f;
  return -1;
}

std::string formatOp(const Op& op) {
  std::string r = op.name;
  for (auto& a : op.args) r += " " + pct(a);
  const FaultPlan& p = op.plan;
  if (p.active) {
    if (p.cls >= 0) r += " @fail=" + std::string(kFaultName[p.cls]) + ":" + std::to_string(p.at) + ":" + std::to_string(p.count) + ":" + std::to_string(p.err) + ":" + std::to_string(p.shortLen);
    if (p.crashAt) r += " @crash=" + std::to_string(p.crashAt);
    if (p.editAt) r += " @edit=" + std::to_string(p.editAt) + ":" + kFileName[p.editFile] + ":" + p.editMode + ":" + pct(p.editData);
  }
  return r;
}
bool parseOp(const std::string& line, Op* op) {
  *op = Op();
  size_t p = 0;
  std::vector<std::string> w;
  while (p < line.size()) {
    size_t q = line.find(' ', p);
    if (q == std::string::npos) q = line.size();
    if (q > p) w.push_back(line.substr(p, q - p));
    p = q + 1;
  }
  if (w.empty() || w[0][0] == '#') return false;
  op->name = w[0];
  for (size_t i = 1; i < w.size(); i++) {
    if (w[i].compare(0, 6, "@fail=") == 0) {
      std::vector<std::string> f;
      std::string s = w[i].substr(6);
      size_t a = 0;
      for (;;) { size_t b = s.find(':', a); f.push_back(s.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
      if (f.size() != 5) return false;
      for (int c = 0; c < FC_N; c++) if (f[0] == kFaultName[c]) op->plan.cls = c;
      op->plan.at = atoi(f[1].c_str());
      op->plan.count = atoi(f[2].c_str());
      op->plan.err = atoi(f[3].c_str());
      op->plan.shortLen = atoi(f[4].c_str());
      op->plan.active = true;
    } else if (w[i].compare(0, 7, "@crash=") == 0) {
      op->plan.crashAt = atoi(w[i].c_str() + 7);
      op->plan.active = true;
    } else if (w[i].compare(0, 6, "@edit=") == 0) {
      size_t a = w[i].find(':'), b = a == std::string::npos ? a : w[i].find(':', a + 1), c = b == std::string::npos ? b : w[i].find(':', b + 1);
      if (c == std::string::npos) return false;
      op->plan.editAt = atoi(w[i].c_str() + 6);
      op->plan.editFile = fileByName(w[i].substr(a + 1, b - a - 1));
      if (op->plan.editFile < 0 || op->plan.editFile > F_REPL) return false;
      op->plan.editMode = w[i].substr(b + 1, c - b - 1);
      op->plan.editData = unpct(w[i].substr(c + 1));
      op->plan.active = true;
    } else op->args.push_back(unpct(w[i]));
  }
  return true;
}

// ---- settings --------------------------------------------------------------
const char* const kConfKeys[] = {"BopomofoKeyboardLayout", "CandidateLayout", "SelectionKeys", "SelectionKeysCount", "SelectPhrase", "MoveCursorAfterSelection",
                                 "AllowMovingCursorWhenChoosingCandidates", "EscKeyClearsEntireComposingBuffer", "ShiftLetterKeys",
                                 "KeyHandlerCtrlEnter", "OpenUserPhraseFilesWith", "AddScriptHookPath", "AddScriptHookEnabled",
                                 "HalfWidthPunctuationEnable", "AssociatedPhrasesEnabled", nullptr};
void applyConf(model::Config* c, const std::string& k, const std::string& v) {
  auto b = [&](bool* x) { if (v == "True") *x = true; if (v == "False") *x = false; };
  auto en = [&](std::string* x, std::initializer_list<const char*> ok) { for (auto o : ok) if (v == o) *x = v; };
  if (k == "BopomofoKeyboardLayout") en(&c->layout, {"standard", "eten", "hsu", "et26", "hanyupinyin", "ibm"});
  else if (k == "CandidateLayout") en(&c->candLayout, {"Not Set", "Vertical", "Horizontal"});
  else if (k == "SelectionKeys") en(&c->selKeys, {"123456789", "asdfghjkl", "asdfzxcvb"});
  else if (k == "SelectionKeysCount") c->keyCount = v.size() == 1 && v[0] >= '4' && v[0] <= '9' ? v[0] - '0' : 9;  // what is not possible counts as the default
  else if (k == "SelectPhrase") { if (v == "after_cursor") c->afterCursor = true; if (v == "before_cursor") c->afterCursor = false; }
  else if (k == "MoveCursorAfterSelection") b(&c->moveCursor);
  else if (k == "AllowMovingCursorWhenChoosingCandidates") b(&c->allowMoving);
  else if (k == "EscKeyClearsEntireComposingBuffer") b(&c->escClears);
  else if (k == "ShiftLetterKeys") { if (v == "put_lowercase_to_buffer") c->putLower = true; if (v == "directly_output_uppercase") c->putLower = false; }
  else if (k == "KeyHandlerCtrlEnter") en(&c->ctrlEnter, {"disabled", "output_bpmf_reading", "output_html_ruby_text"});
  else if (k == "OpenUserPhraseFilesWith") c->openWith = v;
  else if (k == "AddScriptHookPath") c->hookPath = v;
  else if (k == "AddScriptHookEnabled") b(&c->hookOn);
  else if (k == "HalfWidthPunctuationEnable") b(&c->half);
  else if (k == "AssociatedPhrasesEnabled") b(&c->assoc);
}
static model::Config confDefaults() {
  model::Config c;
  c.openWith = "xdg-open";
  c.hookPath = "/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh";
  return c;
}
model::Config parseConf(const std::string& path, bool* ok) {
  OutOfProduct o;
  model::Config c = confDefaults();
  *ok = true;
  if (isDir(path)) { *ok = false; return c; }
  FILE* f = fopen(path.c_str(), "r");
  if (!f) { *ok = !exists(path); return c; }
  fcitx::RawConfig rc;
  fcitx::readFromIni(rc, f);
  fclose(f);
  for (int i = 0; kConfKeys[i]; i++) if (auto* v = rc.valueByPath(kConfKeys[i])) applyConf(&c, kConfKeys[i], *v);
  return c;
}
std::vector<std::pair<std::string, std::string>> confPairs(const std::string& a) {
  std::vector<std::pair<std::string, std::string>> r;
  size_t p = 0;
  while (p < a.size()) {
    size_t q = a.find('\n', p);
    if (q == std::string::npos) q = a.size();
    std::string s = a.substr(p, q - p);
    size_t e = s.find('=');
    if (e != std::string::npos) r.emplace_back(s.substr(0, e), s.substr(e + 1));
    p = q + 1;
  }
  return r;
}

// ---- text helpers ----------------------------------------------------------
static bool utf8ok(const std::string& s) { return model::validUtf8(s); }
static std::string joinList(const std::vector<std::string>& v, const char* sep = " | ") {
  std::string r;
  for (size_t i = 0; i < v.size() && i < 60; i++) r += (i ? sep : "") + v[i];
  return r;
}
static std::string concat(const std::vector<std::string>& v) { std::string r; for (auto& s : v) r += s; return r; }
static bool onlyComments(const std::string& t) {
  size_t p = 0;
  while (p < t.size()) {
    size_t q = t.find('\n', p);
    if (q == std::string::npos) q = t.size();
    if (q > p && t[p] != '#') return false;
    p = q + 1;
  }
  return true;
}

static void syscallRename(const std::string& a, const std::string& b) { syscall(SYS_renameat, AT_FDCWD, a.c_str(), AT_FDCWD, b.c_str()); }
static void truncateFile(const std::string& p, size_t n) { syscall(SYS_truncate, p.c_str(), (long)n); }

// ---- the world -------------------------------------------------------------
static const std::string& baseFile(const char* name) {
  static std::map<std::string, std::string> m;
  auto it = m.find(name);
  if (it != m.end()) return it->second;
  std::string s;
  readAll(std::string(SIM_DATA_DIR) + "/" + name, &s);
  return m[name] = s;
}
static const std::string kBaseDict =
    "{\"services\":[{\"name\":\"萌典\",\"url_template\":\"https://www.moedict.tw/(encoded)\"},"
    "{\"name\":\"查詢\",\"url_template\":\"https://dict.example/?q=(encoded)&lang=zh#top\"}]}";
const std::string& World::base(int f) const {
  static const std::string none;
  if (f < F_N && !synth_[f].empty()) return synth_[f];
  if (f == F_MAIN) return baseFile("main.txt");
  if (f == F_PLAIN) return baseFile("plain.txt");
  if (f == F_ASSOC) return baseFile("assoc.txt");
  if (f == F_DICT) return kBaseDict;
  return none;
}
static std::shared_ptr<model::BuiltIn> builtin(const std::string& t) {
  static std::map<std::string, std::shared_ptr<model::BuiltIn>> c;
  auto& p = c[t];
  if (!p) p = model::BuiltIn::parse(t);
  return p;
}
static std::shared_ptr<model::AssocData> assocData(const std::string& t) {
  static std::map<std::string, std::shared_ptr<model::AssocData>> c;
  auto& p = c[t];
  if (!p) p = model::AssocData::parse(t);
  return p;
}

std::string World::path(int f) const {
  const std::string& R = env.root;
  switch (f) {
    case F_USER: return R + "/home/data/fcitx5/mcbopomofo/data.txt";
    case F_EXCL: return R + "/home/data/fcitx5/mcbopomofo/exclude-phrases.txt";
    case F_REPL: return R + "/home/data/fcitx5/mcbopomofo/phrases-replacement.txt";
    case F_DICT: return R + "/usr/fcitx5/data/mcbopomofo-dictionary-service.json";
    case F_MAIN: return R + "/usr/fcitx5/data/mcbopomofo-data.txt";
    case F_PLAIN: return R + "/usr/fcitx5/data/mcbopomofo-data-plain-bpmf.txt";
    case F_ASSOC: return R + "/usr/fcitx5/data/mcbopomofo-associated-phrases-v2.txt";
    default: return R + "/home/config/fcitx5/conf/mcbopomofo.conf";
  }
}
Disk World::look(int f) const {
  Disk d;
  std::string p = path(f);
  if (!exists(p)) return d;
  if (isDir(p)) { d.kind = 2; return d; }
  d.kind = 1;
  readAll(p, &d.data);
  return d;
}

World::World(const std::string& root) {
  env.root = root;
  mkdirs(root + "/home/data/fcitx5");
  mkdirs(root + "/home/config/fcitx5");
  mkdirs(root + "/usr/fcitx5/addon");
  mkdirs(root + "/usr/fcitx5/inputmethod");
  mkdirs(root + "/usr/fcitx5/data");
  mkdirs(root + "/etc");
  writeAll(root + "/usr/fcitx5/addon/mcbopomofo.conf",
           "[Addon]\nName=McBopomofo\nCategory=InputMethod\nType=StaticLibrary\nLibrary=mcbopomofo\nOnDemand=True\nConfigurable=True\n");
  writeAll(root + "/usr/fcitx5/addon/notifications.conf", "[Addon]\nName=Notifications\nCategory=Module\nType=StaticLibrary\nLibrary=notifications\nOnDemand=True\n");
  writeAll(root + "/usr/fcitx5/inputmethod/mcbopomofo.conf", "[InputMethod]\nName=McBopomofo\nLangCode=zh_TW\nAddon=mcbopomofo\nConfigurable=True\nLabel=M\n");
  writeAll(root + "/usr/fcitx5/inputmethod/mcbopomofo-plain.conf", "[InputMethod]\nName=Plain\nLangCode=zh_TW\nAddon=mcbopomofo\nConfigurable=True\nLabel=P\n");
  for (int f : {F_MAIN, F_PLAIN, F_ASSOC, F_DICT}) writeAll(path(f), base(f));
  m.userDir = root + "/home/data/fcitx5/mcbopomofo";
  m.now = [] { return (double)(env.clockNs / 1000000000) + (double)(env.clockNs % 1000000000) / 1e9; };
  m.lm.macro = [this](const std::string& n) {
    if (n.compare(0, 6, "MACRO@") == 0) st.macros++;
    return model::macroValue(n, env.clockNs);
  };
  m.onAdd = [this](const std::string&, const std::string&) {
    addSeen_ = true;
    reloadUser();
    if (look(F_USER).kind != 1)  // nothing to add to: whether the other files are looked at again is open
      for (int f : {F_EXCL, F_REPL}) { uncertain_[f] = true; versions_[f].insert(versions_[f].end(), held_[f].begin(), held_[f].end()); }
    m.snapshotStale = true;
    return true;
  };
  env.onEdit = [this] {
    const FaultPlan& p = env.plan;
    int f = p.editFile;
    Disk d = look(f);
    std::string file = path(f);
    bool appears = p.editMode == "create";
    if (appears ? d.kind == 2 || !isDir(file.substr(0, file.rfind('/'))) : d.kind != 1) return;
    env.edited = true;
    edited_ = f;
    editedFrom_ = d.data;
    torn_ = p.editMode != "atomic" && !appears;
    st.midEdits++;
    if (p.editMode == "atomic" || appears) { writeAll(file + ".tmp", p.editData); stampPath(file + ".tmp", nextMtimeNs()); syscallRename(file + ".tmp", file); }
    else if (p.editMode == "trunc") { truncateFile(file, (size_t)atoll(p.editData.c_str()) % (d.data.size() + 1)); stampPath(file, nextMtimeNs()); }
    else { writeAll(file, p.editData); stampPath(file, nextMtimeNs()); }
    before_[f] = look(f);
    versions_[f].push_back(before_[f].data);
    if (torn_ || !utf8ok(before_[f].data)) dirty_ = true;
  };
  env.clockNs = 1700000000ll * 1000000000ll;
}

void World::fail(const std::string& kind, const std::string& text) {
  if (failed) return;
  if (!kinds.empty() && (" " + kinds + " ").find(" " + kind + " ") == std::string::npos) {
    // not what this check is about: go on from the next common point
    st.otherKinds++;
    // (a text beside the composition says nothing about what follows)
    if (up && kind != "tip" && kind != "status" && kind != "accepted") becomeUnknown(kind.c_str());
    return;
  }
  failed = true;
  bad.kind = kind;
  bad.text = "at `" + lastOp_ + "`: " + text;
}

template <class F> bool World::guarded(const FaultPlan& p, F f) {
  opBegin(p);
  if (sigsetjmp(env.crashJmp, 0) == 0) {
    env.crashArmed = true;
    f();
    opEnd();
    return true;
  }
  env.inProduct = false;
  opEnd();
  return false;
}

void World::snapshot() { for (int f : {F_USER, F_EXCL, F_REPL, F_DICT, F_CONF}) before_[f] = look(f); for (int f : {F_USER, F_EXCL, F_REPL}) held_[f] = versions_[f]; }

// ---- data in force ---------------------------------------------------------
void World::reloadUser() {
  st.reloads++;
  bool faulted = env.firedInOp > 0;
  if (!env.edited) torn_ = false;
  for (int f : {F_USER, F_EXCL, F_REPL}) {
    Disk d = look(f);
    fileTouched_[f] = false;
    if (env.edited && f == edited_) {  // edited while it was being loaded: the one or the other
      uncertain_[f] = true;
      versions_[f].push_back(editedFrom_);
      versions_[f].push_back(d.kind == 1 ? d.data : std::string());
      if (torn_) versions_[f].push_back(std::string());
      continue;
    }
    if (faulted || tainted_) { uncertain_[f] = true; versions_[f].push_back(d.kind == 1 ? d.data : std::string()); versions_[f].push_back(std::string()); continue; }
    if (d.kind == 1) {
      if (!uncertain_[f] || m.grid.rd.empty()) versions_[f].clear();  // otherwise what is being composed may come from any of them
      uncertain_[f] = false;
      versions_[f].push_back(d.data);
      if (f == F_USER) m.lm.setUser(d.data);
      if (f == F_EXCL) m.lm.setExcl(d.data);
      if (f == F_REPL) { m.lm.setRepl(d.data); m.lm.replOn = true; }
    } else if (f == F_REPL && d.kind == 0) {
      if (!uncertain_[f] || m.grid.rd.empty()) versions_[f].clear();
      uncertain_[f] = false;
      versions_[f].push_back(std::string());
      m.lm.replOn = false;
    } else {
      uncertain_[f] = true;  // a file that has vanished or is no file: what it gave before, or nothing
      versions_[f].push_back(std::string());
    }
  }
}
void World::loadBuiltin(bool plain) {
  int f = plain ? F_PLAIN : F_MAIN;
  Disk d = look(f);
  if (env.firedInOp > 0 || d.kind != 1 || d.data != base(f)) { builtinUnknown = true; return; }
  builtinUnknown = false;
  m.lm.main = builtin(d.data);
}

void World::becomeUnknown(const char*) {
  if (!unknown) st.unknownEntered++;
  unknown = true;
}
// Brings both sides to a common point by a client reset.
void World::resync() {
  if (!unknown || builtinUnknown || !up || focus < 0) return;
  opBegin(FaultPlan());
  host.resetIC(focus);
  opEnd();
  m.resetFromEvent();
  m.panel.clear();
  unknown = false;
  uomTrusted = false;
  tieSeen_ = false;
  obs = host.observe(focus);
}

bool World::excusable() const {
  return m.fx.tie || tieSeen_ || (!uomTrusted && !m.plain) || uncertain_[F_USER] || uncertain_[F_EXCL] || uncertain_[F_REPL] ||
         confUnknown_ || assocUnknown_ || servicesUnknown_ || fileTouched_[F_USER] || fileTouched_[F_EXCL] || fileTouched_[F_REPL] || !(m.stored == m.inForce);
}

// Every candidate shown is one that some complete version of each file allows.
bool World::allowedList(const std::vector<std::string>& got) const {
  if (m.st->t != model::Choosing && !builtinUnknown) return true;
  std::set<std::string> ok;
  model::LM lm = m.lm;
  std::vector<std::string> keys;
  const auto& rd = m.grid.rd;
  for (size_t a = 0; a < rd.size(); a++)
    for (size_t l = 1; l <= 6 && a + l <= rd.size(); l++) keys.push_back(model::joinReadings({rd.begin() + (long)a, rd.begin() + (long)(a + l)}));
  auto v = [&](int f) {  // the different versions: many loads may have added the same one
    std::set<std::string> x(versions_[f].begin(), versions_[f].end());
    if (f == F_REPL || x.empty()) x.insert(std::string());
    return x;
  };
  auto all = [&] {
    for (auto& g : got) {
      if (ok.count(g)) continue;
      size_t p = g.rfind(" (");
      if (p != std::string::npos && ok.count(g.substr(0, p))) continue;
      return false;
    }
    return true;
  };
  for (auto& u : v(F_USER)) {
    lm.setUser(u);
    for (auto& e : v(F_EXCL)) {
      lm.setExcl(e);
      for (auto& r : v(F_REPL)) {
        lm.setRepl(r);
        lm.replOn = !r.empty();
        for (auto& k : keys) for (auto& x : lm.get(k)) ok.insert(x.v);
        if (all()) return true;
      }
    }
  }
  return all();
}

// ---- checks ----------------------------------------------------------------
bool World::invariants(const Obs& o, int ic) {
  if (env.forbidden) { fail("process", "the product called " + env.forbiddenWhat); return false; }
  if (!o.preedit.empty()) {
    if (o.cursor < 0 || o.cursor > (int)o.preedit.size()) { fail("caret", "caret " + std::to_string(o.cursor) + " outside of the composing text [" + o.preedit + "]"); return false; }
    if (!dirty_ && o.cursor < (int)o.preedit.size() && ((unsigned char)o.preedit[(size_t)o.cursor] & 0xC0) == 0x80) {
      fail("caret", "caret " + std::to_string(o.cursor) + " inside a character of [" + o.preedit + "]");
      return false;
    }
  }
  if (!dirty_) {
    if (!utf8ok(o.preedit)) { fail("garbage", "composing text is not valid text: [" + pct(o.preedit) + "]"); return false; }
    for (auto& c : o.commits) if (!utf8ok(c)) { fail("garbage", "delivered text is not valid text: [" + pct(c) + "]"); return false; }
    for (auto& c : o.list) if (!utf8ok(c)) { fail("garbage", "candidate is not valid text: [" + pct(c) + "]"); return false; }
  }
  if (!host.tips.empty()) { fail("status", "a notification is shown without a reason: " + host.tips[0][1]); return false; }
  if (o.otherPreedit) { fail("preedit", "composing text is shown in the wrong place for this client"); return false; }
  if (host.draws(ic) && o.told != o.preedit) {
    fail("preedit", "the client was told to draw [" + o.told + "] while the composing text is [" + o.preedit + "]");
    return false;
  }
  if (host.draws(ic) && o.toldStale) { fail("caret", "the client draws [" + o.told + "] with an outdated caret or highlight"); return false; }
  if (!o.stale.empty()) { fail(o.staleKind, "nobody asked for it to be drawn anew: still shown is " + o.stale); return false; }
  return true;
}

std::string World::describe() const {
  std::string r = "state=" + std::string(model::kStateName[m.st->t]) + " readings=" + model::joinReadings(m.grid.rd) + " cursor=" + std::to_string(m.grid.cursor) +
                  " pending=" + m.reading->display() + (m.plain ? " plain" : "");
  return r;
}

bool World::checkStarts() {
  std::vector<std::string> got, want;
  for (auto& s : env.starts) got.push_back(joinList(s, " "));
  for (auto& s : m.fx.starts) want.push_back(joinList(s, " "));
  if (got != want) { fail("starts", "started [" + joinList(got) + "], expected [" + joinList(want) + "]"); return false; }
  for (size_t i = 0; i < env.starts.size(); i++)
    if (env.starts[i][0] == "/bin/sh" && env.startDirs[i] != m.userDir && !(env.startDirs[i].empty() && tainted_)) { fail("starts", "hook started in [" + env.startDirs[i] + "]"); return false; }
  st.starts += got.size();
  return true;
}

// A toggle says, where the desktop can show it, what it has led to.
bool World::checkNotice(bool half, bool on) {
  auto tips = host.tips;
  host.tips.clear();
  if (tips.empty() && !desktop_) return true;
  std::string all;
  for (auto& t : tips) all += t[1] + ": " + t[2] + " ";
  auto lower = [](std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; };
  bool ok = desktop_ && tips.size() == 1;
  if (ok) {
    std::string title = lower(tips[0][1]), text = lower(tips[0][2]);
    auto says = [](const std::string& s, const char* w) { return s.find(w) != std::string::npos; };
    if (half) ok = says(title, on ? "half" : "full") && !says(title, on ? "full" : "half") && says(text, on ? "half" : "full") && !says(text, on ? "full" : "half");
    else ok = title == (on ? "associated phrases on" : "associated phrases off") && says(text, "disabled") == !on && says(text, "shift + enter") == (on && !m.plain);
  }
  if (!ok) fail("status", std::string("turning ") + (half ? "half-width punctuation" : "associated phrases") + (on ? " on" : " off") + " is announced as [" + all + "]");
  return ok;
}

// What a settings dialog shows is what is in force or will be at the next activation.
bool World::checkSettings() {
  if (confUnknown_ || failed) return !failed;
  model::Config c = confDefaults();
  auto got = host.settings();
  for (auto& kv : got) applyConf(&c, kv.first, kv.second);
  if (!(c == m.stored)) {
    std::string s;
    for (auto& kv : got) s += kv.first + "=" + kv.second + " ";
    fail("conf", "the settings read back are not those that were set: " + s);
  }
  return !failed;
}

// The user's files change only by an add, and then by exactly one line.
bool World::checkFiles(bool crashed) {
  for (int f : {F_EXCL, F_REPL, F_DICT}) {
    Disk d = look(f);
    if (!(d == before_[f])) { fail(f == F_DICT ? "process" : "userfile", std::string("the product changed the file ") + kFileName[f]); return false; }
  }
  Disk a = before_[F_USER], b = look(F_USER);
  if (a == b && m.fx.adds.empty()) return true;
  bool loose = uncertain_[F_USER] || uncertain_[F_EXCL] || uncertain_[F_REPL];
  if (loose && !unknown && !builtinUnknown && a.kind == 1) {
    // Whether the phrase counts as new depends on what could be loaded.
    bool had = false, grew = b.data.size() > a.data.size() && b.data.compare(0, a.data.size(), a.data) == 0;
    if (!m.fx.adds.empty()) {
      auto vs = held_[F_USER];
      vs.push_back(a.data);
      for (auto& v : vs) for (auto& p : model::parsePairs(v)) if (p.first == m.fx.adds[0].second && p.second == m.fx.adds[0].first) had = true;
    }
    if (m.fx.adds.empty() ? grew : (had && a == b)) { becomeUnknown("userfile"); return true; }
  }
  if (m.fx.adds.empty() && !unknown && !builtinUnknown) {
    fail("userfile", "the user phrase file changed without an add: [" + pct(b.data) + "]");
    return false;
  }
  if (unknown || builtinUnknown) {
    if (b.data.compare(0, a.data.size(), a.data) != 0) { fail("userfile", "stored phrases were lost or changed"); return false; }
    return true;
  }
  if (a.kind != 1) return true;  // nothing to add to: not specified
  auto& ad = m.fx.adds[0];
  std::string want = a.data;
  if (!want.empty() && want.back() != '\n') want += "\n";
  want += ad.second + " " + ad.first + "\n";
  bool hurt = crashed || env.firedInOp > 0;
  if (hurt) {
    st.addsFaulted++;
    bool fine = b.kind == 1 && b.data.size() >= a.data.size() && b.data.compare(0, a.data.size(), a.data) == 0 && want.compare(0, b.data.size(), b.data) == 0;
    if (!fine) { fail("userfile", "after a failed add the file holds [" + pct(b.data) + "], before [" + pct(a.data) + "]"); return false; }
    auto pa = model::parsePairs(a.data), pb = model::parsePairs(b.data);
    if (pb.size() < pa.size() || !std::equal(pa.begin(), pa.end(), pb.begin())) { fail("userfile", "a failed add made stored phrases unreadable: [" + pct(b.data) + "]"); return false; }
    return true;
  }
  if (tainted_ && a == b) return true;  // the user's folder was unusable at the start: a restart is needed
  st.adds++;
  if (b.data != want) { fail("userfile", "adding [" + ad.second + " " + ad.first + "] turned [" + pct(a.data) + "] into [" + pct(b.data) + "]"); return false; }
  auto pb = model::parsePairs(b.data);
  auto sentinel = model::parsePairs(a.data + (a.data.empty() || a.data.back() == '\n' ? "" : "\n") + "Sentinel/0 sentinel/1\n");
  if (sentinel.empty() || sentinel.back().second != "sentinel/1") return true;  // another program left a line that ends the reading of the file
  bool found = false;
  for (auto& p : pb) if (p.first == ad.second && p.second == ad.first) found = true;
  if (!found) { fail("userfile", "the added phrase [" + ad.second + " " + ad.first + "] cannot be read back from [" + pct(b.data) + "]"); return false; }
  return true;
}

void World::checkConf(const model::Config& a, const model::Config& b) {
  Disk d = look(F_CONF);
  if (d == before_[F_CONF]) return;
  if (d.kind != 1) { fail("conf", "the settings file has gone"); return; }
  bool ok;
  model::Config c = parseConf(path(F_CONF), &ok);
  if (!ok || !(c == a || c == b)) { fail("conf", "the settings file is neither the old nor the new one: [" + pct(d.data) + "]"); return; }
  // complete: every setting is there, so that nothing falls back to a default
  if (c == b && !(a == b)) {
    int n = 0;
    for (int i = 0; kConfKeys[i]; i++) if (d.data.find(std::string(kConfKeys[i]) + "=") != std::string::npos) n++;
    if (n < 15) fail("conf", "the settings file is incomplete: [" + pct(d.data) + "]");
  }
}

void World::abstractState(const std::string& op) {
  std::string s = std::string(model::kStateName[m.st->t]) + (m.plain ? "P" : "M") + (unknown ? "?" : "") + (builtinUnknown ? "!" : "") +
                  (up ? "u" : "d") + std::to_string(focus) + "," + std::to_string(std::min<size_t>(m.grid.rd.size(), 12)) + "," +
                  std::to_string(std::min<size_t>(m.grid.cursor, 12)) + "," + (m.reading->empty() ? "" : m.reading->hasTone() ? "t" : "r") +
                  m.inForce.layout + m.inForce.ctrlEnter[0] + (m.inForce.half ? "h" : "") + (m.inForce.assoc ? "a" : "") + (m.inForce.afterCursor ? "c" : "") +
                  (m.inForce.moveCursor ? "m" : "") + (m.inForce.escClears ? "e" : "") + (m.inForce.putLower ? "l" : "");
  for (int f : {F_USER, F_EXCL, F_REPL}) { s += fileTouched_[f] ? 'T' : '.'; s += uncertain_[f] ? 'U' : '.'; }
  size_t ov = 0;
  for (auto& n : m.walk.nodes) if (n->ovr) ov++;
  s += "," + std::to_string(std::min<size_t>(ov, 4)) + "," + std::to_string(std::min<size_t>(m.walk.nodes.size(), 8)) + "," +
       std::to_string(std::min<size_t>(m.uom.lru.size(), 20)) + "," + std::to_string(std::min<size_t>(m.lm.user.size(), 6)) + "," +
       std::to_string(std::min<size_t>(m.lm.excl.size(), 4)) + (m.lm.replOn ? "R" : "");
  uint64_t h = fnv(s);
  states.push_back(fnv(op, lastAbs_ * 31 + h));
  lastAbs_ = h;
}

// Compares the focused client with the model after an event.
void World::afterEvent(const char* what, bool followed, bool checkAccepted, bool accepted, bool mAccepted) {
  if (m.uom.observed != observed_) {  // the context a pick is learned in depends on what is loaded
    observed_ = m.uom.observed;
    if (uncertain_[F_USER] || uncertain_[F_EXCL] || uncertain_[F_REPL]) uomTrusted = false;
  }
  st.events++;
  obs = host.observe(focus);
  hash = fnv(obs.preedit + "|" + std::to_string(obs.cursor) + "|" + joinList(obs.list) + "|" + concat(obs.commits) + (accepted ? "A" : "-"), hash);
  for (auto& s : env.starts) { std::string j = joinList(s, " "); size_t p = j.find(env.root); if (p != std::string::npos) j.erase(p, env.root.size()); hash = fnv(j, hash); }
  st.commits += obs.commits.size();
  if (obs.hasList) st.lists++;
  if (!invariants(obs, focus)) return;
  if (!followed || unknown || builtinUnknown) { st.unknownEvents++; abstractState(what); return; }
  st.compared++;
  if (m.fx.tie) { st.ties++; tieSeen_ = true; }
  const model::Panel& p = m.panel;
  std::string kind, text;
  std::string gotC = concat(obs.commits), wantC = concat(m.fx.commits);
  if (gotC != wantC) { kind = "commit"; text = "delivered [" + gotC + "], expected [" + wantC + "]"; }
  else if (obs.preedit != p.preedit) { kind = "preedit"; text = "composing text [" + obs.preedit + "], expected [" + p.preedit + "]"; }
  else if (obs.hasList != p.hasList) { kind = "window"; text = obs.hasList ? "a candidate window is up: " + joinList(obs.list) : "no candidate window, expected: " + joinList(p.list); }
  else if (obs.list != p.list) { kind = "list"; text = "candidates [" + joinList(obs.list) + "], expected [" + joinList(p.list) + "]"; }
  else if (checkAccepted && accepted != mAccepted) { kind = "accepted"; text = accepted ? "the key was swallowed" : "the key was passed on"; }
  else if (!p.preedit.empty() && obs.cursor != p.cursor) { kind = "caret"; text = "caret at " + std::to_string(obs.cursor) + " of [" + obs.preedit + "], expected " + std::to_string(p.cursor); }
  else if (p.marking) {
    std::string h, mk, t;
    bool seen = false;
    for (auto& s : obs.segs) { if (s.high) { mk += s.text; seen = true; } else (seen ? t : h) += s.text; }
    if (p.marked.empty() ? !mk.empty() : h != p.head || mk != p.marked || t != p.tail) { kind = "marked"; text = "marked [" + h + "<" + mk + ">" + t + "], expected [" + p.head + "<" + p.marked + ">" + p.tail + "]"; }
  }
  if (kind.empty() && obs.tip != p.tip) { kind = "tip"; text = "hint [" + obs.tip + "], expected [" + p.tip + "]"; }
  if (kind.empty() && !confUnknown_ && !icSecret[focus]) {
    auto lower = [](std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; };
    if (lower(obs.half) != (shownHalf_ ? "half width punctuation" : "full width punctuation")) { kind = "status"; text = "the status says [" + obs.half + "]"; }
    if (lower(obs.assoc) != (shownAssoc_ ? "associated phrases - on" : "associated phrases - off")) { kind = "status"; text = "the status says [" + obs.assoc + "]"; }
    std::set<std::string> want = {"mcbopomofo-half-width-punctuation", "mcbopomofo-associated-phrases"};
    if (!m.plain) { want.insert("mcbopomofo-user-phrases-edit"); want.insert("mcbopomofo-user-excluded-phrases-edit"); }
    if (desktop_) want.insert("chttrans");
    if (std::set<std::string>(obs.actions.begin(), obs.actions.end()) != want) { kind = "status"; text = "the status area offers " + joinList(obs.actions); }
  }
  if (kind.empty() && p.hasList) {
    const auto& w = obs.win;
    int g = w.page * w.pageSize + w.cursor;
    auto at = [&](int page, int hi) { return "page " + std::to_string(page) + " entry " + std::to_string(hi); };
    if (!w.present || w.pageSize != p.perPage) { kind = "nav"; text = "a page holds " + std::to_string(w.pageSize) + " entries"; }
    else if (w.cursor < 0 || w.cursor >= w.size) { kind = "nav"; text = "no entry of the page on show is highlighted (" + at(w.page, w.cursor) + ")"; }
    else if (w.page != p.page || (p.hi >= 0 && g != p.hi)) { kind = "nav"; text = "highlighted is " + at(w.page, g) + ", expected " + at(p.page, p.hi) + " of " + std::to_string(w.total); }
    else if (obs.layout != p.layout) { kind = "nav"; text = "layout " + std::to_string(obs.layout) + ", expected " + std::to_string(p.layout); }
    else for (int i = 0; i < w.size && kind.empty(); i++) {
      std::string want = p.shiftLabels ? "⇧" + std::to_string(i + 1) + ". " : std::string(1, p.selKeys[(size_t)i]) + ". ";
      if (obs.labels[(size_t)i] != want) { kind = "nav"; text = "entry " + std::to_string(i) + " is labelled [" + obs.labels[(size_t)i] + "], expected [" + want + "]"; }
    }
  }
  if (!kind.empty()) {
    bool listish = kind == "list" || kind == "window";
    if (excusable() && !(listish && obs.hasList && !torn_ && !allowedList(obs.list))) { becomeUnknown(kind.c_str()); }
    else {
      // which dictionaries a menu offers also decides what a choice starts
      if (listish && m.st->t == model::SelDict && (" " + kinds + " ").find(" menu ") != std::string::npos) kind = "menu";
      fail(kind, text + " (" + describe() + ")");
      return;
    }
  } else if (!checkStarts()) return;
  if (m.grid.rd.empty()) tieSeen_ = m.fx.tie && false;
  abstractState(what);
  if (unknown) resync();
}

void World::onCrash() {
  st.crashes++;
  up = false;
  focus = -1;
  host.abandon();
  unknown = false;
}

// ---- events ----------------------------------------------------------------
void World::activated(int i, bool switched) {
  st.activations++;
  bool plain = icPlain[i];
  bool modeChange = plain != m.plain;
  if (modeChange) loadBuiltin(plain);
  m.activate(plain);
  shownHalf_ = m.stored.half;
  shownAssoc_ = m.stored.assoc;
  reloadUser();
  if (unknown) { unknown = false; uomTrusted = false; }
  tieSeen_ = false;
  (void)switched;
}

bool World::doKey(const Op& op, const std::string& token) {
  if (!up || focus < 0) return true;
  fcitx::Key raw = parseKey(token);
  if (raw.sym() == FcitxKey_None) return true;
  st.keys++;
  Obs before = host.observe(focus, false);
  snapshot();
  bool accepted = false;
  m.fx = model::Effects();
  bool alive = guarded(op.plan, [&] { accepted = host.key(focus, raw); });
  bool mAccepted = false, followed = !unknown && !builtinUnknown;
  addSeen_ = false;
  if (!followed && (before.hasList || token.find("Tab") != std::string::npos)) uomTrusted = false;  // a pick may have been learned
  if (icSecret[focus]) {  // nothing of the input method is in the way
    if (!accepted) mAccepted = false;
  } else if (followed) {
    bool ok = m.key(raw.normalize(), raw, before.win, &mAccepted);
    if (!ok) { if (alive) fail("window", "a choice is pending but no candidate window is up (" + describe() + ")"); }
  }
  if (!checkFiles(!alive)) return false;
  if (!alive) { hash = fnv("crash", hash); onCrash(); return true; }
  if (failed) return false;
  if (host.releaseAccepted) { fail("accepted", "the release of a key was swallowed"); return false; }
  if (!followed) {
    Disk now = look(F_USER);
    if (!(now == before_[F_USER])) { reloadUser(); }
  }
  if (env.firedInOp && addSeen_) { /* whether the phrase was stored is read from the file at the next load */ }
  afterEvent(("k" + token).c_str(), followed, true, accepted, mAccepted);
  return !failed;
}

// What the definition file says. What a damaged one offers is not specified.
void World::loadServices() {
  m.services.clear();
  m.services.push_back({"", ""});
  servicesUnknown_ = env.firedInOp > 0;
  Disk d = look(F_DICT);
  if (d.kind != 1) return;
  json_object* o = json_tokener_parse(d.data.c_str());
  if (!model::validUtf8(d.data) || d.data.find('\0') != std::string::npos) servicesUnknown_ = true;
  if (!o) return;
  json_object* arr = nullptr;
  if (json_object_is_type(o, json_type_object) && json_object_object_get_ex(o, "services", &arr) && json_object_is_type(arr, json_type_array)) {
    for (size_t i = 0; i < json_object_array_length(arr); i++) {
      json_object *e = json_object_array_get_idx(arr, i), *n = nullptr, *u = nullptr;
      bool good = json_object_is_type(e, json_type_object) && json_object_object_get_ex(e, "name", &n) && json_object_object_get_ex(e, "url_template", &u) &&
                  json_object_is_type(n, json_type_string) && json_object_is_type(u, json_type_string) && model::validUtf8(json_object_get_string(n));
      std::string url = good ? json_object_get_string(u) : "";
      if (!good || url.find("(encoded)") == std::string::npos) continue;  // not a usable definition
      m.services.push_back({json_object_get_string(n), url});
    }
  }
  json_object_put(o);
}

void World::doStart(const Op& op) {
  if (up) return;
  st.sessions++;
  heldBefore_ = heldFiles();
  snapshot();
  opBegin(FaultPlan());
  desktop_ = op.args.size() > 0 && op.args[0] == "desktop";
  host.boot(desktop_);
  opEnd();
  m.start();
  env.starts.clear();
  bool loaded = false;
  bool alive = guarded(op.plan, [&] { loaded = host.loadAddon(); });
  bool hurt = !alive || env.firedInOp > 0;
  hash = fnv(alive ? "start" : "start-crash", hash);
  // existing files are left alone, missing ones appear with nothing but comments
  for (int f : {F_USER, F_EXCL, F_REPL, F_DICT, F_CONF}) {
    Disk now = look(f);
    if (before_[f].kind != 0) {
      if (!(now == before_[f])) { fail("createfile", std::string("starting changed the existing file ") + kFileName[f] + " into [" + pct(now.data) + "]"); return; }
      continue;
    }
    if (f == F_USER || f == F_EXCL) {
      if (now.kind == 1 && !onlyComments(now.data)) { fail("createfile", std::string("the new file ") + kFileName[f] + " holds [" + pct(now.data) + "]"); return; }
      if (now.kind == 2) { fail("createfile", std::string(kFileName[f]) + " was created as a directory"); return; }
      bool possible = !blockedDir();
      if (!hurt && possible && now.kind != 1) { fail("createfile", std::string("starting did not create the file ") + kFileName[f]); return; }
    } else if (now.kind != 0) { fail("createfile", std::string("starting created ") + kFileName[f]); return; }
  }
  if (!alive) { onCrash(); return; }
  if (env.forbidden) { fail("process", "the product called " + env.forbiddenWhat); return; }
  if (!env.starts.empty()) { fail("starts", "a program was started while starting"); return; }
  if (!loaded) { fail("dead", "the input method could not be loaded"); return; }
  up = true;
  focus = -1;
  unknown = false;
  dirty_ = false;
  for (int f : {F_USER, F_EXCL, F_REPL, F_DICT}) if (!utf8ok(look(f).data)) dirty_ = true;
  tainted_ = blockedDir() || env.firedCls[FC_MKDIR] || env.firedCls[FC_STAT];
  tieSeen_ = false;
  uomTrusted = true;
  bool ok;
  m.stored = parseConf(path(F_CONF), &ok);
  confUnknown_ = !ok || env.firedCls[FC_OPEN] > 0 || env.firedCls[FC_READ] > 0 || env.firedCls[FC_STAT] > 0;
  m.inForce = m.stored;
  for (int f : {F_USER, F_EXCL, F_REPL}) { versions_[f] = {std::string()}; fileTouched_[f] = false; uncertain_[f] = false; }
  m.lm.setUser("");
  m.lm.setExcl("");
  m.lm.setRepl("");
  m.lm.replOn = false;
  m.lm.main = nullptr;
  loadBuiltin(false);
  Disk as = look(F_ASSOC);
  assocUnknown_ = env.firedInOp > 0 || as.kind != 1 || as.data != base(F_ASSOC);
  m.lm.assoc = as.kind == 1 ? assocData(base(F_ASSOC)) : nullptr;
  if (builtinUnknown || assocUnknown_) dirty_ = true;
  reloadUser();
  loadServices();
  opBegin(FaultPlan());
  host.makeClients();
  opEnd();
  for (auto& p : icPlain) p = false;
  for (auto& p : icSecret) p = false;
  checkSettings();
}

bool World::blockedDir() const {
  for (const char* p : {"/home/data", "/home/data/fcitx5", "/home/data/fcitx5/mcbopomofo"}) {
    std::string q = env.root + p;
    if (exists(q) && !isDir(q)) return true;
  }
  return false;
}

// The client loses the focus; what was shown is delivered.
void World::doBlur(const Op& op, int next) {
  if (!up) return;
  int old = focus;
  Obs shown;
  if (old >= 0) shown = host.observe(old, false);
  snapshot();
  bool followed = !unknown && !builtinUnknown;
  m.fx = model::Effects();
  bool alive = guarded(op.plan, [&] { if (next >= 0) host.focusIn(next); else host.focusOut(old); });
  if (!checkFiles(!alive)) return;
  if (!alive) { hash = fnv("crash", hash); onCrash(); return; }
  st.focusChanges++;
  if (old >= 0) {
    Obs left = host.observe(old);
    std::string got = concat(left.commits), want = followed ? (m.panel.label ? "" : m.panel.preedit) : shown.preedit;
    bool fine = got == want;
    if (!followed && got.empty() && shown.preedit.compare(0, 1, "[") == 0) fine = true;  // a prompt
    if (!fine && followed && excusable() && got == shown.preedit) fine = true;
    if (!fine) { fail("commit", "leaving the client delivered [" + got + "], it showed [" + want + "]"); return; }
    hash = fnv("blur" + got, hash);
    if (env.forbidden || !env.starts.empty()) { fail("starts", "a program was started by a focus change"); return; }
  }
  m.resetFromEvent();
  m.panel.clear();
  focus = next;
  if (next >= 0) {
    if (icSecret[next]) { if (unknown) uomTrusted = false; unknown = false; }
    else activated(next, true);
    afterEvent("focus", true, false, true, true);
  } else {
    unknown = false;
    abstractState("blur");
  }
}

void World::drain() {
  if (!up || focus < 0) return;
  st.drains++;
  size_t limit = 60 + 6 * (obs.preedit.size() + m.grid.rd.size());
  for (size_t i = 0; i < limit && !failed && up; i++) {
    Obs o = host.observe(focus, false);
    if (o.preedit.empty() && !o.hasList) return;
    Op k;
    k.name = "k";
    static const char* const keys[] = {"Escape", "End", "BackSpace"};
    if (!doKey(k, keys[i % 3])) return;
  }
  if (failed || !up) return;
  obs = host.observe(focus, false);
  if (!obs.preedit.empty() || obs.hasList) fail("trap", "still composing [" + obs.preedit + "] after " + std::to_string(limit) + " Esc, End and Backspace");
}

// Another program works on a file.
bool World::doFile(const Op& op) {
  const std::string& n = op.name;
  auto arg = [&](size_t i) { return i < op.args.size() ? op.args[i] : std::string(); };
  auto ls = [](const std::string& p) { size_t q = p.rfind('/'); return p.substr(0, q); };
  if (n == "rmuser" || n == "block") {
    static const char* const lv[] = {"/home/data/fcitx5/mcbopomofo", "/home/data/fcitx5", "/home/data"};
    int l = atoi(arg(0).c_str());
    if (l < 0 || l > 2 || up) return true;  // the folder itself only goes while nothing runs
    rmrf(env.root + lv[l]);
    if (n == "block") { mkdirs(ls(env.root + lv[l])); writeAll(env.root + lv[l], "x"); }
    st.fileEdits++;
    return true;
  }
  if (n == "unblock") {
    for (const char* p : {"/home/data", "/home/data/fcitx5", "/home/data/fcitx5/mcbopomofo"}) if (exists(env.root + p) && !isDir(env.root + p)) rmrf(env.root + p);
    return true;
  }
  if (n == "mkuser") { if (!blockedDir()) mkdirs(ls(path(F_USER))); return true; }
  int f = fileByName(arg(0));
  if (f < 0) return true;
  bool mapped = f == F_MAIN || f == F_PLAIN || f == F_ASSOC;
  std::string p = path(f), dir = ls(p);
  if (n == "pad") {  // another program appends comments until the file has exactly so many bytes
    Disk d = look(f);
    size_t want = (size_t)atoll(arg(1).c_str());
    std::string how = arg(2), add;
    if (mapped || d.kind != 1 || want > (1u << 22)) return true;
    if (!d.data.empty() && d.data.back() != '\n') add = "\n";
    if (d.data.size() + add.size() + 2 > want) return true;
    size_t left = want - d.data.size() - add.size();
    while (left > 0) {
      size_t k = how == "long" || left < 130 ? left : 64;
      add += "#" + std::string(k - 2, 'x') + "\n";
      left -= k;
    }
    if (how == "open") add.back() = 'x';
    if (!writeAll(p, add, true)) return true;
    stampPath(p, nextMtimeNs());
  } else if (n == "restore") { rmrf(p); mkdirs(dir); writeAll(p, base(f)); stampPath(p, nextMtimeNs()); }
  else if (n == "put") {
    std::string mode = arg(1), data = arg(2);
    if (!isDir(dir)) { if (f == F_USER || f == F_EXCL || f == F_REPL) return true; mkdirs(dir); }
    if (isDir(p)) rmrf(p);
    if (mapped) mode = "atomic";
    if (mode == "append") { if (!writeAll(p, data, true)) return true; stampPath(p, nextMtimeNs()); }
    else if (mode == "atomic") {
      writeAll(p + ".tmp", data);
      stampPath(p + ".tmp", nextMtimeNs());
      syscallRename(p + ".tmp", p);
    } else {
      writeAll(p, data);
      stampPath(p, mode == "older" ? nextMtimeNs() - 400 * 86400ll * 1000000000ll : nextMtimeNs());
    }
    if (!utf8ok(data)) dirty_ = true;
  } else if (n == "trunc") {
    Disk d = look(f);
    if (d.kind != 1 || mapped) return true;
    size_t k = (size_t)atoll(arg(1).c_str()) % (d.data.size() + 1);
    truncateFile(p, k);
    stampPath(p, nextMtimeNs());
    if (!utf8ok(d.data.substr(0, k))) dirty_ = true;
  } else if (n == "del") { if (isDir(p)) rmrf(p); else rmrf(p); }
  else if (n == "away") { if (mapped || !exists(p)) return true; syscallRename(p, p + ".away"); }
  else if (n == "back") { if (!exists(p + ".away")) return true; if (isDir(p)) rmrf(p); syscallRename(p + ".away", p); }  // the very same file, with its old date
  else if (n == "mkdirfile") { rmrf(p); mkdirs(dir); mkdirs(p); stampPath(p, nextMtimeNs()); }
  st.fileEdits++;
  if (f <= F_REPL) {
    fileTouched_[f] = true;
    Disk d = look(f);
    versions_[f].push_back(d.kind == 1 ? d.data : std::string());
  }
  abstractState(n + arg(0) + arg(1).substr(0, 6));
  return true;
}

bool World::exec(const Op& op) {
  if (failed) return false;
  lastOp_ = formatOp(op);
  if (lastOp_.size() > 300) lastOp_.resize(300);
  st.ops++;
  const std::string& n = op.name;
  auto arg = [&](size_t i) { return i < op.args.size() ? op.args[i] : std::string(); };
  if (n == "data") {
    if (up) return true;
    SynthData d = synthesize(strtoull(arg(0).c_str(), nullptr, 10), baseFile("main.txt"), baseFile("plain.txt"), baseFile("assoc.txt"));
    synth_[F_MAIN] = d.main;
    synth_[F_PLAIN] = d.plain;
    synth_[F_ASSOC] = d.assoc;
    hot_ = d.hot;
    for (int f : {F_MAIN, F_PLAIN, F_ASSOC}) writeAll(path(f), base(f));
    return true;
  }
  if (n == "now") { env.clockNs = (int64_t)(atof(arg(0).c_str()) * 1e9); st.clockJumps++; }
  else if (n == "adv") {
    double d = atof(arg(0).c_str());
    env.clockNs += (int64_t)(d * 1e9);
    if (d > 0) { st.simSeconds += (uint64_t)d; env.monoNs += (int64_t)(d * 1e9); } else st.clockJumps++;
  } else if (n == "tz") {
    OutOfProduct o;
    setenv("TZ", arg(0).c_str(), 1);
    icu::TimeZone::adoptDefault(icu::TimeZone::createTimeZone(icu::UnicodeString::fromUTF8(arg(0))));
  } else if (n == "start") doStart(op);
  else if (n == "stop") {
    if (up) {
      snapshot();
      opBegin(FaultPlan());
      host.shutdown();
      opEnd();
      m.fx = model::Effects();
      checkFiles(false);
      up = false;
      focus = -1;
      unknown = false;
    }
  } else if (n == "crash") { if (up) onCrash(); }
  else if (n == "focus") { int i = atoi(arg(0).c_str()) % kClients; if (up && i != focus && i >= 0) doBlur(op, i); }
  else if (n == "blur") { if (up && focus >= 0) doBlur(op, -1); }
  else if (n == "close") {  // the client goes away; its text goes with it or to it, nowhere else
    int i = atoi(arg(0).c_str()) % kClients;
    if (up && i >= 0) {
      bool mine = i == focus;
      snapshot();
      m.fx = model::Effects();
      bool alive = guarded(op.plan, [&] { host.reopen(i); });
      if (!checkFiles(!alive)) return false;
      if (!alive) { onCrash(); return true; }
      if (env.forbidden || !env.starts.empty()) { fail("starts", "a program was started by a client going away"); return false; }
      icPlain[i] = host.isPlain(i);
      icSecret[i] = false;
      if (mine) {
        m.resetFromEvent();
        m.panel.clear();
        focus = -1;
        unknown = false;
        abstractState("close");
      } else if (focus >= 0) afterEvent("close", !unknown && !builtinUnknown, false, true, true);
    }
  } else if (n == "reload") {
    if (up) {
      snapshot();
      m.fx = model::Effects();
      bool alive = guarded(op.plan, [&] { host.reload(); });
      if (!checkFiles(!alive)) return false;
      if (!alive) { onCrash(); return true; }
      bool ok;
      if (!(look(F_CONF) == before_[F_CONF])) { fail("conf", "reading the settings changed the file"); return false; }
      m.stored = parseConf(path(F_CONF), &ok);
      confUnknown_ = !ok || env.firedInOp > 0;
      if (!checkSettings()) return false;
      if (focus >= 0) afterEvent("reload", !unknown && !builtinUnknown, false, true, true);
    }
  } else if (n == "icreset") {
    if (up && focus >= 0) {
      snapshot();
      bool followed = !unknown && !builtinUnknown;
      m.fx = model::Effects();
      bool alive = guarded(op.plan, [&] { host.resetIC(focus); });
      if (!checkFiles(!alive)) return false;
      if (!alive) { onCrash(); return true; }
      m.resetFromEvent();
      m.panel.clear();
      if (unknown) { unknown = false; uomTrusted = false; }
      tieSeen_ = false;
      (void)followed;
      afterEvent("icreset", true, false, true, true);
    }
  } else if (n == "draws") {  // another field of the same client, which draws the composing text or does not
    int i = atoi(arg(0).c_str()) % kClients;
    if (up && i >= 0 && i != focus) host.setDraws(i, arg(1) == "on");
  } else if (n == "secret" && arg(0) == "off") {
    if (up && focus >= 0 && icSecret[focus]) {
      snapshot();
      m.fx = model::Effects();
      bool alive = guarded(op.plan, [&] { host.setSecret(focus, false); });
      if (!checkFiles(!alive)) return false;
      if (!alive) { onCrash(); return true; }
      icSecret[focus] = false;
      activated(focus, true);
      afterEvent("secret", true, false, true, true);
    }
  } else if (n == "im" || n == "secret") {
    bool plain = arg(0) == "plain", secret = n == "secret";
    if (up && focus >= 0 && !icSecret[focus] && (secret || icPlain[focus] != plain)) {
      Obs shown = host.observe(focus, false);
      snapshot();
      bool followed = !unknown && !builtinUnknown;
      m.fx = model::Effects();
      bool alive = guarded(op.plan, [&] { if (secret) host.setSecret(focus, true); else host.setIM(focus, plain); });
      if (followed) m.deactivateSwitch(); else { m.resetHandler(); m.st = std::make_shared<model::State>(); m.panel.clear(); }
      if (!checkFiles(!alive)) return false;
      if (!alive) { onCrash(); return true; }
      if (secret) icSecret[focus] = true; else icPlain[focus] = plain;
      bool wasUnknown = !followed;
      if (wasUnknown) {
        Obs o = host.observe(focus);
        std::string got = concat(o.commits);
        if (got != shown.preedit && !(got.empty() && shown.preedit.compare(0, 1, "[") == 0)) { fail("commit", "switching the input method delivered [" + got + "], shown was [" + shown.preedit + "]"); return false; }
      }
      if (secret) { if (unknown) uomTrusted = false; unknown = false; tieSeen_ = false; } else activated(focus, true);
      afterEvent("im", true, false, true, true);
    }
  } else if (n == "k") { for (auto& t : op.args) if (!doKey(op, t)) return false; }
  else if (n == "syl") {  // the keys of syllables (joined by '-') on the layout in force
    for (auto& r : op.args)
      for (auto& s : model::splitReadings(r))
        for (char c : model::keysFor(m.layoutInForce, s)) if (!doKey(op, c == ' ' ? "space" : std::string(1, c))) return false;
  }
  else if (n == "click") {
    if (up && focus >= 0) {
      Obs before = host.observe(focus, false);
      if (before.hasList && before.win.total > 0) {
        int i = atoi(arg(0).c_str()) % before.win.total;
        snapshot();
        st.clicks++;
        bool followed = !unknown && !builtinUnknown;
        m.fx = model::Effects();
        bool done = false;
        bool alive = guarded(op.plan, [&] { done = host.click(focus, i); });
        if (followed) m.click((size_t)i);
        else uomTrusted = false;
        if (!checkFiles(!alive)) return false;
        if (!alive) { onCrash(); return true; }
        afterEvent("click", followed, false, true, true);
      }
    }
  } else if (n == "page") {  // the arrows (or the wheel) of the panel
    if (up && focus >= 0) {
      Obs before = host.observe(focus, false);
      bool followed = !unknown && !builtinUnknown, did = false;
      snapshot();
      m.fx = model::Effects();
      bool alive = guarded(op.plan, [&] { did = host.page(focus, arg(0) == "next"); });
      if (!checkFiles(!alive)) return false;
      if (!alive) { onCrash(); return true; }
      if (did) {
        st.clicks++;
        if (followed) m.page(before.win, arg(0) == "next");
        afterEvent("page", followed, false, true, true);
      }
    }
  } else if (n == "cfg" || n == "toggle") {
    if (up && (n == "cfg" || (focus >= 0 && !icSecret[focus]))) {
      snapshot();
      st.cfgs++;
      model::Config old = m.stored, now = old;
      m.fx = model::Effects();
      bool half = arg(0) == "half";
      if (n == "cfg") for (auto& kv : confPairs(arg(0))) applyConf(&now, kv.first, kv.second);
      else if (half) now.half = !now.half;
      else now.assoc = !now.assoc;
      bool did = false;
      bool alive = guarded(op.plan, [&] {
        did = n == "cfg" ? host.setConfig(confPairs(arg(0))) : host.action(half ? "mcbopomofo-half-width-punctuation" : "mcbopomofo-associated-phrases", focus);
      });
      if (alive && !did) { fail("conf", "the setting could not be changed"); return false; }
      if (!confUnknown_) {
        checkConf(old, now);
        if (failed) return false;
        if (alive && env.firedInOp == 0) {
          bool ok;
          Disk d = look(F_CONF);
          if (d.kind == 1 && !(parseConf(path(F_CONF), &ok) == now)) { fail("conf", "the changed setting was not stored: [" + pct(d.data) + "]"); return false; }
          if (d.kind == 0 && !(now == confDefaults())) { fail("conf", "the changed setting was not stored"); return false; }
        }
      }
      if (!alive) { before_[F_CONF] = look(F_CONF); if (checkFiles(true)) onCrash(); return !failed; }
      m.stored = now;
      if (n == "toggle") { if (half) shownHalf_ = m.inForce.half = now.half; else shownAssoc_ = m.inForce.assoc = now.assoc; }
      if (!checkFiles(false) || !checkSettings()) return false;
      if (confUnknown_) host.tips.clear();
      if (n == "toggle" && !confUnknown_ && !checkNotice(half, half ? now.half : now.assoc)) return false;
      if (focus >= 0) afterEvent(n.c_str(), true, false, true, true);
      else if (!checkStarts()) return false;
    }
  } else if (n == "menu") {
    if (up && focus >= 0 && !icPlain[focus] && !icSecret[focus] && !tainted_) {
      snapshot();
      m.fx = model::Effects();
      bool u = arg(0) == "user";
      bool alive = guarded(op.plan, [&] { host.action(u ? "mcbopomofo-user-phrases-edit" : "mcbopomofo-user-excluded-phrases-edit", focus); });
      if (!alive) { onCrash(); return true; }
      m.fx.starts.push_back({m.stored.openWith.empty() ? "xdg-open" : m.stored.openWith, path(u ? F_USER : F_EXCL)});
      if (!checkFiles(false)) return false;
      afterEvent("menu", true, false, true, true);
    }
  } else if (n == "drain") drain();
  else doFile(op);
  // what is opened is closed again, however the storage fails
  if (up && !failed && (n == "focus" || n == "im" || n == "toggle" || n == "cfg" || n == "reload" || n == "k")) {
    if (n != "k" || op.plan.active) {
      int held = heldFiles() - heldBefore_;
      if (held > kMostHeld) fail("leak", std::to_string(held) + " files are held open or mapped");
    }
  }
  return !failed;
}

void World::finish() {
  if (failed) return;
  lastOp_ = "end of run";
  if (up && focus >= 0) drain();
  if (!failed && up && focus >= 0) { Op b; b.name = "blur"; doBlur(b, -1); }
  if (!failed) { Op s; s.name = "stop"; exec(s); }
  st.learned = m.uom.observed;
  st.suggested = m.uom.suggested;
  st.forgotten = m.uom.expired;
  st.evicted = m.uom.dropped;
}
}  // namespace sim
