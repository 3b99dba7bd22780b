#include "gen.h"

#include <fcitx-utils/key.h>
#include <unicode/basictz.h>
#include <unicode/tztrans.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <sstream>

namespace sim {

// Violation kinds: commit preedit window list accepted caret marked history starts process userfile createfile conf
// garbage trap dead (and crash, hang: always reported)
const Profile kProfiles[] = {
    // id   kinds                                                        ops  quick thorough type edit cand raw feat sRet focus icr  im  cfg tog menu file bui dict ses clk mark prob lrn drn udir fault crash wild
    {"C01", "userfile list preedit commit window dead process", 70, 2100, 40000, 4, 2, 2, .3, 0, .2, 1.5, .2, .3, .2, .1, 0, 2, 0, 0, .7, .3, 6, 2.5, 0, .3, 0, .45, .25, false, "adds"},
    {"C02", "list preedit commit window dead", 70, 2300, 45000, 3, 1, 1, .2, 0, .1, 4, .2, 1, .3, .2, 0, 7, 0, 0, .4, .3, 2, 6, 0, .2, 0, 0, 0, true, "fileEdits"},
    {"C03", "list garbage commit preedit window dead trap accepted caret", 90, 2100, 40000, 5, 4, 5, .5, .2, .3, 1, .3, .4, .2, .2, 0, 6, 0, 0, .2, .3, 1.5, 2, .5, .2, 0, .03, 0, true, "fileEdits"},
    {"C04", "list preedit commit window dead accepted process starts trap caret userfile conf status createfile leak", 80, 2100, 40000, 4, 2, 2, .5, .5, .5, 3, .3, 1.5, .8, .3, .2, 2.5, 2, .6, 1.2, .5, 1.5, 2, .3, .3, .5, .3, .08, true, "faults"},
    {"C05", "createfile userfile dead list preedit commit", 40, 2300, 45000, 2, .5, .5, .1, 0, 0, 1, 0, .2, .1, 0, 0, 1, 0, 0, 5, .2, 3, 2, 0, .1, 4, .25, .2, false, "starts"},
    {"C06", "commit preedit trap garbage", 130, 1850, 40000, 8, 6, 5, 2, 2, 1, 5, 1, 1.2, .5, .3, .1, .2, 0, .1, .2, .2, 1, .3, .3, .5, 0, 0, 0, false, "commits"},
    {"C07", "preedit commit list history caret window", 160, 1700, 36000, 10, 12, 6, 1, .3, 1, .6, .2, .3, .7, .2, 0, .3, 0, 0, .1, .2, .7, .3, 1, .3, 0, 0, 0, false, "compared"},
    {"C08", "caret marked window accepted trap preedit garbage list", 160, 1700, 36000, 8, 8, 8, 5, 3, 2, .6, .3, .7, .9, .4, .1, .2, 0, .1, .1, .2, 1.5, .3, .3, 1, 0, 0, 0, false, "compared"},
    {"C09", "preedit list commit", 170, 1500, 32000, 2, 1, 1, .1, 0, 0, .7, .1, .5, .15, 0, 0, .1, 0, 0, .12, 3, .1, .1, 12, .1, 0, 0, 0, false, "learned"},
    {"C10", "list preedit commit window dead", 80, 2150, 42000, 3, 1.5, 1, .2, 0, .2, 4, .1, .8, .2, .3, 0, 6, 0, 0, .25, .3, 1.5, 6, 2.5, .2, 0, 0, 0, false, "fileEdits"},
    {"C11", "list commit preedit window", 60, 2100, 40000, 2, .6, 2, .1, 5, 0, .5, 0, .1, .05, 0, 0, 0, 0, 0, .05, 7, 0, 7, 0, .3, 0, 0, 0, false, "macros"},
    {"C12", "conf status nav preedit commit list window accepted dead caret", 70, 2100, 40000, 4, 3, 2, 1, .2, .3, 3, .1, .6, 6, 2, 0, 0, 0, 0, 1.3, .1, .5, .5, .2, .2, 0, .25, .2, false, "cfgs"},
    {"C13", "menu starts process preedit commit dead trap window userfile", 70, 2100, 40000, 3, 1.5, 2, .5, .5, .3, .7, .1, .3, 1.2, .2, 2, .3, 0, 2, 1.2, .1, 5, .2, .1, .4, 0, .06, 0, false, "starts"},
    {"C14", "list status preedit commit window dead accepted", 120, 1850, 38000, 7, 3, 5, 1.2, .5, 1, 3, .3, 5, .5, 1.3, 0, .3, 0, 0, .2, .3, .4, 1.5, 1.5, .3, 0, 0, 0, false, "activations"},
    {"C18", "nav window list menu accepted dead commit", 120, 1850, 38000, 5, 3, 16, 1, 3, 1, .5, .2, .6, 1.5, .4, 0, .3, 0, 1, .1, .2, .4, 1.5, .6, .2, 0, 0, 0, false, "lists"},
    {"C20", "commit preedit accepted dead", 120, 1850, 38000, 8, 7, 4, 9, 4, 2, .6, .3, .5, 2, .6, 0, .2, 0, 0, .1, .3, .5, .3, 1.5, .5, 0, 0, 0, false, "commits"},
    {"C19", "tip marked userfile", 120, 1850, 38000, 8, 12, 2, .8, .5, .5, .6, .3, .5, .5, .2, 0, 1, 0, .1, .2, .2, 5, .3, .5, .2, 0, 0, 0, false, "compared"},
};
const int kProfileCount = sizeof kProfiles / sizeof *kProfiles;
const Profile* profileOf(const std::string& id) {
  for (auto& p : kProfiles) if (id == p.id) return &p;
  return nullptr;
}

// ---- what there is to type ---------------------------------------------------
namespace {
struct Lex {
  std::vector<std::string> syl, single;          // readings of one syllable; those with one character in the single-character mode
  std::vector<std::string> byLen[7];
  std::map<std::string, std::vector<std::string>> values;
  std::vector<std::string> macroKeys, chars;
  std::vector<std::string> many, follow;         // readings with more than a page of candidates; readings of units that have associated phrases
};
const Lex& lex(const World& w) {
  static Lex l;
  if (!l.syl.empty()) return l;
  auto feed = [&](const std::string& text, bool main) {
    size_t p = 0;
    std::map<std::string, int> cnt;
    while (p < text.size()) {
      size_t q = text.find('\n', p);
      if (q == std::string::npos) q = text.size();
      std::string s = text.substr(p, q - p);
      p = q + 1;
      if (s.empty() || s[0] == '#' || s[0] == '_') continue;
      size_t a = s.find(' '), b = s.find(' ', a + 1);
      std::string k = s.substr(0, a), v = s.substr(a + 1, b - a - 1);
      cnt[k]++;
      if (!main) continue;
      auto& vs = l.values[k];
      if (vs.empty()) { size_t n = model::splitReadings(k).size(); if (n <= 6) l.byLen[n].push_back(k); if (n == 1) l.syl.push_back(k); }
      vs.push_back(v);
      if (v.compare(0, 6, "MACRO@") == 0 && (l.macroKeys.empty() || l.macroKeys.back() != k)) l.macroKeys.push_back(k);
      if (k.find('-') == std::string::npos) l.chars.push_back(v);
    }
    if (!main) for (auto& c : cnt) if (c.second == 1) l.single.push_back(c.first);
  };
  feed(w.base(F_MAIN), true);
  feed(w.base(F_PLAIN), false);
  for (auto& v : l.values) if (v.second.size() > 9) l.many.push_back(v.first);
  std::istringstream as(w.base(F_ASSOC));
  std::set<std::string> seen;
  for (std::string row; std::getline(as, row);) {
    size_t a = row.find('-'), b = a == std::string::npos ? a : row.find('-', a + 1);
    if (b == std::string::npos || row[0] == '#') continue;
    std::string k = row.substr(a + 1, b - a - 1);
    if (seen.insert(k).second) l.follow.push_back(k);
  }
  return l;
}
bool isMacro(const Lex& l, const std::string& k) { return std::find(l.macroKeys.begin(), l.macroKeys.end(), k) != l.macroKeys.end(); }
}  // namespace

Gen::Gen(uint64_t seed, const Profile& p, World& w) : r_(seed), p_(p), w_(w) { left_ = p.ops / 2 + (int)r_.below((uint64_t)p.ops); }

void Gen::push(const std::string& n, std::vector<std::string> a, bool faulty) {
  Op o;
  o.name = n;
  o.args = std::move(a);
  if (faulty) o.plan = plan();
  q_.push_back(o);
}
FaultPlan Gen::plan() {
  FaultPlan f;
  if (r_.chance(p_.crash)) {
    f.active = true;
    f.crashAt = 1 + (int)(r_.chance(.6) ? r_.below(14) : r_.below(60));
    return f;
  }
  if (!r_.chance(p_.fault)) return f;
  f.active = true;
  static const std::vector<int> c = {FC_OPEN, FC_OPEN, FC_OPEN, FC_STAT, FC_STAT, FC_MMAP, FC_READ, FC_READ, FC_WRITE, FC_WRITE, FC_WRITE, FC_MKDIR, FC_RENAME, FC_SYNC, FC_TRUNC};
  f.cls = r_.pick(c);
  f.at = 1 + (int)(r_.chance(.7) ? r_.below(4) : r_.below(14));
  f.count = r_.chance(.5) ? 1 : r_.chance(.5) ? 2 + (int)r_.below(3) : 999;
  static const std::vector<int> e = {5, 28, 13, 24, 2, 12, 30, 4};  // EIO ENOSPC EACCES EMFILE ENOENT ENOMEM EROFS EINTR
  f.err = r_.pick(e);
  // the disk fills up in the middle of a line
  if (!strcmp(p_.id, "C01") && r_.chance(.2)) { f.cls = FC_WRITE; f.at = 1; f.count = 2 + (int)r_.below(4); f.shortLen = 1 + (int)r_.below(40); f.err = r_.chance(.7) ? 28 : 5; return f; }
  if ((f.cls == FC_WRITE || f.cls == FC_READ) && r_.chance(.5)) f.shortLen = 1 + (int)r_.below(24);
  return f;
}
void Gen::start(bool faulty) {
  if (r_.chance(.5)) push("start", {"desktop"}, faulty); else push("start", {}, faulty);
  if (!strcmp(p_.id, "C05") && !q_.back().plan.active && r_.chance(.15)) {
    // a file arrives (or is replaced) by another way while the input method starts
    FaultPlan& p = q_.back().plan;
    p.active = true;
    p.editAt = 1 + (int)r_.below(30);
    p.editFile = r_.chance(.6) ? F_USER : F_EXCL;
    p.editMode = "create";
    p.editData = content(p.editFile);
  }
}
void Gen::key(const std::string& k, bool faulty) {
  // the lock key of the number pad is usually on, and shows in every event
  bool plus = numLock_ && k.size() > 0 && k.find('+') == std::string::npos;
  push("k", {(plus ? "NumLock+" : "") + k}, faulty);
}
void Gen::keys(const std::string& s) {
  size_t p = 0;
  while (p < s.size()) {
    size_t q = s.find(' ', p);
    if (q == std::string::npos) q = s.size();
    if (q > p) key(s.substr(p, q - p));
    p = q + 1;
  }
}

std::string Gen::syllable() {
  if (!w_.hot_.empty() && r_.chance(.5)) for (int i = 0; i < 4; i++) { auto& x = r_.pick(w_.hot_); if (x.find('-') == std::string::npos) return x; }
  return r_.pick(lex(w_).syl);
}
std::string Gen::reading(int maxLen) {
  const Lex& l = lex(w_);
  if (!pool_.empty() && r_.chance(.6)) { auto& x = r_.pick(pool_); if ((int)model::splitReadings(x).size() <= maxLen) return x; }
  if (!w_.hot_.empty() && r_.chance(.6)) { auto& x = r_.pick(w_.hot_); if ((int)model::splitReadings(x).size() <= maxLen) return x; }
  for (int i = 0; i < 20; i++) {
    int n = 1 + (int)r_.below((uint64_t)std::min(maxLen, 4));
    if (!l.byLen[n].empty()) return r_.pick(l.byLen[n]);
  }
  return syllable();
}
std::string Gen::value(const std::string& rd) {
  const Lex& l = lex(w_);
  double d = (double)r_.below(100);
  auto it = l.values.find(rd);
  if (d < 40 && it != l.values.end()) return r_.pick(it->second);
  if (d < 60 && !values_.empty()) return r_.pick(values_);
  if (!strcmp(p_.id, "C13") ? r_.chance(.3) : r_.chance(.01)) {
    static const std::vector<std::string> odd = {"C&A=", "50%", "a+b", "q?x#y", "it's", "a/b:c@d", "~x_-.", "\"x\"", "é", "(encoded)", "%41", "a;b,c", "<x>|`^{}[]\\", "$HOME", "$(id)", "-f", "A1z9"};
    return r_.chance(.6) ? r_.pick(odd) : r_.pick(l.chars) + r_.pick(odd) + (r_.chance(.5) ? r_.pick(l.chars) : "");
  }
  if (d < 63) return r_.chance(.5) ? "😀🈶" : "𠮷野家";
  if (d < 66) return "abc" + std::to_string(r_.below(3));
  if (d < 68) return "MACRO@DATE_TODAY_SHORT";
  std::string v;
  size_t n = r_.chance(.8) ? model::splitReadings(rd).size() : 1 + r_.below(5);
  for (size_t i = 0; i < n; i++) v += r_.pick(l.chars);
  if (p_.wild && r_.chance(.05)) {  // bytes that look like text but are not: too long a form, half a pair, past the end
    static const std::vector<std::string> odd = {"\xc0\xaf", "\xc1\xbf", "\xe0\x80\xaf", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xed\xa0\xbd\xed\xb8\x80",
        "\xf0\x8f\xbf\xbf", "\xf0\x80\x80\xaf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\x80", "\xbf", "\xe4\xb8", "\xf0\x9f\x98",
        "\xfe", "\xff", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf4\x8f\xbf\xbf", "\xef\xbf\xbe", "\xef\xb7\x90", "\xef\xb7\xaf", "\xef\xb7\xb0", "\xf0\x9f\xbf\xbe", "\xef\xbf\xbd", "\xf0\x90\x80\x80", "\xe0\xa0\x80", "\xc2\x80"};
    const std::string& o = r_.pick(odd);
    v = r_.chance(.4) ? o : r_.chance(.5) ? v + o : o + v;
  }
  return v;
}
std::string Gen::garbage() {
  std::string s;
  size_t n = r_.below(200);
  for (size_t i = 0; i < n; i++) {
    double d = (double)r_.below(100);
    if (d < 20) s += '\n';
    else if (d < 40) s += ' ';
    else if (d < 50) s += (char)r_.below(256);
    else if (d < 52) s += '\0';
    else if (d < 60) s += r_.pick(lex(w_).syl);
    else if (d < 65) s += '#';
    else if (d < 70) s += '-';
    else s += (char)('0' + r_.below(70));
  }
  return s;
}
std::string Gen::line(bool user) {
  (void)user;
  std::string rd = reading();
  return value(rd) + " " + rd;
}
std::string Gen::content(int f) {
  if (p_.wild && r_.chance(.06)) return garbage();
  if (r_.chance(.05)) return "";
  std::string s;
  if (r_.chance(.4)) s += "# comment line\n";
  size_t n = r_.chance(.85) ? r_.below(6) : r_.below(60);
  for (size_t i = 0; i < n; i++) {
    std::string l;
    if (f == F_REPL) {
      std::string a = value(reading()), b = r_.chance(.25) && !values_.empty() ? r_.pick(values_) : value(reading());
      l = a + " " + b;
      if (!r_.chance(.2)) { values_.push_back(a); }
    } else l = line(f == F_USER);
    if (p_.wild || f != F_USER) {
      if (r_.chance(.05)) l = "  " + l;
      if (r_.chance(.05)) { size_t k = l.find(' '); if (k != std::string::npos) l.insert(k, "\t "); }
      if (r_.chance(.04)) l += " extra";
    }
    if (p_.wild && r_.chance(.02)) l = l.substr(0, l.find(' '));
    if (r_.chance(.05)) l += "\n# " + line(true);
    if (r_.chance(.05)) l += "\n";
    s += l + (p_.wild && r_.chance(.03) ? "\r\n" : "\n");
  }
  if (!s.empty() && r_.chance(.3)) s.pop_back();
  return s;
}

void Gen::begin() {
  begun_ = true;
  numLock_ = r_.chance(.15);
  const Lex& l = lex(w_);
  size_t n = 3 + r_.below(5);
  for (size_t i = 0; i < n; i++) {
    int len = 1 + (int)r_.below(3);
    std::string k = !w_.hot_.empty() && r_.chance(.7) ? r_.pick(w_.hot_) : r_.pick(l.byLen[len]);
    if (r_.chance(.12)) { k = syllable(); size_t m = 1 + r_.below(5); for (size_t j = 0; j < m; j++) k += "-" + syllable(); }
    pool_.push_back(k);
  }
  if (r_.chance(.3)) pool_.push_back(r_.pick(l.single));
  for (int i = 0; i < 3; i++) { std::string v; size_t m = 1 + r_.below(3); for (size_t j = 0; j < m; j++) v += r_.pick(l.chars); values_.push_back(v); }
  // the world as the input method finds it
  std::string id = p_.id;
  if (id == "C11" || r_.chance(.1)) clock();
  if (r_.chance(.15) || (id == "C14" && r_.chance(.5))) push("put", {"conf", "inplace", "AssociatedPhrasesEnabled=True\n"});
  bool pre = r_.chance(.4);
  if (id == "C05") pre = r_.chance(.35);
  if (pre) {
    push("mkuser");
    for (int f : {F_USER, F_EXCL, F_REPL}) if (r_.chance(f == F_REPL ? .3 : .6)) push("put", {kFileName[f], "atomic", content(f)});
  }
  if (id == "C05" && r_.chance(.6)) userDir();
  if (id == "C13") { if (r_.chance(.6)) dictFile(); if (r_.chance(.7)) push("put", {"conf", "inplace", "AddScriptHookEnabled=True\n"}); }
  if (id == "C04" && r_.chance(.3)) userDir();
  start(id == "C05" || id == "C04");
  if (r_.chance(.35) || id == "C12") cfg();
  push("focus", {std::to_string(r_.below(kClients))});
  if (r_.chance(.2) || (id == "C14" && r_.chance(.4))) push("im", {"plain"});
  if (id == "C20" && r_.chance(.9)) { push("cfg", {r_.chance(.5) ? "KeyHandlerCtrlEnter=output_bpmf_reading" : "KeyHandlerCtrlEnter=output_html_ruby_text"}); push("blur"); push("focus", {std::to_string(r_.below(kClients))}); }
  if (id == "C09" && r_.chance(.03)) scenario_ = 1;
}

void Gen::typeSome() {
  double d = (double)r_.below(100);
  if (w_.m.inForce.assoc && r_.chance(.04)) {  // a bracket, for which the data knows the other one
    key(std::string(1, "<<{[("[r_.below(5)]));
    if (r_.chance(.4)) { key("Down"); key(std::string(1, "123"[r_.below(3)])); }
    if (r_.chance(.6)) key(r_.chance(.5) ? "S1" : "Shift+Return");
  }
  else if (w_.m.inForce.assoc && r_.chance(.1)) {  // one associated phrase after the other
    push("syl", {syllable()});
    if (w_.m.plain) key(r_.chance(.7) ? "Return" : "2");
    for (size_t i = 1 + r_.below(4); i > 0; i--) key(r_.chance(.8) ? "S1" : "S2");
  }
  else if (!w_.m.plain && w_.m.grid.rd.size() < 40 && r_.chance(.006)) {  // a text much longer than usual
    std::vector<std::string> v;
    for (size_t i = 20 + r_.below(80); i > 0; i--) v.push_back(r_.chance(.8) ? syllable() : reading());
    push("syl", v);
    for (size_t i = r_.below(6); i > 0; i--) editKey();
  }
  else if (d < 55) push("syl", {syllable()});
  else if (d < 90) push("syl", {reading()});
  else {
    // part of a syllable, or a longer run
    std::string k = model::keysFor(w_.m.layoutInForce, syllable());
    if (k.size() > 1) k = k.substr(0, 1 + r_.below(k.size() - 1));
    for (char c : k) key(c == ' ' ? "space" : std::string(1, c));
  }
}
void Gen::editKey() {
  static const std::vector<std::string> k = {"Left", "Left", "Left", "Right", "Right", "Home", "End", "BackSpace", "BackSpace", "BackSpace", "Delete", "Delete", "Tab", "Tab", "Shift+ISO_Left_Tab",
                                             "Down", "Down", "space", "space", "Escape", "Return", "Shift+Left", "Shift+Left", "Shift+Right", "Shift+Right", "Shift+Home", "Shift+End",
                                             "Control+Return", "Shift+Return", "Up", "KP_Left", "KP_Right", "KP_Home", "KP_End", "KP_Enter", "KP_Delete", "KP_Down", "KP_Up", "Left", "Tab"};
  size_t n = r_.chance(.3) ? 1 + r_.below(4) : 1;
  std::string s = r_.pick(k);
  if ((s == "Return" || s == "KP_Enter" || s == "Escape") && r_.chance(.5)) s = "Left";
  for (size_t i = 0; i < n; i++) key(s, s == "Return");
}
void Gen::candKey() {
  // a candidate window is up
  double d = (double)r_.below(100);
  const std::string& sk = w_.m.panel.selKeys;
  bool shift = w_.m.st->t == model::AssocPlain || (w_.m.st->t == model::Assoc && w_.m.st->useShift);
  if (d < 30) {
    if (shift && r_.chance(.8)) key("S" + std::to_string(1 + r_.below(9)));
    else key(std::string(1, sk.empty() ? (char)('1' + r_.below(9)) : sk[r_.below(sk.size())]));
  } else if (d < 34) key("KP_" + std::to_string(1 + r_.below(9)));
  else if (d < 42) key(shift ? "Shift+Return" : "Return");
  else if (d < 47) push("click", {std::to_string(r_.below(40))}, r_.chance(.1));
  else if (d < 49) { push("page", {r_.chance(.7) ? "next" : "prev"}); if (r_.chance(.3)) push("page", {r_.chance(.7) ? "next" : "prev"}); if (r_.chance(.6)) key(r_.chance(.5) ? (shift ? "Shift+Return" : "Return") : r_.chance(.5) ? "question" : r_.chance(.5) ? "Shift+Return" : std::string(1, sk.empty() ? '1' : sk[r_.below(sk.size())])); }
  else if (d < 57) { static const std::vector<std::string> k = {"Right", "Left", "Page_Down", "Page_Up", "space", "Down", "Up", "Down", "space"}; size_t n = 1 + r_.below(4); std::string x = r_.pick(k); for (size_t i = 0; i < n; i++) key(x); }
  else if (d < 63) key("question");
  else if (d < 71) key("Escape");
  else if (d < 76) key("BackSpace");
  else if (d < 82) key(r_.chance(.5) ? "Shift+Left" : "Shift+Right");
  else if (d < 86) key(r_.chance(.5) ? "j" : "k");
  else if (d < 90) key("Shift+Return");
  else if (d < 94) editKey();
  else if (d < 97) typeSome();
  else rawKey();
}
void Gen::rawKey() {
  double d = (double)r_.below(100);
  if (d < 45) { char c = (char)(33 + r_.below(94)); if (w_.m.inForce.assoc && r_.chance(.35)) c = "<<{[("[r_.below(5)]; key(std::string(1, c)); }
  else if (d < 55) { static const std::vector<std::string> k = {"comma", "period", "slash", "apostrophe", "1", "backslash", "semicolon"}; key("Control+" + r_.pick(k)); }
  else if (d < 62) key("KP_" + std::to_string(r_.below(10)));
  else if (d < 68) { static const std::vector<std::string> k = {"KP_Add", "KP_Subtract", "KP_Multiply", "KP_Divide", "KP_Decimal"}; key(r_.pick(k)); }
  else if (d < 75) key(r_.chance(.6) ? "Shift+space" : "grave");
  else if (d < 82) { char c = (char)('A' + r_.below(26)); key(std::string(1, c)); }
  else if (d < 86) { static const std::vector<std::string> k = {"F1", "Insert", "Page_Up", "Page_Down", "Alt+a", "Control+a", "Menu", "Alt+Left", "Shift_R", "Control+Left", "Control+BackSpace",
      "CapsLock+a", "CapsLock+Return", "CapsLock+BackSpace", "CapsLock+1", "Super+a", "Super+Left", "Control+Shift+a", "Shift+KP_Left", "Shift+KP_Right", "Shift+Delete", "Shift+BackSpace", "Shift+Escape",
      "Control+Tab", "Control+Home", "Control+Delete", "Control+Escape", "Shift+Up", "Shift+Down", "Shift+Page_Down", "Control+j", "Control+Right", "Control_L", "Caps_Lock", "Mod5+a",
      "Alt+Return", "Alt+BackSpace", "dead_acute", "Multi_key", "XF86AudioMute", "eacute", "NumLock+KP_3", "NumLock+1", "KP_Begin", "KP_Enter", "Shift+KP_Enter", "Control+KP_Enter", "ISO_Left_Tab", "Linefeed", "Begin"}; key(r_.pick(k)); }
  else if (d < 93) key("S" + std::to_string(1 + r_.below(9)));
  else editKey();
}
void Gen::number() {
  size_t n = r_.below(5);
  for (size_t i = 0; i < n; i++) key(r_.chance(.1) ? "." : std::string(1, (char)('0' + r_.below(10))));
  if (r_.chance(.2)) key("BackSpace");
}
void Gen::feature() {
  bool num = w_.m.st->t == model::ChineseNumber || w_.m.st->t == model::EnclosingNumber;
  if (num) {
    static const std::vector<std::string> k = {"Return", "Return", "Return", "Escape", "BackSpace", "Delete", "space", "KP_5", "x", "Left", "."};
    if (r_.chance(.5)) number(); else if (w_.m.st->t == model::EnclosingNumber && r_.chance(.3)) { while (r_.chance(.7)) key("BackSpace"); keys(r_.chance(.5) ? "1 Return" : "1 0 Return"); } else key(r_.pick(k));
    return;
  }
  key("Control+backslash");
  if (r_.chance(.9)) {
    int i = (int)r_.below(5);
    if (!strcmp(p_.id, "C11")) i = 0;
    const std::string& sk = w_.m.stored.selKeys;
    for (int n = w_.m.stored.keyCount; i >= n; i -= n) key("Page_Down");
    key(std::string(1, sk[(size_t)i]));
    if (i == 0) { if (r_.chance(.3)) key("Page_Down"); key(r_.chance(.8) ? std::string(1, sk[r_.below(9)]) : r_.chance(.5) ? "Return" : "Escape"); }
    else { number(); if (r_.chance(.6)) key(r_.chance(.8) ? "Return" : "space"); }
  }
}
// Another program, or the user with an editor, has changed the settings file.
void Gen::confFile() {
  std::string s;
  size_t n = r_.below(6);
  for (size_t i = 0; i < n; i++) s += setting() + "\n";
  if (r_.chance(.1)) s += "Unknown=1\n";
  if (r_.chance(.1)) s += "SelectionKeys=xyz\n";
  if (r_.chance(.1)) push("del", {"conf"});
  else push("put", {"conf", r_.chance(.5) ? "atomic" : "inplace", s});
  if (r_.chance(.8)) push("reload");
  else { push("stop"); start(); }
  if (r_.chance(.8)) push("focus", {std::to_string(w_.focus >= 0 && r_.chance(.7) ? (uint64_t)(w_.focus + 1) % kClients : r_.below(kClients))});
}
std::string Gen::setting() {
  std::string s;
  size_t n = 1;
  auto add = [&](const char* k, const std::string& v) { s += std::string(s.empty() ? "" : "\n") + k + "=" + v; };
  auto b = [&] { return std::string(r_.chance(.5) ? "True" : "False"); };
  static const std::vector<std::string> lay = {"standard", "standard", "standard", "eten", "hsu", "et26", "hanyupinyin", "ibm"}, cl = {"Not Set", "Vertical", "Horizontal"},
                                        sk = {"123456789", "asdfghjkl", "asdfzxcvb"}, ce = {"disabled", "output_bpmf_reading", "output_html_ruby_text"};
  for (size_t i = 0; i < n; i++) {
    switch (r_.below(17)) {
      case 0: add("BopomofoKeyboardLayout", r_.pick(lay)); break;
      case 1: add("CandidateLayout", r_.pick(cl)); break;
      case 2: add("SelectionKeys", r_.pick(sk)); break;
      case 3: case 4: add("SelectPhrase", r_.chance(.5) ? "before_cursor" : "after_cursor"); break;
      case 5: case 6: add("MoveCursorAfterSelection", b()); break;
      case 7: add("AllowMovingCursorWhenChoosingCandidates", b()); break;
      case 8: add("EscKeyClearsEntireComposingBuffer", b()); break;
      case 9: add("ShiftLetterKeys", r_.chance(.5) ? "directly_output_uppercase" : "put_lowercase_to_buffer"); break;
      case 10: add("KeyHandlerCtrlEnter", r_.pick(ce)); break;
      case 11: add("OpenUserPhraseFilesWith", r_.chance(.3) ? "" : r_.chance(.5) ? "my-editor" : "xdg-open"); break;
      case 12: add("AddScriptHookPath", r_.chance(.3) ? "" : "/opt/x/hook " + std::to_string(r_.below(3)) + ".sh"); break;
      case 13: add("AddScriptHookEnabled", b()); break;
      case 16: add("SelectionKeysCount", std::to_string(3 + r_.below(8))); break;
      case 14: add("HalfWidthPunctuationEnable", b()); break;
      default: add("AssociatedPhrasesEnabled", b()); break;
    }
  }
  return s;
}
void Gen::cfg() {
  std::string s = setting();
  for (size_t i = r_.below(3); i > 0; i--) s += "\n" + setting();
  push("cfg", {s}, true);
  if (r_.chance(.15)) { push("cfg", {s}); if (r_.chance(.5)) { push("stop"); start(); push("focus", {std::to_string(r_.below(kClients))}); } }  // once more: the first time may have failed
  // in force at the next activation
  if (strcmp(p_.id, "C12") && r_.chance(.5)) push("focus", {std::to_string((size_t)(w_.focus + 1) % kClients)});
  else if (r_.chance(.6)) push("focus", {std::to_string(r_.below(kClients))});
}
void Gen::file() {
  int f = r_.chance(.5) ? F_USER : r_.chance(.5) ? F_EXCL : F_REPL;
  if (!strcmp(p_.id, "C10") && r_.chance(.5)) f = F_EXCL;
  double d = (double)r_.below(100);
  std::string name = kFileName[f];
  bool ok = p_.wild;
  auto remember = [&](const std::string& t) { history_.push_back(t); return t; };
  if (r_.chance(!strcmp(p_.id, "C02") || !strcmp(p_.id, "C10") ? .25 : .1)) {
    // a change that shows for a reading just looked at, and its undoing
    Disk was = w_.look(f);
    std::string rd = reading();
    bool plain = w_.focus >= 0 && w_.icPlain[w_.focus];
    if (plain) rd = model::splitReadings(rd)[0];
    auto us = w_.m.lm.get(rd);
    if (was.kind != 1 && f != F_REPL) return;
    std::string before = was.kind == 1 ? was.data : "";
    if (!before.empty() && before.back() != '\n') before += '\n';
    size_t n = us.empty() ? 0 : r_.below(std::min<size_t>(us.size(), 3));
    std::string shown = us.empty() ? value(rd) : us[n].v;
    if (shown.empty() || shown.find_first_of(" \t\n") != std::string::npos || shown[0] == '#') return;
    std::string other = us.size() > 1 && r_.chance(.5) ? us[r_.below(us.size())].v : value(r_.chance(.7) ? rd : reading());
    if (other.empty() || other.find_first_of(" \t\n") != std::string::npos || other[0] == '#') return;
    std::string more = f == F_USER ? other + " " + rd : f == F_EXCL ? shown + " " + rd : shown + " " + other;
    auto activate = [&] { push("focus", {std::to_string(w_.focus >= 0 && r_.chance(.8) ? (uint64_t)(w_.focus + 1) % kClients : r_.below(kClients))}); };
    if (r_.chance(.7)) probe(rd);
    push("put", {name, r_.chance(.6) ? "atomic" : r_.chance(.5) ? "inplace" : "older", remember(r_.chance(.8) ? before + more + "\n" : more + "\n" + before)});
    activate();
    probe(rd);
    if (f == F_REPL && (was.kind != 1 || r_.chance(.4))) push("del", {name});
    else push("put", {name, r_.chance(.6) ? "atomic" : r_.chance(.5) ? "inplace" : "older", remember(before)});
    activate();
    probe(rd);
  } else if (r_.chance(.1)) {
    // while the input method looks at its files, another program changes one of them (again)
    bool rough = (!strcmp(p_.id, "C03") || !strcmp(p_.id, "C04")) && r_.chance(.5);
    if (r_.chance(.8)) push("put", {name, "atomic", remember(content(f))});
    Op o;
    o.name = "focus";
    o.args = {std::to_string(w_.focus >= 0 && r_.chance(.7) ? (uint64_t)(w_.focus + 1) % kClients : r_.below(kClients))};
    if (w_.focus >= 0 && r_.chance(.2)) { o.name = "im"; o.args = {w_.icPlain[w_.focus] ? "phrase" : "plain"}; }
    o.plan.active = true;
    o.plan.editAt = 1 + (int)r_.below(16);
    o.plan.editFile = f;
    o.plan.editMode = !rough ? "atomic" : r_.chance(.5) ? "trunc" : "inplace";
    o.plan.editData = o.plan.editMode == "trunc" ? std::to_string(r_.below(500)) : remember(content(f));
    q_.push_back(o);
    if (r_.chance(.3)) probe(r_.pick(pool_));
    if (r_.chance(.8)) push("focus", {std::to_string(r_.below(kClients))});
    for (size_t i = r_.below(3); i > 0; i--) probe(r_.pick(pool_));
  } else if (f != F_REPL && r_.chance(.05)) {
    // very many values of one reading: stored, or excluded
    std::string rd = r_.pick(pool_), c;
    std::string first = model::splitReadings(rd)[0];
    if (r_.chance(.4)) rd = first;
    if (f == F_USER) for (size_t i = 20 + r_.below(120); i > 0; i--) c += value(reading()) + " " + rd + "\n";
    else { auto us = w_.m.lm.get(rd); size_t n = us.empty() || r_.chance(.3) ? us.size() : r_.below(us.size()); for (size_t i = 0; i < n; i++) c += us[i].v + " " + rd + "\n"; }
    push("put", {name, r_.chance(.7) ? "atomic" : "inplace", remember(c)});
    if (r_.chance(.8)) push("focus", {std::to_string(w_.focus >= 0 ? (uint64_t)(w_.focus + 1) % kClients : 0)});
    probe(rd);
    if (r_.chance(.5)) for (size_t i = 1 + r_.below(12); i > 0; i--) key(r_.chance(.6) ? "Page_Down" : r_.chance(.5) ? "Page_Up" : "Down");
    if (r_.chance(.5)) key("Return");
  } else if (r_.chance(.05)) {
    // to the end of a page or of a buffer, just before it or just past it
    static const std::vector<size_t> sizes = {4096, 4096, 8192, 1024, 512, 16384, 32768, 65536, 131072};
    static const std::vector<std::string> how = {"short", "long", "open"};
    push("pad", {name, std::to_string(r_.pick(sizes) + (r_.chance(.4) ? r_.below(3) - 1 : 0)), r_.pick(how)});
    if (r_.chance(.3)) push("put", {name, "append", "\n" + line(true) + "\n"});
    if (r_.chance(.5)) push("focus", {std::to_string(r_.below(kClients))});
  } else if (r_.chance(.08) && (f == F_REPL || (ok && strcmp(p_.id, "C02")))) {
    // moved away, and the very same file back later
    push("away", {name});
    if (r_.chance(.8)) push("focus", {std::to_string(r_.below(kClients))});
    if (r_.chance(.3)) probe(r_.pick(pool_));
    push("back", {name});
    if (r_.chance(.8)) push("focus", {std::to_string(r_.below(kClients))});
    for (size_t i = r_.below(3); i > 0; i--) probe(r_.pick(pool_));
  } else if (d < 30) push("put", {name, "atomic", remember(content(f))});
  else if (d < 45) push("put", {name, "inplace", remember(content(f))});
  else if (d < 65) {
    // another line, as a program would append it
    Disk k = w_.look(f);
    std::string l = (k.kind == 1 && !k.data.empty() && k.data.back() != '\n' ? "\n" : "") + (f == F_REPL ? value(reading()) + " " + value(reading()) : line(true)) + (r_.chance(.3) ? "" : "\n");
    push("put", {name, "append", l});
  } else if (d < 72 && !history_.empty()) push("put", {name, "older", r_.pick(history_)});
  else if (d < 82) {
    // take one line out
    Disk k = w_.look(f);
    std::string s;
    std::vector<std::string> ls;
    size_t p = 0;
    while (p < k.data.size()) { size_t q = k.data.find('\n', p); if (q == std::string::npos) q = k.data.size(); ls.push_back(k.data.substr(p, q - p)); p = q + 1; }
    if (!ls.empty()) ls.erase(ls.begin() + (long)r_.below(ls.size()));
    for (auto& x : ls) s += x + "\n";
    push("put", {name, r_.chance(.5) ? "atomic" : "inplace", s});
  } else if (d < 88) { if (f == F_REPL) push("del", {name}); else if (ok) push("trunc", {name, std::to_string(r_.below(2000))}); }
  else if (ok && d < 94) push("trunc", {name, std::to_string(r_.below(500))});
  else if (ok && strcmp(p_.id, "C02") && d < 97) push("del", {name});
  else if (ok && strcmp(p_.id, "C02") && r_.chance(.3)) push("mkdirfile", {name});
  else if (!ok || !strcmp(p_.id, "C02")) push("put", {name, "append", "# note\n"});
}
void Gen::builtinFile() {
  int f = r_.chance(.45) ? F_MAIN : r_.chance(.6) ? F_PLAIN : F_ASSOC;
  const std::string& b = w_.base(f);
  double d = (double)r_.below(100);
  std::string n = kFileName[f];
  if (d < 12) { push("del", {n}); }
  else if (d < 18) push("mkdirfile", {n});
  else if (d < 26) push("put", {n, "atomic", ""});
  else if (d < 40) push("put", {n, "atomic", garbage()});
  else if (d < 60) push("put", {n, "atomic", b.substr(0, r_.below(b.size()))});
  else if (d < 85) {
    std::string s = b;
    size_t k = 1 + r_.below(40);
    for (size_t i = 0; i < k; i++) s[r_.below(s.size())] = (char)(r_.chance(.3) ? '\n' : r_.chance(.3) ? ' ' : r_.chance(.2) ? '-' : r_.below(256));
    push("put", {n, "atomic", s});
  } else push("put", {n, "atomic", b.substr(r_.below(300))});
  if (r_.chance(.5)) { push("im", {"plain"}); push("im", {"phrase"}); }
  if (r_.chance(.4)) { push("stop"); start(); push("focus", {"0"}); }
}
void Gen::dictFile() {
  double d = (double)r_.below(100);
  static const std::vector<std::string> ok = {
      "{\"services\":[{\"name\":\"A\",\"url_template\":\"https://a.example/(encoded)\"}]}",
      "{\"services\":[{\"name\":\"A\",\"url_template\":\"https://a.example/?w=(encoded)&x=1#frag\"},{\"name\":\"乙\",\"url_template\":\"(encoded)\"}]}",
      "{\"services\":[]}",
      "{\"services\":[{\"name\":\"\",\"url_template\":\"https://a.example/(encoded)/(encoded)/end\"}]}",
      "{\"services\":[{\"name\":\"A\",\"url_template\":\"https://a.example/(encoded)%20tail\"},{\"name\":\"B\",\"url_template\":\"https://b.example/q/(encoded)/page?z=(1)\"},{\"name\":\"C\",\"url_template\":\"https://c.example/(encoded)\"}]}"};
  static const std::vector<std::string> bad = {
      "", "{", "[]", "{}", "null", "42", "\"x\"", "{\"services\":null}", "{\"services\":{}}", "{\"services\":\"x\"}", "{\"services\":[null]}", "{\"services\":[1,\"a\",[],{}]}",
      "{\"services\":[{\"name\":null,\"url_template\":null}]}", "{\"services\":[{\"name\":\"A\"}]}", "{\"services\":[{\"url_template\":\"https://a/(encoded)\"}]}",
      "{\"services\":[{\"name\":\"A\",\"url_template\":\"\"}]}", "{\"services\":[{\"name\":\"A\",\"url_template\":\"https://a.example/\"}]}",
      "{\"services\":[{\"name\":5,\"url_template\":[1]}]}", "{\"services\":[{\"name\":\"A\",\"url_template\":\"https://a.example/(encoded\"},{\"name\":\"B\",\"url_template\":\"https://b.example/(encoded)\"}]}"};
  if (d < 50 && r_.chance(.6)) {
    // any number of definitions, some of them of no use
    static const std::vector<std::string> names = {"", "A", "B", "乙", "a b", "\\\"q\\\"", "萌典", "{0}", "x\\ny", "A"},
        urls = {"https://a.example/(encoded)", "(encoded)", "https://b.example/?q=(encoded)&r=(encoded)#z", "https://c.example/{0}/(encoded)/%41", "file:(encoded)", "https://d.example/(Encoded)/(encoded"},
        odd = {"null", "1", "[]", "{}", "\"A\"", "{\"name\":\"n\"}", "{\"url_template\":\"(encoded)\"}", "{\"name\":1,\"url_template\":\"(encoded)\"}", "{\"name\":\"n\",\"url_template\":[\"(encoded)\"]}", "{\"name\":\"n\",\"url_template\":\"\"}"};
    std::string s = r_.chance(.9) ? "{\"services\":[" : "{\"version\":1,\"services\":[";
    for (size_t i = 0, n = r_.below(r_.chance(.8) ? 5 : 22); i < n; i++) {
      s += i ? "," : "";
      if (r_.chance(.12)) s += r_.pick(odd);
      else s += "{\"name\":\"" + r_.pick(names) + "\"," + (r_.chance(.1) ? "\"icon\":null," : "") + "\"url_template\":\"" + r_.pick(urls) + "\"}";
    }
    if (r_.chance(.15)) {  // more text than a buffer holds
      static const std::vector<size_t> sizes = {1024, 4096, 8192, 16384, 32768, 65536, 140000};
      s.insert(1, "\"note\":\"" + std::string(r_.pick(sizes) + r_.below(200) - 100, 'x') + "\",");
    }
    push("put", {"dict", "atomic", s + (r_.chance(.95) ? "]}" : "]")});
  } else if (d < 45) push("put", {"dict", "atomic", r_.pick(ok)});
  else if (d < 80) push("put", {"dict", "atomic", r_.pick(bad)});
  else if (d < 85) push("put", {"dict", "atomic", garbage()});
  else if (d < 90) push("del", {"dict"});
  else if (d < 93) push("mkdirfile", {"dict"});
  else if (d < 97) { const std::string& b = w_.base(F_DICT); push("put", {"dict", "atomic", b.substr(0, r_.below(b.size()))}); }
  else push("restore", {"dict"});
}
void Gen::session() {
  push(r_.chance(.6) ? "stop" : "crash");
  if (!strcmp(p_.id, "C05") && r_.chance(.5)) userDir();
  if (!strcmp(p_.id, "C13") && r_.chance(.5)) dictFile();
  if (r_.chance(.2)) file();
  start(r_.chance(.5));
  push("focus", {std::to_string(r_.below(kClients))});
}
void Gen::userDir() {
  double d = (double)r_.below(100);
  if (w_.up && begun_ && w_.st.ops) push("stop");
  if (d < 55) push("rmuser", {std::to_string(r_.below(3))});
  else if (d < 70) push("block", {std::to_string(r_.below(3))});
  else if (d < 80) push("unblock");
  else if (d < 90) push("del", {r_.chance(.5) ? "user" : "excl"});
  else { push("mkuser"); push("put", {r_.chance(.5) ? "user" : "excl", "atomic", content(F_USER)}); }
}
// Around a change of the local time: the days before, of and after it, near midnight above all.
static int64_t nearTransition(Rng& r, const std::string& zone) {
  std::unique_ptr<icu::TimeZone> z(icu::TimeZone::createTimeZone(icu::UnicodeString::fromUTF8(zone)));
  auto* b = dynamic_cast<icu::BasicTimeZone*>(z.get());
  if (!b) return -1;
  icu::TimeZoneTransition t;
  double base = 631152000000.0 + 1000.0 * (double)r.below(1500000000);  // 1990 to 2037
  if (!b->getNextTransition(base, false, t)) return -1;
  double at = t.getTime();
  UErrorCode e = U_ZERO_ERROR;
  int32_t raw = 0, dst = 0;
  z->getOffset(at + (r.chance(.5) ? 1.0 : -1.0), false, raw, dst, e);
  int64_t local = (int64_t)std::floor((at + raw + dst) / 1000.0);
  int64_t day = local / 86400 + (int64_t)r.below(3) - 1;
  if (r.chance(.25)) return (int64_t)(at / 1000.0) + (int64_t)r.below(14400) - 7200;
  return day * 86400 - (raw + dst) / 1000 + (int64_t)r.below(9000) - 4500;
}
void Gen::clock() {
  static const std::vector<std::string> zones = {"Asia/Taipei", "Asia/Taipei", "UTC", "America/New_York", "Europe/London", "Australia/Lord_Howe", "Asia/Kathmandu", "Pacific/Auckland",
                                                 "America/St_Johns", "Pacific/Chatham", "Africa/Casablanca", "America/Sao_Paulo", "Asia/Tehran", "America/Los_Angeles"};
  double d = (double)r_.below(100);
  bool c9 = !strcmp(p_.id, "C09");
  if (!c9 && r_.chance(.35)) {
    const std::string& z = r_.pick(zones);
    int64_t t = nearTransition(r_, z);
    if (t > 0) { push("tz", {z}); push("now", {std::to_string(t)}); return; }
  }
  if (c9) {
    static const std::vector<double> steps = {1, 30, 600, 3600, 5400, 10800, 21600, 54000, 86400, 107999, 108000, 108001, 120000, -5, -3600, -90000, 0.5};
    push("adv", {std::to_string(r_.pick(steps) * (r_.chance(.3) ? .5 + (double)r_.below(100) / 100 : 1))});
    return;
  }
  if (d < 20) push("tz", {r_.pick(zones)});
  if (d < 40) push("adv", {std::to_string(r_.below(100000))});
  else if (d < 50) push("adv", {"-" + std::to_string(r_.below(1000000))});
  else {
    // near a boundary: year end, month end, leap day, daylight-saving change, era change
    static const std::vector<long long> at = {1704067200, 1709164800, 1709251200, 1735689600, 1767225600, 1772323200, 1583020800 - 86400, 951782400, 4107542400, 1556636400, 1556668800, 599616000,
                                              1710054000, 1710059400, 1730606400, 1730613600, 1711846800, 1729998000, 1712415600, 1728142200, 0, 86400, -86400 * 365, 1709222400, 946684800, 2147483647,
                                              -1830412800, 1572678000, 1541325600};
    push("now", {std::to_string(r_.pick(at) + (long long)r_.below(172800) - 86400 + (r_.chance(.3) ? 0 : 0))});
  }
}
// The same failure over and over: nothing may be used up by it.
void Gen::wear() {
  FaultPlan f;
  static const std::vector<int> c = {FC_OPEN, FC_STAT, FC_STAT, FC_MMAP, FC_MMAP, FC_READ, FC_READ, FC_WRITE, FC_RENAME, FC_SYNC};
  f.cls = r_.pick(c);
  f.at = 1 + (int)r_.below(4);
  f.count = r_.chance(.5) ? 1 : 999;
  f.err = r_.chance(.5) ? 5 : 12;
  int kind = (int)r_.below(5);
  bool disk = r_.chance(.4);
  f.active = !disk;
  static const std::vector<int> user = {F_USER, F_EXCL, F_REPL}, built = {F_MAIN, F_PLAIN};
  int file = kind == 0 ? r_.pick(built) : r_.pick(user);
  if (disk && kind < 3) {
    if (r_.chance(.3)) push("mkdirfile", {kFileName[file]});
    else if (r_.chance(.5)) push("put", {kFileName[file], "atomic", ""});
    else if (r_.chance(.5)) push("put", {kFileName[file], "atomic", garbage()});
    else push("del", {kFileName[file]});
  }
  bool plain = w_.focus >= 0 && w_.icPlain[w_.focus];
  int at = w_.focus;
  for (int i = 0; i < 26; i++) {
    if (kind == 0) { plain = !plain; push("im", {plain ? "plain" : "phrase"}); }
    else if (kind < 3) {
      if (!disk && r_.chance(.7)) push("put", {kFileName[file], "inplace", content(file)});
      at = (at + 1) % kClients;
      push("focus", {std::to_string(at)});
    } else if (kind == 3) push("toggle", {"half"});
    else push("reload");
    q_.back().plan = f;
  }
}
void Gen::clearAll() {
  if (w_.m.st->t != model::Empty || w_.obs.hasList || !w_.obs.preedit.empty()) push("drain");
}
// types a reading alone and opens its candidates
void Gen::probe(const std::string& rd) {
  if (w_.focus < 0) push("focus", {std::to_string(r_.below(kClients))});
  clearAll();
  bool plain = w_.focus >= 0 && w_.icPlain[w_.focus];
  if (plain) {
    auto s = model::splitReadings(rd);
    push("syl", {s[0]});
  } else {
    push("syl", {rd});
    if (r_.chance(.2)) key("Home");
    key(r_.chance(.5) ? "space" : "Down");
  }
  if (r_.chance(.2)) key("Page_Down");
  if (r_.chance(.6)) push("drain"); else if (r_.chance(.5)) candKey();
  w_.st.probes++;
}
// A window with several pages: somewhere in it, a window that belongs to an entry; then back, and what was left is used.
void Gen::nested() {
  const Lex& l = lex(w_);
  if (w_.focus < 0) push("focus", {std::to_string(r_.below(kClients))});
  if (r_.chance(.6)) clearAll();
  std::string rd;
  std::vector<std::string> both;
  for (auto& k : l.many) if (std::find(l.follow.begin(), l.follow.end(), k) != l.follow.end()) both.push_back(k);
  rd = !both.empty() && r_.chance(.6) ? r_.pick(both) : !l.many.empty() && r_.chance(.6) ? r_.pick(l.many) : !l.follow.empty() && r_.chance(.7) ? r_.pick(l.follow) : r_.pick(pool_);
  bool plain = w_.focus >= 0 && w_.icPlain[w_.focus];
  if (plain) push("syl", {model::splitReadings(rd)[0]});
  else {
    if (r_.chance(.3)) push("syl", {r_.pick(pool_)});
    push("syl", {rd});
    if (r_.chance(.3)) push("syl", {r_.pick(pool_)});
    if (r_.chance(.3)) key("Left");
    key(r_.chance(.5) ? "space" : "Down");
  }
  auto move = [&](int most) {
    static const std::vector<std::string> pg = {"Page_Down", "Page_Down", "Page_Up", "space", "Right", "Down", "Left", "End", "Home"};
    for (size_t i = r_.below((uint64_t)most + 1); i > 0; i--) {
      if (r_.chance(.2)) push("page", {r_.chance(.7) ? "next" : "prev"}); else key(r_.pick(pg));
    }
    std::string step = r_.chance(.5) ? "Down" : r_.chance(.5) ? "Right" : "Up";
    for (size_t i = r_.below((uint64_t)most * 2); i > 0; i--) key(step);
  };
  auto take = [&](bool shift) {
    const std::string& sk = w_.m.stored.selKeys;
    double d = (double)r_.below(100);
    if (d < 35) key(shift ? "Shift+Return" : "Return");
    else if (d < 65) key(shift ? "S" + std::to_string(1 + r_.below(9)) : std::string(1, sk[r_.below(sk.size())]));
    else if (d < 75) key("KP_" + std::to_string(1 + r_.below(9)));
    else if (d < 90) push("click", {std::to_string(r_.below(30))});
    else key("Return");
  };
  move(3);
  bool dict = r_.chance(.4);
  for (int depth = 0; depth < 2; depth++) {
    key(dict ? "question" : "Shift+Return");
    if (r_.chance(.5)) move(2);
    if (r_.chance(.7)) {
      key(r_.chance(.85) ? "Escape" : "BackSpace");
      if (r_.chance(.3)) move(1);
      if (depth == 0 && r_.chance(.3)) { dict = !dict; continue; }
    }
    break;
  }
  if (r_.chance(.8)) take(!dict && r_.chance(.5));
}
// A phrase of the user's, looked up in one of the dictionaries.
void Gen::lookup() {
  std::string rd = r_.pick(pool_), c;
  for (size_t i = 1 + r_.below(3); i > 0; i--) c += value(rd) + " " + rd + "\n";
  push("put", {"user", r_.chance(.5) ? "atomic" : "append", (w_.look(F_USER).data.empty() ? "" : "\n") + c});
  push("focus", {std::to_string((w_.focus + 1) % kClients)});
  push("im", {"phrase"});
  clearAll();
  push("syl", {rd});
  const std::string& sk = w_.m.stored.selKeys;
  if (r_.chance(.75)) { key("space"); for (size_t i = r_.below(4); i > 0; i--) key("Right"); }
  else { for (size_t i = model::splitReadings(rd).size() + r_.below(2); i > 0; i--) key("Shift+Left"); }
  key("question");
  size_t n = w_.m.services.size();
  if (r_.chance(.3)) { for (size_t i = r_.below(4); i > 0; i--) key("Right"); key("Return"); }
  else key(std::string(1, sk[r_.below(std::min<size_t>(std::max<size_t>(n, 1), 9))]));
}
void Gen::markAdd() {
  if (w_.focus < 0 || w_.icPlain[w_.focus < 0 ? 0 : w_.focus]) {
    if (w_.focus < 0) push("focus", {std::to_string(r_.below(kClients))});
    push("im", {"phrase"});
  }
  if (r_.chance(.7)) clearAll();
  std::string rd;
  if (r_.chance(.5)) { rd = syllable(); size_t n = r_.chance(.9) ? 1 + r_.below(4) : 4 + r_.below(4); for (size_t i = 0; i < n; i++) rd += "-" + syllable(); }
  else { rd = reading(); if (model::splitReadings(rd).size() < 2) rd += "-" + syllable(); }
  if (pool_.size() < 14) pool_.push_back(rd);
  push("syl", {rd});
  if (r_.chance(.06)) { key("Shift+space"); push("syl", {syllable()}); }
  if (r_.chance(.06)) { key("<"); push("syl", {syllable()}); }
  if (r_.chance(.35)) { key(r_.chance(.5) ? "Tab" : "Left"); if (r_.chance(.5)) key("Tab"); key("End"); }
  size_t n = model::splitReadings(rd).size();
  size_t k = r_.chance(.7) ? n : 1 + r_.below(n + 1);
  bool fromLeft = r_.chance(.2);
  if (fromLeft) key("Home");
  for (size_t i = 0; i < k; i++) key(fromLeft ? "Shift+Right" : "Shift+Left");
  if (r_.chance(.1)) { key("question"); if (r_.chance(.5)) key(std::string(1, w_.m.stored.selKeys[r_.below(3)])); else key("Escape"); }
  if (p_.file > .5 && r_.chance(.12)) { // another program at the same moment
    file();
  }
  key("Return", true);
  if (r_.chance(.2)) key("Return");
  if (r_.chance(.25)) { // the same span once more: it is there now
    if (r_.chance(.3)) { clearAll(); push("syl", {rd}); }
    key(fromLeft ? "Home" : "End");
    for (size_t i = 0; i < k; i++) key(fromLeft ? "Shift+Right" : "Shift+Left");
    if (r_.chance(.7)) key("Return");
  }
  if (r_.chance(.5)) probe(rd);
}
void Gen::learn() {
  if (w_.focus < 0) { push("focus", {"0"}); return; }
  clearAll();
  if (r_.chance(.12)) { // one context, picked many times, now this way and now that
    std::string a = r_.pick(pool_), b = syllable();
    const std::string sk = w_.m.stored.selKeys;
    bool bursts = r_.chance(.5);
    size_t n = 6 + r_.below(14), now = 1, held = r_.below(4);
    for (size_t i = 0; i < n; i++) {
      if (bursts ? i == n * 2 / 3 : r_.chance(.4)) now = held++ % 4;
      push("syl", {a}); push("syl", {b});
      key("space"); key(std::string(1, sk[now])); key("Return");
      if (r_.chance(.3)) push("adv", {std::to_string(r_.below(900))});
    }
    push("syl", {a}); push("syl", {b});
    return;
  }
  if (r_.chance(.15)) { // a pick after a mark, and again after another one (or none)
    static const std::vector<std::string> marks = {"<", ">", "?", "!", ":", "[", "", ""};
    std::string a = r_.chance(.5) ? r_.pick(pool_) : syllable(), b = r_.chance(.5) ? r_.pick(pool_) : syllable();
    bool between = r_.chance(.5), lead = r_.chance(.4);
    const std::string sk = w_.m.stored.selKeys;
    for (size_t i = 2 + r_.below(3), n = 0; n < i; n++) {
      std::string mark = r_.pick(marks);
      if (lead) push("syl", {a});
      if (!mark.empty()) key(mark);
      if (between) push("syl", {a});
      push("syl", {b});
      if (n == 0 || r_.chance(.2)) { key("space"); key(std::string(1, sk[r_.below(4)])); }
      key("Return");
    }
    return;
  }
  // a short context, a pick, and the same context again
  std::string a = r_.chance(.5) ? r_.pick(pool_) : reading(3), b = r_.chance(.6) ? r_.pick(pool_) : reading(3);
  double d = (double)r_.below(100);
  if (d < 40) push("syl", {a});
  if (d < 15) push("syl", {syllable()});
  push("syl", {b});
  if (r_.chance(.75)) {
    if (r_.chance(.3)) key("Left");
    if (r_.chance(.4)) { size_t n = 1 + r_.below(4); for (size_t i = 0; i < n; i++) key(r_.chance(.8) ? "Tab" : "Shift+ISO_Left_Tab"); }
    else {
      key("space");
      if (r_.chance(.2)) key("Page_Down");
      const std::string& sk = w_.m.stored.selKeys;
      key(std::string(1, sk[r_.below(r_.chance(.5) ? 4 : 9)]));
    }
  }
  push(r_.chance(.5) ? "drain" : "k", {});
  if (q_.back().name == "k") q_.back().args = {"Return"};
  if (r_.chance(.35)) clock();
}
// More contexts than are remembered, then the early ones again: which are still known depends on when each was last
// picked, so some old ones are picked again while the memory is full.
bool Gen::evictStep() {
  const Lex& l = lex(w_);
  auto one = [&](const std::vector<std::string>& c, int pick) {
    push("syl", {c[0], c[1]});
    if (pick == 1) key("Tab");
    if (pick >= 2) { key("space"); key(std::string(1, w_.m.stored.selKeys[(size_t)pick - 1])); }
    key("Return");
    steps_++;
  };
  size_t known = w_.m.uom.lru.size();
  auto fresh = [&] {
    contexts_.push_back({l.syl[r_.below(l.syl.size())], l.syl[r_.below(l.syl.size())]});
    one(contexts_.back(), r_.chance(.8) ? 2 : 1);
  };
  if (!w_.up || w_.focus < 0) return false;
  if (phase_ == 0) { push("im", {"phrase"}); clearAll(); phase_ = 1; steps_ = 0; return true; }
  if (phase_ == 1) {
    if (known < 500 && steps_ < 1100) { fresh(); if (r_.chance(.02)) push("adv", {std::to_string(r_.below(60))}); return true; }
    phase_ = 2;
    steps_ = 0;
  }
  if (phase_ == 2) {  // full: old ones picked again, new ones learned, in turns
    if (steps_ < 24) {
      size_t n = 1 + r_.below(4);
      for (size_t i = 0; i < n; i++) one(contexts_[r_.below(24)], r_.chance(.6) ? 2 : 3);
      n = 1 + r_.below(6);
      for (size_t i = 0; i < n; i++) fresh();
      if (r_.chance(.3)) one(contexts_[r_.below(24)], 0);
      return true;
    }
    phase_ = 3;
    steps_ = 0;
  }
  if (phase_ == 3 && steps_ < 60) { one(contexts_[steps_ < 40 ? (size_t)steps_ : r_.below(contexts_.size())], 0); return true; }
  return false;
}
// faults are over: everything on disk is whole again
void Gen::recovery() {
  recover_ = true;
  bool wasBlocked = w_.blockedDir() || w_.tainted_;
  for (int f : {F_MAIN, F_PLAIN, F_ASSOC, F_DICT}) { Disk d = w_.look(f); if (d.kind != 1 || d.data != w_.base(f)) push("restore", {kFileName[f]}); }
  for (int f : {F_USER, F_EXCL, F_REPL}) { Disk d = w_.look(f); if (d.kind == 2) push("del", {kFileName[f]}); }
  bool restart = r_.chance(.5) || wasBlocked || w_.assocUnknown_ || w_.servicesUnknown_ || w_.confUnknown_ || !w_.up;
  if (restart) {
    push("stop");
    push("unblock");
    start();
    push("focus", {"0"});
  } else {
    push("focus", {std::to_string((w_.focus + 1 + kClients) % kClients)});
    push("im", {"plain"});
    push("im", {"phrase"});
    push("blur");
    push("focus", {std::to_string(r_.below(kClients))});
  }
  for (int f : {F_USER, F_EXCL}) { Disk d = w_.look(f); if (d.kind != 1 && !restart) { push("put", {kFileName[f], "atomic", content(f)}); } }
  push("blur");
  push("focus", {std::to_string(r_.below(kClients))});
  for (int i = 0; i < 4; i++) { push("drain"); push("syl", {r_.pick(pool_)}); key("space"); }
  push("drain");
  push("im", {"plain"});
  push("syl", {syllable()});
  push("drain");
  push("im", {"phrase"});
  push("syl", {reading()});
  push("drain");
}

void Gen::choose() {
  if (!w_.up) {
    if (r_.chance(.15)) { if (p_.userdir > 0) { userDir(); return; } file(); return; }
    start(r_.chance(.4));
    return;
  }
  if (w_.focus < 0 && r_.chance(.8)) { push("focus", {std::to_string(r_.below(kClients))}, p_.fault > .02 && r_.chance(.3)); return; }
  auto is = [&](const char* id) { return !strcmp(p_.id, id); };
  if (w_.focus >= 0 && w_.icSecret[w_.focus] && r_.chance(.3)) { if (r_.chance(.7)) push("secret", {"off"}, p_.fault > .02); else push("focus", {std::to_string(r_.below(kClients))}); return; }
  bool list = w_.obs.hasList;
  bool number = w_.m.st->t == model::ChineseNumber || w_.m.st->t == model::EnclosingNumber;
  std::vector<std::pair<double, int>> ws = {
      {p_.type, 0}, {p_.edit, 1}, {list ? p_.cand * 6 + 8 : 0, 2}, {p_.raw, 3}, {number ? 12 : p_.feature, 4}, {p_.focus, 5}, {p_.icreset, 6}, {p_.im, 7}, {p_.cfg, 8}, {p_.toggle, 9}, {p_.menu, 10},
      {p_.file, 11}, {p_.builtin, 12}, {p_.dict, 13}, {p_.session, 14}, {p_.clock, 15}, {p_.markAdd, 16}, {p_.probe, 17}, {p_.learn, 18}, {p_.drain, 19}, {p_.userdir, 20}, {p_.shiftRet, 21}, {is("C06") ? .6 : is("C08") || is("C14") ? .25 : .03, 22}, {is("C12") ? 1.2 : .03, 23}, {is("C04") ? .25 : 0, 24}, {is("C18") ? 4.0 : is("C14") || is("C06") || is("C08") || is("C13") ? .5 : .05, 25},
      {is("C06") || is("C14") ? .5 : is("C08") || is("C20") ? .15 : .03, 26}, {is("C06") ? .4 : is("C08") || is("C14") ? .1 : .03, 27}};
  double sum = 0;
  for (auto& x : ws) sum += x.first;
  double d = sum * (double)(r_.next() >> 11) / 9007199254740992.0;
  int c = 0;
  for (auto& x : ws) { if (d < x.first) { c = x.second; break; } d -= x.first; }
  switch (c) {
    case 0: typeSome(); break;
    case 1: editKey(); break;
    case 2: candKey(); break;
    case 3: rawKey(); break;
    case 4: feature(); break;
    case 5: if (r_.chance(.15)) push("blur"); else push("focus", {std::to_string(r_.below(kClients))}, p_.fault > .02); break;
    case 6: push("icreset"); break;
    case 7: push("im", {w_.focus >= 0 && w_.icPlain[w_.focus] ? "phrase" : "plain"}, p_.fault > .02); break;
    case 8: cfg(); break;
    case 9: push("toggle", {r_.chance(.4) ? "half" : "assoc"}, true); break;
    case 10: push("menu", {r_.chance(.5) ? "user" : "excl"}); break;
    case 11: file(); if (r_.chance(.3)) push("focus", {std::to_string(r_.below(kClients))}); break;
    case 12: builtinFile(); break;
    case 13: if (r_.chance(.35)) dictFile(); else lookup(); break;
    case 14: session(); break;
    case 15: clock(); break;
    case 16: markAdd(); break;
    case 17: probe(!strcmp(p_.id, "C11") ? r_.pick(lex(w_).macroKeys) : r_.chance(.8) ? r_.pick(pool_) : reading()); break;
    case 18: learn(); break;
    case 19: push("drain"); break;
    case 20: userDir(); break;
    case 22: push("close", {std::to_string(r_.chance(.6) && w_.focus >= 0 ? (uint64_t)w_.focus : r_.below(kClients))}); break;
    case 23: confFile(); break;
    case 26: push("secret", {w_.focus >= 0 && w_.icSecret[w_.focus] ? "off" : "on"}, p_.fault > .02); break;
    case 27: push("draws", {std::to_string(r_.below(kClients)), r_.chance(.6) ? "on" : "off"}); break;
    case 24: wear(); break;
    case 25: nested(); break;
    case 21: key(is("C20") ? "Control+Return" : r_.chance(.6) ? "Shift+Return" : "Shift+ISO_Left_Tab"); break;
  }
}

bool Gen::next(Op* op) {
  if (!data_) {
    data_ = true;
    if (r_.chance(.45)) { op->name = "data"; op->args = {std::to_string(r_.below(1000000000))}; op->plan = FaultPlan(); return true; }
  }
  if (!begun_) begin();
  else if (scenario_ == 1 && q_.empty()) { left_ = 0; if (evictStep()) left_ = (int)q_.size() + 1; else scenario_ = 2; }
  int guard = 0;
  while (q_.empty()) {
    if (left_ <= 0) {
      if (recover_ || strcmp(p_.id, "C04")) return false;
      recovery();
      continue;
    }
    choose();
    if (++guard > 200) return false;
  }
  left_--;
  *op = q_.front();
  q_.pop_front();
  return true;
}

}  // namespace sim
