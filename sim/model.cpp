#include "model.h"

#include <fcitx-utils/keysym.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <cstring>

#include "ChineseNumbers/ChineseNumbers.h"
#include "ChineseNumbers/SuzhouNumbers.h"
#include "Mandarin/Mandarin.h"

namespace model {

const char* const kStateName[] = {"Empty", "Committing", "Inputting", "Choosing", "Marking", "SelDict", "CharInfo",
                                  "Assoc", "AssocPlain", "Feature", "DateMacro", "ChineseNumber", "EnclosingNumber"};

std::vector<std::string> codepoints(const std::string& s) {
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size();) {
    size_t n = 1;
    unsigned char c = (unsigned char)s[i];
    if (c >= 0xF0) n = 4; else if (c >= 0xE0) n = 3; else if (c >= 0xC0) n = 2;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}
std::vector<std::string> splitReadings(const std::string& s) {
  std::vector<std::string> r;
  if (s.empty()) return r;
  size_t p = 0;
  for (;;) {
    size_t q = s.find('-', p);
    r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
    if (q == std::string::npos) return r;
    p = q + 1;
  }
}
std::string joinReadings(const std::vector<std::string>& v) {
  std::string r;
  for (size_t i = 0; i < v.size(); i++) r += (i ? "-" : "") + v[i];
  return r;
}

static std::vector<std::string> lines(const std::string& t) {
  std::vector<std::string> r;
  size_t p = 0;
  while (p < t.size()) {
    size_t q = t.find('\n', p);
    if (q == std::string::npos) q = t.size();
    r.push_back(t.substr(p, q - p));
    p = q + 1;
  }
  return r;
}

std::shared_ptr<BuiltIn> BuiltIn::parse(const std::string& text) {
  auto b = std::make_shared<BuiltIn>();
  for (auto& l : lines(text)) {
    if (l.empty() || l[0] == '#') continue;
    size_t a = l.find(' ');
    if (a == std::string::npos) continue;
    size_t c = l.find(' ', a + 1);
    if (c == std::string::npos) continue;
    b->rows[l.substr(0, a)].push_back({l.substr(a + 1, c - a - 1), strtod(l.c_str() + c + 1, nullptr)});
  }
  return b;
}
std::shared_ptr<AssocData> AssocData::parse(const std::string& text) {
  auto b = std::make_shared<AssocData>();
  for (auto& l : lines(text))
    if (!l.empty() && l[0] != '#') b->rows.push_back(l);
  return b;
}

// "first second" per line; comments and blank lines skipped; what follows a
// malformed line (or a NUL byte) is not read.
Pairs parsePairs(const std::string& t0) {
  Pairs r;
  std::string t = t0.substr(0, t0.find('\0'));
  auto blank = [](char c) { return c == ' ' || c == '\t'; };
  auto nl = [](char c) { return c == '\n' || c == '\r'; };
  size_t i = 0, n = t.size();
  for (;;) {
    while (i < n && (blank(t[i]) || nl(t[i]))) i++;
    if (i >= n) return r;
    if (t[i] == '#') { while (i < n && !nl(t[i])) i++; continue; }
    size_t a = i;
    while (i < n && !blank(t[i]) && !nl(t[i])) i++;
    std::string k = t.substr(a, i - a);
    if (i >= n || !blank(t[i])) return r;
    while (i < n && blank(t[i])) i++;
    if (i >= n || nl(t[i])) return r;
    a = i;
    while (i < n && !blank(t[i]) && !nl(t[i])) i++;
    std::string v = t.substr(a, i - a);
    while (i < n && !nl(t[i])) i++;
    r.emplace_back(k, v);
  }
}

// ---- language model --------------------------------------------------------
void LM::setUser(const std::string& t) { user.clear(); for (auto& p : parsePairs(t)) user[p.second].push_back(p.first); }
void LM::setExcl(const std::string& t) { excl.clear(); for (auto& p : parsePairs(t)) excl[p.second].insert(p.first); }
void LM::setRepl(const std::string& t) { repl.clear(); for (auto& p : parsePairs(t)) repl[p.first] = p.second; }

// What is not valid UTF-8 cannot be shown or delivered, and is never proposed.
bool validUtf8(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = (unsigned char)s[i];
    size_t n = c < 0x80 ? 1 : c >= 0xc2 && c <= 0xdf ? 2 : (c & 0xf0) == 0xe0 ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
    if (!n || i + n > s.size()) return false;
    for (size_t j = 1; j < n; j++) if (((unsigned char)s[i + j] & 0xc0) != 0x80) return false;
    unsigned char d = n > 1 ? (unsigned char)s[i + 1] : 0;
    if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f)) return false;
    // fcitx5 takes no noncharacters either: U+FDD0 to U+FDEF, and the last two code points of every plane
    unsigned long u = n == 1 ? c : c & (0x7fu >> n);
    for (size_t j = 1; j < n; j++) u = u << 6 | ((unsigned char)s[i + j] & 0x3f);
    if ((u >= 0xfdd0 && u <= 0xfdef) || (u & 0xfffe) == 0xfffe) return false;
    i += n;
  }
  return true;
}

std::vector<Uni> LM::get(const std::string& key) const {
  if (key == " ") return {{" ", 0}};
  std::vector<Uni> mine, all;
  std::set<std::string> seen;
  auto ex = excl.find(key);
  auto add = [&](const std::string& raw, double s, std::vector<Uni>* out) {
    if (ex != excl.end() && ex->second.count(raw)) return;
    std::string v = raw;
    if (replOn) { auto it = repl.find(v); if (it != repl.end() && !it->second.empty()) v = it->second; }
    if (macro) v = macro(v);
    if (s == -8.0 && v.size() > 6 && v.compare(0, 6, "MACRO@") == 0) return;
    if (!validUtf8(v)) return;
    if (seen.insert(v).second) out->push_back({v, s});
  };
  auto u = user.find(key);
  if (u != user.end()) for (auto& v : u->second) add(v, 0, &mine);
  if (main) {
    auto m = main->rows.find(key);
    if (m != main->rows.end()) for (auto& x : m->second) add(x.v, x.s, &all);
  }
  if (key.find('-') == std::string::npos && !all.empty() && !mine.empty()) {
    double top = std::numeric_limits<double>::lowest();
    for (auto& x : all) top = std::max(top, x.s);
    for (auto& x : mine) x.s = top + 0.000000001;
  }
  all.insert(all.begin(), mine.begin(), mine.end());
  std::stable_sort(all.begin(), all.end(), [](const Uni& a, const Uni& b) { return a.s > b.s; });
  return all;
}
bool LM::has(const std::string& key) const {
  if (key == " ") return true;
  return ((main && main->rows.count(key)) || user.count(key)) && !get(key).empty();
}
std::vector<AssocPhrase> LM::associated(const std::string& value, const std::vector<std::string>& readings) const {
  std::vector<AssocPhrase> out;
  if (!assoc || value.empty() || readings.empty()) return out;
  auto cps = codepoints(value);
  if (cps.size() != readings.size()) return out;
  std::string prefix;
  for (size_t i = 0; i < cps.size(); i++) prefix += cps[i] + "-" + readings[i] + "-";
  std::vector<std::pair<double, const std::string*>> rows;
  for (auto it = std::lower_bound(assoc->rows.begin(), assoc->rows.end(), prefix); it != assoc->rows.end(); ++it) {
    if (it->compare(0, prefix.size(), prefix) != 0) break;
    rows.push_back({strtod(it->c_str() + it->find(' ') + 1, nullptr), &*it});
  }
  std::stable_sort(rows.begin(), rows.end(), [](auto& a, auto& b) { return a.first > b.first; });
  std::set<std::string> seen;
  for (auto& r : rows) {
    auto parts = splitReadings(r.second->substr(0, r.second->find(' ')));
    AssocPhrase p;
    for (size_t i = 0; i < parts.size(); i++) { if (i % 2) p.readings.push_back(parts[i]); else p.value += parts[i]; }
    if (seen.insert(p.value).second) out.push_back(p);
  }
  return out;
}

// ---- grid ------------------------------------------------------------------
bool Grid::insert(const std::string& r) {
  if (r.empty() || r == "-" || !lm->has(r)) return false;
  rd.insert(rd.begin() + (long)cursor, r);
  spans.insert(spans.begin() + (long)cursor, std::vector<NodeP>(kMax));
  drop(cursor);
  fill();
  ++cursor;
  return true;
}
bool Grid::delBefore() {
  if (!cursor) return false;
  --cursor;
  rd.erase(rd.begin() + (long)cursor);
  spans.erase(spans.begin() + (long)cursor);
  drop(cursor);
  fill();
  return true;
}
bool Grid::delAfter() {
  if (cursor == rd.size()) return false;
  rd.erase(rd.begin() + (long)cursor);
  spans.erase(spans.begin() + (long)cursor);
  drop(cursor);
  fill();
  return true;
}
// nodes that reach across the boundary before loc are broken
void Grid::drop(size_t loc) {
  for (size_t i = 0; i < loc && i < spans.size(); i++)
    for (size_t l = loc - i + 1; l <= kMax; l++) spans[i][l - 1] = nullptr;
}
void Grid::fill() {
  size_t b = cursor <= kMax ? 0 : cursor - kMax, e = std::min(cursor + kMax, rd.size());
  for (size_t p = b; p < e; p++) {
    std::string key;
    for (size_t l = 1; l <= kMax && p + l <= e; l++) {
      key += (l > 1 ? "-" : "") + rd[p + l - 1];
      NodeP& n = spans[p][l - 1];
      if (n && n->reading == key) continue;
      auto u = lm->get(key);
      if (u.empty()) continue;
      n = std::make_shared<Node>();
      n->reading = key;
      n->len = l;
      n->unis = u;
    }
  }
}
std::vector<Grid::Hit> Grid::overlapping(size_t loc) const {
  std::vector<Hit> r;
  if (loc >= spans.size()) return r;
  for (auto& n : spans[loc]) if (n) r.push_back({n, loc});
  for (size_t i = loc >= kMax - 1 ? loc - (kMax - 1) : 0; i < loc; i++)
    for (size_t l = loc - i + 1; l <= kMax; l++) if (spans[i][l - 1]) r.push_back({spans[i][l - 1], i});
  return r;
}
std::vector<Cand> Grid::candidates(size_t loc) const {
  std::vector<Cand> r;
  if (rd.empty() || loc > rd.size()) return r;
  auto h = overlapping(loc == rd.size() ? loc - 1 : loc);
  std::stable_sort(h.begin(), h.end(), [](const Hit& a, const Hit& b) { return a.n->len > b.n->len; });
  for (auto& x : h) for (auto& u : x.n->unis) r.push_back({x.n->reading, u.v});
  return r;
}
bool Grid::override_(size_t loc, const std::string* reading, const std::string& value, int type) {
  if (loc > rd.size()) return false;
  for (auto& h : overlapping(loc == rd.size() ? loc - 1 : loc)) {
    if (reading && h.n->reading != *reading) continue;
    for (size_t i = 0; i < h.n->unis.size(); i++) {
      if (h.n->unis[i].v != value) continue;
      h.n->sel = i;
      h.n->ovr = type;
      for (size_t k = h.at; k < h.at + h.n->len && k < spans.size(); k++)
        for (auto& o : overlapping(k)) if (o.n != h.n) { o.n->sel = 0; o.n->ovr = 0; }
      return true;
    }
  }
  return false;
}
int Walk::at(size_t cursor, size_t* past) const {
  if (nodes.empty() || cursor > total) return -1;
  if (cursor + 1 >= total && cursor != 0) { if (past) *past = total; return (int)nodes.size() - 1; }
  size_t acc = 0;
  for (size_t i = 0; i < nodes.size(); i++) {
    acc += nodes[i]->len;
    if (acc > cursor) { if (past) *past = acc; return (int)i; }
  }
  return -1;
}
// Best path; among equals, the first found when the predecessors ending at a
// position are tried with those starting later last... the exact rule does not
// matter to the properties: `tie` says that another path is as good.
Walk Grid::walk() const {
  Walk w;
  size_t n = rd.size();
  if (!n) return w;
  const double ninf = -std::numeric_limits<double>::infinity();
  std::vector<double> best(n + 1, ninf);
  std::vector<int> pred(n + 1, -1);
  std::vector<bool> tie(n + 1, false);
  best[0] = 0;
  for (size_t e = 1; e <= n; e++) {
    for (size_t p = e >= kMax ? e - kMax : 0; p < e; p++) {
      const NodeP& x = spans[p][e - p - 1];
      if (!x || best[p] == ninf) continue;
      double s = best[p] + x->score();
      if (best[e] != ninf && std::fabs(s - best[e]) < 1e-7) tie[e] = true;
      else if (s > best[e]) tie[e] = false;
      if (s > best[e]) { best[e] = s; pred[e] = (int)p; }
    }
  }
  for (size_t e = n; e > 0;) {
    if (tie[e]) w.tie = true;
    int p = pred[e];
    if (p < 0) { w.nodes.clear(); return w; }
    w.nodes.insert(w.nodes.begin(), spans[(size_t)p][e - (size_t)p - 1]);
    e = (size_t)p;
  }
  w.total = n;
  return w;
}

// ---- learned picks ---------------------------------------------------------
static std::string obsKey(const Walk& w, int head) {
  auto pair = [](const std::string& r, const std::string& v) { return "(" + r + "," + v + ")"; };
  std::string h = pair(w.nodes[(size_t)head]->reading, w.nodes[(size_t)head]->unis[0].v), p = "()", a = "()";
  auto punct = [](const NodeP& n) { return n->reading[0] == '_'; };
  if (head > 0) {
    auto& x = w.nodes[(size_t)head - 1];
    if (!punct(x)) {
      p = pair(x->reading, x->value());
      if (head > 1) {
        auto& y = w.nodes[(size_t)head - 2];
        if (!punct(y)) a = pair(y->reading, y->value());
      }
    }
  }
  return a + "-" + p + "-" + h;
}
void UOM::observe(const Walk& b, const Walk& a, size_t cursor, double now) {
  if (b.nodes.empty() || a.nodes.empty() || b.total != a.total) return;
  size_t past = 0;
  int c = a.at(cursor, &past);
  if (c < 0 || a.nodes[(size_t)c]->len > 3 || past == 0) return;
  int ph = b.at(past - 1);
  if (ph < 0) return;
  auto& cn = a.nodes[(size_t)c];
  auto& pn = b.nodes[(size_t)ph];
  bool force = cn->len > pn->len;
  bool breaking = cn->len == 1 && pn->len > 1;
  std::string key = breaking ? obsKey(a, c) : obsKey(b, ph);
  observed++;
  auto it = idx.find(key);
  if (it == idx.end()) {
    lru.push_front({key, Ob()});
    idx[key] = lru.begin();
    if (lru.size() > 500) { idx.erase(lru.back().first); lru.pop_back(); dropped++; }
  } else {
    lru.splice(lru.begin(), lru, it->second);
  }
  Ob& o = lru.front().second;
  o.count++;
  Ov& v = o.o[cn->value()];
  v.t = now;
  v.count++;
  v.force = force;
}
// The clock may be read with the precision of a second: what differs by less is a draw.
static const double kSlack = 2.6e-4;
bool UOM::suggest(const Walk& w, size_t cursor, double now, std::string* cand, bool* force) {
  close = false;
  int i = w.at(cursor);
  if (i < 0) return false;
  auto it = idx.find(obsKey(w, i));
  if (it == idx.end()) return false;
  const Ob& ob = it->second->second;
  double best = 0, second = 0;
  for (auto& kv : ob.o) {
    double d = std::exp((now - kv.second.t) * (std::log(0.5) / 5400.0));
    if (std::fabs(d * 1048576.0 - 1) < kSlack) close = true;
    if (d < 1.0 / 1048576.0) { expired++; continue; }
    double s = (double)kv.second.count / (double)ob.count * d;
    if (s > best) { second = best; best = s; *cand = kv.first; *force = kv.second.force; }
    else if (s > second) second = s;
  }
  if (best > 0 && second > 0 && (best - second) < best * kSlack) close = true;
  if (best > 0) suggested++;
  return best > 0;
}

// ---- phonetic symbols ------------------------------------------------------
namespace {
const char* const kC[] = {"ㄅ", "ㄆ", "ㄇ", "ㄈ", "ㄉ", "ㄊ", "ㄋ", "ㄌ", "ㄍ", "ㄎ", "ㄏ", "ㄐ", "ㄑ", "ㄒ", "ㄓ", "ㄔ", "ㄕ", "ㄖ", "ㄗ", "ㄘ", "ㄙ"};
const char* const kM[] = {"ㄧ", "ㄨ", "ㄩ"};
const char* const kV[] = {"ㄚ", "ㄛ", "ㄜ", "ㄝ", "ㄞ", "ㄟ", "ㄠ", "ㄡ", "ㄢ", "ㄣ", "ㄤ", "ㄥ", "ㄦ"};
const char* const kT[] = {"ˊ", "ˇ", "ˋ", "˙"};
struct Table {
  std::map<char, std::pair<int, std::string>> key;  // -> component class, symbol
  std::map<std::string, char> sym;
  Table(const char* c, const char* m, const char* v, const char* t) {
    auto put = [&](int cls, const char* const* s, const char* k) {
      for (size_t i = 0; k[i]; i++) { key[k[i]] = {cls, s[i]}; sym[s[i]] = k[i]; }
    };
    put(0, kC, c); put(1, kM, m); put(2, kV, v); put(3, kT, t);
  }
};
const Table& table(const std::string& layout) {
  static const Table std_("1qaz2wsxedcrfv5tgbyhn", "ujm", "8ik,9ol.0p;/-", "6347");
  static const Table eten("bpmfdtnlvkhg7c,./j;'s", "exu", "aorwiqzy890-=", "2341");
  return layout == "eten" ? eten : std_;
}
struct TableBuf : ReadingBuf {
  const Table& t;
  std::string part[4];
  explicit TableBuf(const Table& x) : t(x) {}
  bool valid(char c) const override { return c && t.key.count(c); }
  void combine(char c) override { auto& k = t.key.at(c); part[k.first] = k.second; }
  void clear() override { for (auto& p : part) p.clear(); }
  void backspace() override { for (int i = 3; i >= 0; i--) if (!part[i].empty()) { part[i].clear(); return; } }
  bool empty() const override { return display().empty(); }
  bool hasTone() const override { return !part[3].empty(); }
  bool toneOnly() const override { return hasTone() && part[0].empty() && part[1].empty() && part[2].empty(); }
  std::string syllable() const override { return part[0] + part[1] + part[2] + part[3]; }
  std::string display() const override { return syllable(); }
};
using Formosa::Mandarin::BopomofoKeyboardLayout;
struct LibBuf : ReadingBuf {
  Formosa::Mandarin::BopomofoReadingBuffer b;
  bool pinyin;
  LibBuf(const BopomofoKeyboardLayout* l, bool p) : b(l), pinyin(p) {}
  bool valid(char c) const override { return b.isValidKey(c); }
  void combine(char c) override { b.combineKey(c); }
  void clear() override { b.clear(); }
  void backspace() override { b.backspace(); }
  bool empty() const override { return b.composedString().empty(); }
  bool hasTone() const override { return b.hasToneMarker(); }
  bool toneOnly() const override { return b.hasToneMarkerOnly(); }
  std::string syllable() const override { return b.syllable().composedString(); }
  std::string display() const override { return b.composedString(); }
};
const char* punctName(const std::string& layout) {
  if (layout == "eten") return "ETen";
  if (layout == "hsu") return "Hsu";
  if (layout == "et26") return "ETen26";
  if (layout == "hanyupinyin") return "HanyuPinyin";
  if (layout == "ibm") return "IBM";
  return "Standard";
}
}  // namespace
std::unique_ptr<ReadingBuf> makeReadingBuf(const std::string& l) {
  if (l == "hsu") return std::make_unique<LibBuf>(BopomofoKeyboardLayout::HsuLayout(), false);
  if (l == "et26") return std::make_unique<LibBuf>(BopomofoKeyboardLayout::ETen26Layout(), false);
  if (l == "hanyupinyin") return std::make_unique<LibBuf>(BopomofoKeyboardLayout::HanyuPinyinLayout(), true);
  if (l == "ibm") return std::make_unique<LibBuf>(BopomofoKeyboardLayout::IBMLayout(), false);
  return std::make_unique<TableBuf>(table(l));
}
std::string keysFor(const std::string& layout, const std::string& syl) {
  if (layout == "hanyupinyin") {
    std::string s = Formosa::Mandarin::BPMF::FromComposedString(syl).HanyuPinyinString(true, false);
    if (!s.empty() && s.back() == '1') s.pop_back();
    bool tone = !s.empty() && s.back() >= '2' && s.back() <= '5';
    return s + (tone ? "" : " ");
  }
  const BopomofoKeyboardLayout* l = nullptr;
  if (layout == "hsu") l = BopomofoKeyboardLayout::HsuLayout();
  if (layout == "et26") l = BopomofoKeyboardLayout::ETen26Layout();
  if (layout == "ibm") l = BopomofoKeyboardLayout::IBMLayout();
  if (l) {
    auto b = Formosa::Mandarin::BPMF::FromComposedString(syl);
    std::string k = l->keySequenceFromSyllable(b);
    return b.hasToneMarker() ? k : k + " ";
  }
  const Table& t = table(layout);
  std::string k;
  bool tone = false;
  for (auto& c : codepoints(syl)) {
    auto it = t.sym.find(c);
    if (it == t.sym.end()) return "";
    k += it->second;
    tone = t.key.at(it->second).first == 3;
  }
  return tone ? k : k + " ";
}

// ---- keys ------------------------------------------------------------------
Key mapKey(const fcitx::Key& k) {
  Key r;
  bool sh = (bool)(k.states() & fcitx::KeyState::Shift), ct = (bool)(k.states() & fcitx::KeyState::Ctrl);
  auto ascii = [&](char c, bool s, bool t, bool np) { r.ascii = c; r.name = Key::ASCII; r.shift = s; r.ctrl = t; r.numpad = np; return r; };
  auto named = [&](Key::Name n, bool np) { r.name = n; r.shift = sh; r.ctrl = ct; r.numpad = np; return r; };
  if (k.isSimple()) return ascii((char)k.sym(), false, false, false);
  if (ct && !sh) {
    switch (k.sym()) {
      case FcitxKey_comma: case FcitxKey_period: case FcitxKey_slash: case FcitxKey_semicolon:
      case FcitxKey_apostrophe: case FcitxKey_backslash: return ascii((char)k.sym(), sh, ct, false);
      case FcitxKey_1: return ascii('!', sh, ct, false);
      default: break;
    }
  }
  switch (k.sym()) {
    case FcitxKey_BackSpace: return ascii(8, sh, ct, false);
    case FcitxKey_Return: return ascii(13, sh, ct, false);
    case FcitxKey_KP_Enter: return ascii(13, sh, ct, true);
    case FcitxKey_Escape: return ascii(27, sh, ct, false);
    case FcitxKey_space: return ascii(' ', sh, ct, false);
    case FcitxKey_Delete: case FcitxKey_KP_Delete: return ascii(127, sh, ct, false);
    case FcitxKey_Tab: return ascii(9, sh, ct, false);
    case FcitxKey_Left: return named(Key::LEFT, false);
    case FcitxKey_KP_Left: return named(Key::LEFT, true);
    case FcitxKey_Right: return named(Key::RIGHT, false);
    case FcitxKey_KP_Right: return named(Key::RIGHT, true);
    case FcitxKey_Home: return named(Key::HOME, false);
    case FcitxKey_KP_Home: return named(Key::HOME, true);
    case FcitxKey_End: return named(Key::END, false);
    case FcitxKey_KP_End: return named(Key::END, true);
    case FcitxKey_Up: case FcitxKey_KP_Up: return named(Key::UP, false);
    case FcitxKey_Down: return named(Key::DOWN, false);
    case FcitxKey_KP_Down: return named(Key::DOWN, true);
    default: break;
  }
  if (k.sym() >= FcitxKey_KP_0 && k.sym() <= FcitxKey_KP_9) return ascii((char)('0' + (k.sym() - FcitxKey_KP_0)), sh, ct, true);
  switch (k.sym()) {
    case FcitxKey_KP_Decimal: return ascii('.', sh, ct, true);
    case FcitxKey_KP_Add: return ascii('+', sh, ct, true);
    case FcitxKey_KP_Subtract: return ascii('-', sh, ct, true);
    case FcitxKey_KP_Multiply: return ascii('*', sh, ct, true);
    case FcitxKey_KP_Divide: return ascii('/', sh, ct, true);
    default: break;
  }
  return r;
}

// ---- the engine ------------------------------------------------------------
Engine::Engine() { start(); }
void Engine::start() {
  grid = Grid();
  grid.lm = &lm;
  walk = Walk();
  uom.clear();
  reading = makeReadingBuf("standard");
  layoutInForce = "standard";
  st = std::make_shared<State>();
  panel.clear();
  plain = false;
  snapshotStale = false;
}
StateP Engine::mk(StateType t) { auto s = std::make_shared<State>(); s->t = t; return s; }
StateP Engine::mkCommit(const std::string& t) { auto s = mk(Committing); s->buf = t; return s; }
void Engine::doWalk() { walk = grid.walk(); if (walk.tie) fx.tie = true; }

void Engine::resetHandler() {
  reading->clear();
  grid.clear();
  walk = Walk();
  snapshotStale = false;
}
size_t Engine::actual(size_t i) const {
  size_t n = grid.rd.size();
  if (i > n) return n ? n - 1 : 0;
  if (i == n && i > 0) return i - 1;
  if (!inForce.afterCursor && i > 0) return i - 1;
  return i;
}

// Text before and after a reading position. Inside a unit the position is
// clamped to as many characters as the unit has.
Engine::Composed Engine::composed(size_t cursor) const {
  Composed c;
  size_t pos = 0;
  for (auto& n : walk.nodes) {
    const std::string& v = n->value();
    if (pos >= cursor) { c.tail += v; continue; }
    if (pos + n->len <= cursor) { c.head += v; pos += n->len; continue; }
    auto cps = codepoints(v);
    size_t k = std::min(cursor - pos, cps.size());
    for (size_t i = 0; i < cps.size(); i++) (i < k ? c.head : c.tail) += cps[i];
    pos = cursor;
    if (cps.size() < n->len) c.tip = "Cursor is between syllables " + grid.rd[cursor - 1] + " and " + grid.rd[cursor];
  }
  return c;
}
StateP Engine::mkInputting() {
  auto c = composed(grid.cursor);
  auto s = mk(Inputting);
  s->buf = c.head + reading->display() + c.tail;
  s->cur = c.head.size() + reading->display().size();
  s->tip = c.tip;
  return s;
}
StateP Engine::mkChoosing(const State& ne, size_t orig) {
  auto s = mk(Choosing);
  s->buf = ne.buf;
  s->cur = ne.cur;
  s->orig = orig;
  s->cands = grid.candidates(actual(grid.cursor));
  return s;
}
StateP Engine::mkMarking(size_t begin) {
  size_t a = std::min(begin, grid.cursor), b = std::max(begin, grid.cursor);
  auto from = composed(a), to = composed(b);
  auto s = mk(Marking);
  s->head = from.head;
  s->marked = to.head.substr(from.head.size());
  s->tail = to.tail;
  s->buf = s->head + s->marked + s->tail;
  s->cur = composed(grid.cursor).head.size();
  s->markStart = begin;
  std::vector<std::string> r(grid.rd.begin() + (long)a, grid.rd.begin() + (long)b);
  s->reading = joinReadings(r);
  s->ok = false;
  if (r.size() >= 2 && r.size() <= 6) {
    bool exists = false;
    if (lm.has(s->reading)) for (auto& u : lm.get(s->reading)) if (u.v == s->marked) exists = true;
    // a phrase file line cannot hold blanks inside a column, nor start with '#'
    auto storable = [](const std::string& t) { return t.find_first_of(" \t\r\n") == std::string::npos; };
    s->ok = !exists && !s->marked.empty() && s->marked[0] != '#' && storable(s->marked) && storable(s->reading);
    s->tip = s->ok ? "press Enter to add the phrase" : exists ? "phrase already exists" : "phrase cannot be stored";
  } else s->tip = r.size() < 2 ? "2 syllables required" : "6 syllables maximum";
  std::string rr;
  for (auto& x : r) rr += (rr.empty() ? "" : " ") + x;
  s->tip = "Marked: " + s->marked + ", syllables: " + rr + ", " + s->tip;
  return s;
}
StateP Engine::mkDict(StateP prev, const std::string& phrase, size_t sel) {
  auto s = mk(SelDict);
  s->buf = prev->buf;
  s->cur = prev->cur;
  s->tip = prev->tip;
  s->prev = prev;
  s->phrase = phrase;
  s->selIdx = sel;
  for (auto& d : services)
    s->menu.push_back(d.url.empty() ? "Character Information" : "Look up \"" + phrase + "\" in " + d.name);
  return s;
}
StateP Engine::mkAssoc(StateP prev, size_t pc, const std::string& r, const std::string& v, size_t sel, bool useShift) {
  auto ph = lm.associated(v, splitReadings(r));
  if (ph.empty()) return nullptr;
  auto s = mk(Assoc);
  s->buf = prev->buf;
  s->cur = prev->cur;
  s->tip = prev->tip;
  s->prev = prev;
  s->prefixCursor = pc;
  s->prefixR = r;
  s->prefixV = v;
  s->selIdx = sel;
  s->useShift = useShift;
  for (auto& p : ph) s->cands.push_back({joinReadings(p.readings), p.value});
  return s;
}
StateP Engine::mkAssocPlain(const std::string& r, const std::string& v) {
  auto sr = splitReadings(r);
  auto ph = lm.associated(v, sr);
  auto s = mk(AssocPlain);
  for (auto& p : ph) {
    if (p.readings.size() <= sr.size()) continue;
    std::vector<std::string> rest(p.readings.begin() + (long)sr.size(), p.readings.end());
    s->cands.push_back({joinReadings(rest), p.value.substr(v.size())});
  }
  return s->cands.empty() ? nullptr : s;
}

// Menus and windows with long entries are always vertical.
int Engine::layoutFor(const State& s) const {
  if (s.t == SelDict || s.t == CharInfo || s.t == Feature || s.t == DateMacro) return 1;
  if (s.t == Choosing) for (auto& c : s.cands) if (codepoints(c.v).size() > 8) return 1;
  return stored.candLayout == "Vertical" ? 1 : stored.candLayout == "Horizontal" ? 2 : 0;
}
// To the next or previous page and its first entry; after the last page comes the first one.
void Engine::turnPage(const ObsList& o, bool fwd) {
  int pages = (o.total + o.pageSize - 1) / o.pageSize;
  if (pages < 2) { panel.page = 0; panel.hi = -1; return; }
  panel.page = (o.page + (fwd ? 1 : pages - 1)) % pages;
  panel.hi = panel.page * o.pageSize;
}
void Engine::moveHighlight(const ObsList& o, bool fwd) {
  if (o.cursor < 0 || o.total < 1) return;
  panel.hi = (o.page * o.pageSize + o.cursor + (fwd ? 1 : o.total - 1)) % o.total;
  panel.page = panel.hi / o.pageSize;
}
void Engine::page(const ObsList& o, bool fwd) {
  turnPage(o, fwd);
}

void Engine::setList(const StateP& s) {
  panel.hasList = true;
  panel.perPage = stored.keyCount;
  panel.selKeys = stored.selKeys.substr(0, (size_t)stored.keyCount);
  panel.shiftLabels = s->t == AssocPlain || (s->t == Assoc && s->useShift);
  panel.layout = layoutFor(*s);
  panel.page = panel.hi = 0;
  panel.list.clear();
  switch (s->t) {
    case Choosing: {
      std::map<std::string, int> n;
      for (auto& c : s->cands) n[c.v]++;
      for (auto& c : s->cands) {
        std::string d = c.v;
        if (n[c.v] > 1) {
          std::string r = c.r;
          std::replace(r.begin(), r.end(), '-', ' ');
          d += " (" + r + ")";
        }
        panel.list.push_back(d);
      }
      break;
    }
    case Assoc: case AssocPlain: for (auto& c : s->cands) panel.list.push_back(c.v); break;
    case SelDict: case DateMacro: panel.list = s->menu; break;
    case Feature: panel.list = {"日期與時間", "標題數字", "中文數字", "大寫數字", "蘇州碼"}; break;
    case CharInfo:
      panel.list = {"UTF8 String Length: " + std::to_string(s->phrase.size()),
                    "Code Point Count: " + std::to_string(codepoints(s->phrase).size())};
      break;
    default: break;
  }
}

void Engine::enter(StateP n) {
  StateP prev = st;
  st = n;
  bool ignore = n->t == Empty && n->ok;  // "ok" marks the variant that drops the previous text
  panel.clear();
  switch (n->t) {
    case Empty:
      if (!ignore && prev->notEmpty() && !prev->buf.empty()) fx.commits.push_back(prev->buf);
      st = mk(Empty);
      break;
    case Committing:
      if (!n->buf.empty()) fx.commits.push_back(n->buf);
      break;
    case ChineseNumber: case EnclosingNumber: {
      static const char* const lab[] = {"[中文數字] ", "[大寫數字] ", "[蘇州碼] "};
      panel.preedit = (n->t == EnclosingNumber ? std::string("[標題數字] ") : std::string(lab[n->style])) + n->number;
      panel.cursor = (int)panel.preedit.size();
      panel.label = true;
      break;
    }
    default:
      if (n->hasCandidates()) setList(n);
      if (n->notEmpty()) {
        panel.preedit = n->buf;
        panel.cursor = (int)n->cur;
        panel.tip = n->tip;
        if (n->t == Marking) { panel.marking = true; panel.head = n->head; panel.marked = n->marked; panel.tail = n->tail; }
      }
  }
}
static StateP emptyIgnoring() { auto s = std::make_shared<State>(); s->t = Empty; s->ok = true; return s; }

void Engine::resetFromEvent() { resetHandler(); st = mk(Empty); }
void Engine::deactivateSwitch() { resetHandler(); enter(mk(Empty)); }
void Engine::activate(bool plainMode) {
  plain = plainMode;
  inForce = stored;
  if (layoutInForce != inForce.layout) { reading = makeReadingBuf(inForce.layout); layoutInForce = inForce.layout; }
}

// -- a key while a candidate window is up; returns whether it is finished
bool Engine::candidateKey(const fcitx::Key& key, const fcitx::Key& raw, const ObsList& obs) {
  StateP s = st;
  bool assoc = s->t == Assoc, assocPlain = s->t == AssocPlain;
  panel.page = obs.page;
  panel.hi = obs.page * obs.pageSize + obs.cursor;
  // back from a sub-window: the same page and entry as before
  auto back = [&](StateP to, size_t sel) {
    enter(to);
    if (to->t == Choosing) { panel.page = (int)sel / panel.perPage; panel.hi = (int)sel; }
  };
  bool shiftMode = assocPlain || (assoc && s->useShift);
  auto pick = [&](int i) { if (i >= 0 && i < obs.size) selectIdx((size_t)(obs.page * obs.pageSize + i)); };
  if (shiftMode) {
    if ((raw.states() & fcitx::KeyState::Shift) && raw.code() >= 10 && raw.code() <= 18) { pick(raw.code() - 10); return true; }
  } else {
    const char* keys = panel.selKeys.c_str();
    int idx = -1;
    for (int i = 0; keys[i]; i++) if (key.check(static_cast<FcitxKeySym>(keys[i]))) { idx = i; break; }
    if (idx < 0 && panel.selKeys[0] == '1')
      for (int i = 0; i < 9; i++) if (key.check(static_cast<FcitxKeySym>(FcitxKey_KP_1 + i))) idx = i;
    if (idx >= 0 && idx < obs.size) { pick(idx); return true; }
  }
  auto shiftKey = [&](FcitxKeySym sym) { return key.check(sym, fcitx::KeyStates(fcitx::KeyState::Shift)); };
  bool left = (stored.allowMoving && key.check(FcitxKey_j)) || shiftKey(FcitxKey_Left);
  bool right = (stored.allowMoving && key.check(FcitxKey_k)) || shiftKey(FcitxKey_Right);
  if (!plain && s->t == Choosing && (left || right)) {
    if (left && grid.cursor > 0) grid.cursor--;
    if (right && grid.cursor < grid.rd.size()) grid.cursor++;
    enter(mkChoosing(*mkInputting(), grid.cursor));
    return true;
  }
  bool cancel = false;
  if (!plain && key.check(FcitxKey_question)) {
    if (s->t == Choosing) {
      int i = obs.page * obs.pageSize + obs.cursor;
      enter(mkDict(s, s->cands.at((size_t)i).v, (size_t)i));
      return true;
    }
    if (s->t == SelDict || s->t == CharInfo) cancel = true;
  }
  if (!plain && !shiftMode && raw.code() == 36 && (raw.states() & fcitx::KeyState::Shift) && s->t == Choosing && obs.cursor < obs.size) {
    size_t g = (size_t)(obs.page * obs.pageSize + obs.cursor);
    auto n = mkAssoc(s, actual(s->orig), s->cands.at(g).r, s->cands.at(g).v, g, false);
    if (n) enter(n);
    return true;
  }
  if (shiftMode ? shiftKey(FcitxKey_Return) : key.check(FcitxKey_Return)) { pick(obs.cursor); return true; }
  if (cancel || key.check(FcitxKey_Escape) || key.check(FcitxKey_BackSpace)) {
    if (s->t == CharInfo) { enter(s->prev); return true; }
    if (s->t == SelDict) { back(s->prev, s->selIdx); return true; }
    if (assoc) {
      if (s->useShift) return false;
      back(s->prev, s->selIdx);
      return true;
    }
    cancelled(s->t == Choosing ? s->orig : 0);
    return true;
  }
  panel.layout = layoutFor(*s);
  bool vertical = panel.layout == 1;
  if (key.check(FcitxKey_space)) {
    if (assoc && s->useShift) return false;
    turnPage(obs, true);
    return true;
  }
  struct Nav { FcitxKeySym sym; char v, h; };  // n/p: next or previous entry; N/P: page
  static const Nav nav[] = {{FcitxKey_Down, 'n', 'N'}, {FcitxKey_Up, 'p', 'P'}, {FcitxKey_Right, 'N', 'n'}, {FcitxKey_Left, 'P', 'p'},
                            {FcitxKey_KP_Down, 0, 'N'}, {FcitxKey_KP_Up, 0, 'P'}, {FcitxKey_KP_Right, 'N', 'n'}, {FcitxKey_KP_Left, 'P', 'p'},
                            {FcitxKey_Page_Down, 'N', 'N'}, {FcitxKey_Page_Up, 'P', 'P'}, {FcitxKey_KP_Page_Down, 'N', 'N'}, {FcitxKey_KP_Page_Up, 'P', 'P'}};
  for (auto& x : nav) {
    char what = vertical ? x.v : x.h;
    if (!what || !key.check(x.sym)) continue;
    if (what == 'n' || what == 'p') moveHighlight(obs, what == 'n'); else turnPage(obs, what == 'N');
    return true;
  }
  if (assoc && !raw.isModifier()) return false;
  if (assocPlain && !raw.isModifier()) { enter(mk(Empty)); return false; }
  if (s->t == Choosing && plain) {
    Key k = mapKey(key);
    std::string c(1, k.ascii);
    bool go = reading->valid(k.ascii) || lm.has(std::string("_punctuation_") + punctName(layoutInForce) + "_" + c) ||
              lm.has("_punctuation_" + c) || (k.ascii >= 'A' && k.ascii <= 'Z' && lm.has("_letter_" + c));
    if (go) {
      pick(obs.cursor);
      resetHandler();
      handle(k, mk(Empty));
      return true;
    }
  }
  return true;
}

bool Engine::key(const fcitx::Key& k, const fcitx::Key& raw, const ObsList& obs, bool* accepted) {
  *accepted = false;
  if (k.states() & fcitx::KeyState::Alt || k.states() & fcitx::KeyState::Super || k.states() & fcitx::KeyState::CapsLock) return true;
  if (st->hasCandidates()) {
    *accepted = true;
    if (!obs.present) return false;  // cannot happen: a pending choice without its window
    if (candidateKey(k, raw, obs)) return true;
  }
  if (handle(mapKey(k), st)) *accepted = true;
  return true;
}

void Engine::selectIdx(size_t i) {
  StateP s = st;
  switch (s->t) {
    case Choosing: candidateSelected(s->cands.at(i), s->orig); break;
    case AssocPlain: candidateSelected(s->cands.at(i), 0); break;
    case Assoc: {
      Cand c = s->cands.at(i);
      pinAssoc(s->prefixCursor, s->prefixR, s->prefixV, c);
      enter(mkInputting());
      break;
    }
    case SelDict: {
      auto& d = services.at(i);
      if (d.url.empty()) {
        auto n = mk(CharInfo);
        n->buf = s->buf; n->cur = s->cur; n->tip = s->tip; n->prev = s; n->phrase = s->phrase;
        enter(n);
      } else {
        std::string enc;
        for (unsigned char c : s->phrase) {
          if (isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') enc += (char)c;
          else { char b[8]; snprintf(b, sizeof b, "%%%02X", c); enc += b; }
        }
        std::string u = d.url;
        size_t p = u.find("(encoded)");
        if (p != std::string::npos) u.replace(p, 9, enc);
        fx.starts.push_back({"xdg-open", u});
        enter(mk(Empty));
        resetHandler();
      }
      break;
    }
    case Feature: {
      StateP n;
      if (i == 0) {
        n = mk(DateMacro);
        for (const char* m : {"MACRO@DATE_TODAY_SHORT", "MACRO@DATE_TODAY_MEDIUM", "MACRO@DATE_TODAY_MEDIUM_ROC",
                              "MACRO@DATE_TODAY_MEDIUM_CHINESE", "MACRO@DATE_TODAY_MEDIUM_JAPANESE", "MACRO@THIS_YEAR_PLAIN",
                              "MACRO@THIS_YEAR_PLAIN_WITH_ERA", "MACRO@THIS_YEAR_ROC", "MACRO@THIS_YEAR_JAPANESE",
                              "MACRO@DATE_TODAY_WEEKDAY_SHORT", "MACRO@DATE_TODAY_WEEKDAY", "MACRO@DATE_TODAY2_WEEKDAY",
                              "MACRO@DATE_TODAY_WEEKDAY_JAPANESE", "MACRO@TIME_NOW_SHORT", "MACRO@TIME_NOW_MEDIUM",
                              "MACRO@THIS_YEAR_GANZHI", "MACRO@THIS_YEAR_CHINESE_ZODIAC"})
          n->menu.push_back(lm.macro(m));
      } else if (i == 1) n = mk(EnclosingNumber);
      else { n = mk(ChineseNumber); n->style = (int)i - 2; }
      enter(n);
      break;
    }
    case DateMacro: enter(mkCommit(s->menu.at(i))); break;
    default: break;  // information only
  }
}
void Engine::click(size_t i) { if (st->hasCandidates() && i < panel.list.size()) selectIdx(i); }

void Engine::candidateSelected(const Cand& c0, size_t orig) {
  Cand c = c0;
  if (plain) {
    resetHandler();
    enter(mkCommit(c.v));
    if (inForce.assoc) if (auto n = mkAssocPlain(c.r, c.v)) enter(n);
    return;
  }
  pin(orig, c);
  enter(mkInputting());
  if (inForce.assoc) handleAssociated(true, true);
}
void Engine::cancelled(size_t orig) {
  if (plain || (grid.rd.empty() && reading->empty())) { resetHandler(); enter(emptyIgnoring()); return; }
  grid.cursor = std::min(orig, grid.rd.size());
  enter(mkInputting());
}
void Engine::pin(size_t orig, const Cand& c, bool useMove) {
  size_t at = actual(grid.cursor);
  if (!grid.override_(at, &c.r, c.v, 2)) return;
  Walk before = walk;
  // what was composed before the pick, as it was: nodes are shared, so keep values
  Walk prev;
  prev.total = before.total;
  prev.nodes = before.nodes;
  doWalk();
  size_t past = 0;
  int i = walk.at(at, &past);
  if (i < 0) return;
  auto& n = walk.nodes[(size_t)i];
  if (n->unis[n->sel].s > -8.0) uom.observe(prev, walk, at, now());
  grid.cursor = useMove && inForce.moveCursor ? past : std::min(orig, grid.rd.size());
}
void Engine::pinAssoc(size_t prefixCursor, const std::string& pr, const std::string& pv, const Cand& c) {
  if (grid.rd.empty()) return;
  size_t at = prefixCursor >= grid.rd.size() ? grid.rd.size() - 1 : prefixCursor;
  size_t past = 0;
  int i = walk.at(at, &past);
  if (i < 0) return;
  auto rds = splitReadings(c.r);
  {
    // one that cannot be composed any more changes nothing
    bool there = false;
    for (auto& h : grid.overlapping(at)) if (h.n->reading == pr) for (auto& u : h.n->unis) if (u.v == pv) there = true;
    if (!there) return;
    for (size_t k = splitReadings(pr).size(); k < rds.size(); k++) if (!lm.has(rds[k])) return;
  }
  {
    NodeP n = walk.nodes[(size_t)i];
    auto vals = codepoints(n->value());
    if (vals.size() == n->len)
      for (size_t k = 0; k < vals.size(); k++) grid.override_(past - n->len + k, nullptr, vals[k], 2);
  }
  if (!grid.override_(at, &pr, pv, 2)) return;
  doWalk();
  i = walk.at(at, &past);
  if (i < 0) return;
  grid.cursor = past;
  auto vals = codepoints(c.v);
  size_t len = walk.nodes[(size_t)i]->len;
  if (len >= rds.size()) return;
  for (size_t k = len; k < rds.size(); k++) {
    grid.insert(rds[k]);
    if (k < vals.size()) grid.override_(past, nullptr, vals[k], 2);
    grid.cursor = ++past;
  }
  grid.override_(at, nullptr, c.v, 2);
  doWalk();
}

// -- everything else
bool Engine::handle(const Key& k, StateP s) {
  if (k.ascii == '\\' && k.ctrl) {
    enter(mk(Empty));
    enter(mk(Feature));
    resetHandler();
    return true;
  }
  if (s->t == ChineseNumber) return handleChinese(k, s);
  if (s->t == EnclosingNumber) return handleEnclosing(k, s);

  char c = (k.ctrl || k.shift || k.numpad) ? 0 : k.ascii;
  bool consumed = false;
  if (reading->valid(c)) {
    reading->combine(c);
    consumed = true;
    if (!reading->hasTone()) { enter(mkInputting()); return true; }
  }
  if ((reading->hasTone() && !reading->toneOnly()) || (!reading->empty() && c == ' ')) {
    std::string syl = reading->syllable();
    reading->clear();
    if (!lm.has(syl) || !grid.insert(syl)) {
      if (grid.rd.empty()) enter(emptyIgnoring()); else enter(mkInputting());
      return true;
    }
    doWalk();
    if (!plain) {
      std::string cand;
      bool force = false;
      size_t at = actual(grid.cursor);
      if (uom.suggest(walk, at, now(), &cand, &force)) {
        grid.override_(at, nullptr, cand, force ? 2 : 1);
        doWalk();
      }
      if (uom.close) fx.tie = true;
      enter(mkInputting());
      if (inForce.assoc) handleAssociated(true, true);
    } else {
      auto ch = mkChoosing(*mkInputting(), grid.cursor);
      if (ch->cands.size() == 1) {
        resetHandler();
        Cand x = ch->cands[0];
        enter(mkCommit(x.v));
        if (inForce.assoc) if (auto n = mkAssocPlain(x.r, x.v)) enter(n);
      } else enter(ch);
    }
    return true;
  }
  if (consumed) { enter(mkInputting()); return true; }

  bool ne = s->notEmpty();
  if (k.ascii == ' ' && k.shift) {
    if (inForce.putLower) {
      grid.insert(" ");
      doWalk();
      enter(mkInputting());
    } else {
      if (!grid.rd.empty() || !reading->empty()) enter(mkCommit(mkInputting()->buf));
      enter(mkCommit(" "));
      resetHandler();
    }
    return true;
  }
  if ((c == ' ' || k.name == Key::DOWN) && ne && reading->empty()) {
    size_t orig = grid.cursor;
    if (orig == grid.rd.size() && orig > 0 && inForce.afterCursor && inForce.moveCursor) grid.cursor = orig - 1;
    enter(mkChoosing(*mkInputting(), orig));
    return true;
  }
  if (c == 27) {
    if (!ne) return false;
    if (inForce.escClears) { resetHandler(); enter(emptyIgnoring()); return true; }
    reading->clear();
    if (grid.rd.empty()) enter(emptyIgnoring()); else enter(mkInputting());
    return true;
  }
  if (k.ascii == 9) return handleTab(k, s);
  if (k.name == Key::LEFT || k.name == Key::RIGHT || k.name == Key::HOME || k.name == Key::END) return handleCursor(k, s);
  if (k.ascii == 8 || k.ascii == 127) return handleDelete(k, s);
  if (k.ascii == 13) {
    if (!ne) return false;
    if (!reading->empty()) { enter(mkInputting()); return true; }
    if (k.shift && !plain) { handleAssociated(s->t == Inputting, false); return true; }
    if (k.ctrl && !plain) {
      if (inForce.ctrlEnter == "disabled") return false;
      enter(mkCommit(inForce.ctrlEnter == "output_bpmf_reading" ? joinReadings(grid.rd) : ruby()));
      resetHandler();
      return true;
    }
    if (s->t == Marking) {
      if (s->ok) {
        fx.adds.push_back({s->reading, s->marked});
        if (onAdd) onAdd(s->reading, s->marked);
        if (stored.hookOn)
          fx.starts.push_back({"/bin/sh", stored.hookPath.empty() ? "/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh" : stored.hookPath, s->marked});
        if (s->markStart == grid.rd.size() && grid.cursor < s->markStart) grid.cursor = grid.rd.size();
        enter(mkInputting());
      } else enter(mkMarking(s->markStart));
      return true;
    }
    enter(mkCommit(mkInputting()->buf));
    resetHandler();
    return true;
  }
  if (c == '?' && s->t == Marking) { enter(mkDict(s, s->marked, 0)); return true; }
  if (c == '`' && lm.has("_punctuation_list")) {
    if (reading->empty()) {
      grid.insert("_punctuation_list");
      doWalk();
      size_t orig = grid.cursor;
      if (inForce.afterCursor) grid.cursor = orig - 1;
      auto in = mkInputting();
      auto ch = mkChoosing(*in, orig);
      enter(in);
      enter(ch);
    }
    return true;
  }
  if (k.ascii) {
    std::string a(1, k.ascii), L = punctName(layoutInForce);
    if (k.ctrl) return handlePunct("_ctrl_punctuation_" + a);
    if (inForce.half && (handlePunct("_half_punctuation_" + L + "_" + a) || handlePunct("_half_punctuation_" + a))) return true;
    if (handlePunct("_punctuation_" + L + "_" + a) || handlePunct("_punctuation_" + a)) return true;
    if (c >= 'A' && c <= 'Z') {
      if (inForce.putLower) handlePunct("_letter_" + a);
      else {
        if (!ne) return false;
        enter(mkCommit(mkInputting()->buf));
        enter(mkCommit(a));
        resetHandler();
      }
      return true;
    }
  }
  if (ne) {
    if (s->t != Marking) enter(mkInputting());
    return true;
  }
  return false;
}

bool Engine::handlePunct(const std::string& key) {
  if (!lm.has(key)) return false;
  if (!reading->empty()) { enter(mkInputting()); return true; }
  grid.insert(key);
  doWalk();
  if (plain) {
    auto ch = mkChoosing(*mkInputting(), grid.cursor);
    if (ch->cands.size() == 1) { resetHandler(); enter(mkCommit(ch->cands[0].v)); }
    else enter(ch);
  } else {
    enter(mkInputting());
    if (inForce.assoc) handleAssociated(true, true);
  }
  return true;
}

void Engine::handleAssociated(bool inputting, bool useShift) {
  size_t cursor = grid.cursor;
  if (cursor < 1 || !inputting) return;
  size_t past = 0;
  int i = walk.at(cursor - 1, &past);
  if (i < 0 || past == 0) return;
  auto& n = walk.nodes[(size_t)i];
  auto cps = codepoints(n->value());
  auto rds = splitReadings(n->reading);
  if (cps.size() != rds.size() || past < rds.size()) return;
  size_t maxLen = cursor - (past - rds.size());
  for (size_t len = maxLen; len > 0; len--) {
    std::vector<std::string> r(rds.begin() + (long)(maxLen - len), rds.begin() + (long)maxLen);
    std::string v;
    for (size_t k = maxLen - len; k < maxLen; k++) v += cps[k];
    if (auto s = mkAssoc(mkInputting(), cursor - 1, joinReadings(r), v, 0, useShift)) { enter(s); return; }
  }
}

bool Engine::handleTab(const Key& k, StateP s) {
  if (reading->empty() && walk.nodes.empty()) return false;
  if (s->t != Inputting || !reading->empty()) return true;
  auto cs = mkChoosing(*s, grid.cursor)->cands;
  if (cs.empty()) return true;
  int i = walk.at(actual(grid.cursor));
  if (i < 0) return true;
  auto n = walk.nodes[(size_t)i];
  size_t idx = 0;
  auto same = [&](const Cand& c) { return c.r == n->reading && c.v == n->value(); };
  if (!n->ovr) {
    if (same(cs[0])) idx = k.shift ? cs.size() - 1 : 1;
  } else {
    while (idx < cs.size() && !same(cs[idx])) idx++;
    if (idx < cs.size()) idx = k.shift ? (idx == 0 ? cs.size() - 1 : idx - 1) : idx + 1;
  }
  if (idx >= cs.size()) idx = 0;
  pin(grid.cursor, cs[idx], false);
  enter(mkInputting());
  return true;
}
bool Engine::handleCursor(const Key& k, StateP s) {
  if (s->t != Inputting && s->t != Marking) return false;
  size_t begin = s->t == Marking ? s->markStart : grid.cursor;
  if (!reading->empty()) { enter(mkInputting()); return true; }
  if (k.name == Key::LEFT && grid.cursor > 0) grid.cursor--;
  if (k.name == Key::RIGHT && grid.cursor < grid.rd.size()) grid.cursor++;
  if (k.name == Key::HOME) grid.cursor = 0;
  if (k.name == Key::END) grid.cursor = grid.rd.size();
  if (k.shift && grid.cursor != begin) enter(mkMarking(begin)); else enter(mkInputting());
  return true;
}
bool Engine::handleDelete(const Key& k, StateP s) {
  if (!s->notEmpty()) return false;
  if (reading->toneOnly()) reading->clear();
  else if (reading->empty()) {
    bool ok = k.ascii == 8 ? grid.delBefore() : grid.delAfter();
    if (!ok) {
      if (grid.rd.empty()) enter(emptyIgnoring()); else enter(mkInputting());
      return true;
    }
    doWalk();
  } else if (k.ascii == 8) reading->backspace();
  if (reading->empty() && grid.rd.empty()) enter(emptyIgnoring()); else enter(mkInputting());
  return true;
}
bool Engine::handleChinese(const Key& k, StateP s) {
  auto n = std::make_shared<State>(*s);
  if (k.ascii == 27) { enter(emptyIgnoring()); return true; }
  if (k.ascii == 8 || k.ascii == 127) {
    if (!s->number.empty()) { n->number.pop_back(); enter(n); }
    return true;
  }
  if (k.ascii == 13) {
    if (s->number.empty()) { enter(mk(Empty)); return true; }
    size_t dot = s->number.find('.');
    std::string ip = s->number.substr(0, dot), dp = dot == std::string::npos ? "" : s->number.substr(dot + 1), out;
    if (s->style == 2) out = SuzhouNumbers::Generate(ip, dp, "單位", true);
    else out = ChineseNumbers::Generate(ip, dp, s->style == 0 ? ChineseNumbers::ChineseNumberCase::LOWERCASE : ChineseNumbers::ChineseNumberCase::UPPERCASE);
    enter(mkCommit(out));
    return true;
  }
  bool digit = k.ascii >= '0' && k.ascii <= '9', dot = k.ascii == '.';
  if (s->number.size() > 20 || !(digit || dot)) return true;
  if (dot && (s->number.empty() || s->number.find('.') != std::string::npos)) return true;
  n->number += k.ascii;
  enter(n);
  return true;
}
bool Engine::handleEnclosing(const Key& k, StateP s) {
  auto n = std::make_shared<State>(*s);
  if (k.ascii == 27) { enter(emptyIgnoring()); return true; }
  if (k.ascii == 8 || k.ascii == 127) {
    if (!s->number.empty()) { n->number.pop_back(); enter(n); }
    return true;
  }
  if (k.ascii == 13 || k.ascii == ' ') {
    if (s->number.empty()) { enter(mk(Empty)); return true; }
    std::string key = "_number_" + s->number;
    if (!lm.has(key)) return true;
    auto u = lm.get(key);
    if (u.size() == 1) { enter(mkCommit(u[0].v)); enter(mk(Empty)); return true; }
    grid.insert(key);
    doWalk();
    size_t orig = grid.cursor;
    if (inForce.afterCursor) grid.cursor = orig - 1;
    auto in = mkInputting();
    auto ch = mkChoosing(*in, orig);
    enter(in);
    enter(ch);
    return true;
  }
  if (k.ascii < '0' || k.ascii > '9' || s->number.size() > 2) return true;
  n->number += k.ascii;
  enter(n);
  return true;
}
std::string Engine::ruby() const {
  std::string r;
  for (auto& n : walk.nodes) {
    std::string k = n->reading;
    std::replace(k.begin(), k.end(), '-', ' ');
    r += k[0] == '_' ? n->value() : "<ruby>" + n->value() + "<rp>(</rp><rt>" + k + "</rt><rp>)</rp></ruby>";
  }
  return r;
}
}  // namespace model
