// Language data made from a seed: the excerpt of the shipped data with some syllables given other numbers of
// candidates, longer values, other phrases, other punctuation and other associated phrases. What is shipped changes
// from release to release; the program has to be right with any of it.
#include "data.h"

#include <algorithm>
#include <cstdio>
#include <map>
#include <set>

#include "env.h"
#include "model.h"

namespace sim {
namespace {
struct Row { std::string k, v, s; };
std::vector<Row> parse(const std::string& t) {
  std::vector<Row> r;
  size_t p = 0;
  while (p < t.size()) {
    size_t q = t.find('\n', p);
    if (q == std::string::npos) q = t.size();
    std::string l = t.substr(p, q - p);
    p = q + 1;
    if (l.empty() || l.compare(0, 9, "# format ") == 0) continue;
    size_t a = l.find(' '), b = l.rfind(' ');
    if (a == std::string::npos || b <= a) continue;
    r.push_back({l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)});
  }
  return r;
}
std::string print(const std::vector<Row>& rows) {
  std::vector<std::string> l;
  for (auto& r : rows) l.push_back(r.k + " " + r.v + " " + r.s);
  std::sort(l.begin(), l.end());
  l.erase(std::unique(l.begin(), l.end()), l.end());
  std::string t = "# format org.openvanilla.mcbopomofo.sorted\n";
  for (auto& s : l) t += s + "\n";
  return t;
}
size_t chars(const std::string& s) {
  size_t n = 0;
  for (unsigned char c : s) if ((c & 0xC0) != 0x80) n++;
  return n;
}
}  // namespace

SynthData synthesize(uint64_t seed, const std::string& main0, const std::string& plain0, const std::string& assoc0) {
  Rng r(seed ^ 0x5d2f11c3u);
  SynthData d;
  std::vector<Row> main = parse(main0), plain = parse(plain0), assoc;
  bool coarse = r.chance(.15);
  auto score = [&](double lo, double hi) {
    char b[40];
    double x = lo + (hi - lo) * (double)r.below(1000001) / 1e6;
    snprintf(b, sizeof b, coarse ? "%.1f" : "%.7f", x);
    return std::string(b);
  };
  // what there is
  std::map<std::string, std::vector<std::string>> one;   // syllable -> characters
  std::vector<std::string> all;
  for (auto& x : main)
    if (x.k[0] != '_' && x.k.find('-') == std::string::npos) { one[x.k].push_back(x.v); if (chars(x.v) == 1) all.push_back(x.v); }
  std::vector<std::string> syl;
  for (auto& x : one) syl.push_back(x.first);
  std::set<std::string> hotSet;
  size_t hots = 5 + r.below(8);
  while (hotSet.size() < hots) hotSet.insert(r.pick(syl));
  std::vector<std::string> hot(hotSet.begin(), hotSet.end());
  for (size_t i = hot.size(); i > 1; i--) std::swap(hot[i - 1], hot[r.below(i)]);
  static const std::vector<size_t> counts = {1, 1, 2, 3, 8, 9, 9, 10, 17, 18, 18, 19, 27, 27, 28, 36};
  auto text = [&](size_t n) { std::string v; for (size_t i = 0; i < n; i++) v += r.chance(.03) ? "𠮷" : r.pick(all); return v; };
  auto distinct = [&](const std::vector<std::string>& have, size_t n) {
    std::vector<std::string> v;
    for (auto& x : have) if (v.size() < n && chars(x) == 1 && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x);
    while (v.size() < n) { std::string x = r.pick(all); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
    return v;
  };
  auto drop = [](std::vector<Row>& rows, const std::string& k) {
    rows.erase(std::remove_if(rows.begin(), rows.end(), [&](const Row& x) { return x.k == k; }), rows.end());
  };
  std::map<std::string, std::vector<std::string>> hotChars;
  for (auto& s : hot) {
    drop(main, s);
    size_t n = r.pick(counts);
    auto v = distinct(one[s], n);
    hotChars[s] = v;
    // the longer ones take the place of some
    size_t longer = r.chance(.4) ? 1 + r.below(2) : 0;
    for (size_t i = 0; i < longer && i + 1 < v.size(); i++) v[1 + r.below(v.size() - 1)] = text(r.chance(.5) ? 2 + r.below(4) : 8 + r.below(8));
    for (size_t i = 0; i < v.size(); i++) main.push_back({s, v[i], score(-8, -2.5)});
    d.hot.push_back(s);
    if (r.chance(.8)) { drop(plain, s); for (auto& c : distinct(one[s], r.pick(counts))) plain.push_back({s, c, coarse ? "0.0" : score(-8, 0)}); }
  }
  // phrases over them
  std::vector<std::pair<std::string, std::string>> phrases;  // readings, value; as many characters as readings
  size_t np = 15 + r.below(50);
  std::string last;
  for (size_t i = 0; i < np; i++) {
    std::string k;
    if (!last.empty() && r.chance(.35)) k = last;                                   // another value
    else {
      size_t m = r.chance(.6) ? 2 : 2 + r.below(5);
      for (size_t j = 0; j < m; j++) k += (j ? "-" : "") + (r.chance(.85) ? r.pick(hot) : r.pick(syl));
    }
    last = k;
    auto rs = model::splitReadings(k);
    std::string v;
    double x = (double)r.below(100);
    size_t want = rs.size();
    if (x < 8) want = 1 + r.below(rs.size());
    else if (x < 16) want = rs.size() + 1 + r.below(9);
    if (want == rs.size()) {
      for (auto& s : rs) { auto it = hotChars.find(s); v += it != hotChars.end() ? r.pick(it->second) : r.chance(.7) ? one[s][0] : r.pick(all); }
      if (chars(v) == rs.size()) phrases.push_back({k, v});
    } else v = text(want);
    if (x > 97) v = r.chance(.5) ? "MACRO@DATE_TODAY_SHORT" : "MACRO@THIS_YEAR_ROC";
    double hi = -2.0 - .5 * (double)rs.size();
    main.push_back({k, v, score(hi - 6, hi)});
    if (r.chance(.06)) { std::string k2 = r.pick(hot) + (r.chance(.5) ? "-" + r.pick(hot) : ""); main.push_back({k2, v, score(-9, -3)}); }  // the same text elsewhere
    if (rs.size() <= 4) d.hot.push_back(k);
  }
  // many phrases for one key
  if (r.chance(.4)) {
    std::string k = r.pick(hot) + "-" + r.pick(hot);
    size_t n = r.pick(counts);
    for (size_t i = 0; i < n; i++) main.push_back({k, text(r.chance(.9) ? 2 : 8 + r.below(4)), score(-9, -4)});
    d.hot.push_back(k);
  }
  // characters of two readings: a phrase known with the one, typed with the other
  for (size_t i = r.below(4); i > 0; i--) {
    std::string a = r.pick(hot), b = r.pick(hot), x = r.pick(hot), c = r.pick(hotChars[a]), e = r.pick(hotChars[x]);
    if (a == b || chars(c) != 1 || chars(e) != 1) continue;
    auto top = [&](const std::string& k, const std::string& v, double lo, double hi) {
      main.erase(std::remove_if(main.begin(), main.end(), [&](const Row& y) { return y.k == k && y.v == v; }), main.end());
      main.push_back({k, v, score(lo, hi)});
    };
    top(a, c, -2.4, -2.0);
    top(b, c, -6, -2.2);
    top(x, e, -2.4, -2.0);
    bool front = r.chance(.5);
    main.push_back({front ? b + "-" + x : x + "-" + b, front ? c + e : e + c, score(-6, -3)});
    d.hot.push_back(front ? a + "-" + x : x + "-" + a);
  }
  // punctuation, numbers, letters
  static const std::vector<std::string> marks = {"！", "？", "，", "。", "「", "」", "…", "—", "※", "§", "⋯⋯", "。。", "~", "½"};
  static const std::vector<std::string> prefixes = {"_half_punctuation_", "_half_punctuation_Standard_", "_half_punctuation_ETen_", "_half_punctuation_Hsu_", "_half_punctuation_ETen26_", "_half_punctuation_HanyuPinyin_", "_half_punctuation_IBM_",
                                                    "_punctuation_", "_punctuation_Standard_", "_punctuation_ETen_", "_punctuation_Hsu_", "_punctuation_ETen26_", "_punctuation_HanyuPinyin_", "_punctuation_IBM_", "_ctrl_punctuation_"};
  auto isMark = [](const std::string& k) { return k[0] == '_' && k.find("punctuation_") != std::string::npos; };
  if (r.chance(.6)) {
    auto some = [&](double p, auto&& f) { for (auto& x : main) if (isMark(x.k) && x.k != "_punctuation_list" && r.chance(p)) f(x); };
    some(.06, [](Row& x) { x.s.clear(); });
    main.erase(std::remove_if(main.begin(), main.end(), [](const Row& x) { return x.s.empty(); }), main.end());
    some(.08, [&](Row& x) { x.v = r.pick(marks); });
    size_t n = r.below(30);
    static const std::string signs = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";
    for (size_t i = 0; i < n; i++) {
      const std::string& pre = r.pick(prefixes);
      std::string k = pre + signs[r.below(signs.size())];
      size_t m = r.chance(.7) ? 1 : r.chance(.5) ? 2 : 9 + r.below(2);
      for (size_t j = 0; j < m; j++) main.push_back({k, m > marks.size() ? r.pick(all) : r.chance(.7) ? r.pick(marks) : r.pick(all), r.chance(.5) ? "0.0" : score(-5, -1)});
    }
    if (r.chance(.5)) {
      std::string k = "_number_" + std::to_string(1 + r.below(20));
      drop(main, k);
      size_t c = r.pick(counts);
      for (size_t j = 0; j < c; j++) main.push_back({k, r.pick(all), score(-5, -1)});
    }
    if (r.chance(.3)) {
      std::vector<Row> l;
      size_t c = r.pick(counts), i = 0;
      for (auto& x : main) if (x.k == "_punctuation_list" && i++ < c) l.push_back(x);
      drop(main, "_punctuation_list");
      main.insert(main.end(), l.begin(), l.end());
    }
    // the single-character mode has its own copies
    plain.erase(std::remove_if(plain.begin(), plain.end(), [&](const Row& x) { return isMark(x.k) && r.chance(.05); }), plain.end());
    for (size_t i = r.below(12); i > 0; i--) plain.push_back({r.pick(prefixes) + signs[r.below(signs.size())], r.pick(marks), "0.0"});
  }
  d.main = print(main);
  d.plain = print(plain);
  // associated phrases
  {
    std::vector<std::string> l;
    size_t p = 0;
    bool thin = r.chance(.5);
    while (p < assoc0.size()) {
      size_t q = assoc0.find('\n', p);
      if (q == std::string::npos) q = assoc0.size();
      if (q > p && assoc0[p] != '#' && !(thin && r.chance(.9))) l.push_back(assoc0.substr(p, q - p));
      p = q + 1;
    }
    auto unit = [&](const std::string& s) {
      auto it = hotChars.find(s);
      std::string c = it != hotChars.end() ? it->second[r.chance(.6) ? 0 : r.below(it->second.size())] : one[s][0];
      return chars(c) == 1 ? c + "-" + s : r.pick(all) + "-" + s;
    };
    auto add = [&](const std::string& u) { l.push_back(u + " " + (r.chance(.2) ? "-3.0" : score(-7, -2))); };
    size_t n = 30 + r.below(80);
    std::vector<std::string> made;
    for (size_t i = 0; i < n; i++) {
      std::string u = !made.empty() && r.chance(.4) ? r.pick(made) : unit(r.pick(hot));
      size_t m = 1 + r.below(r.chance(.7) ? 2 : 4);
      for (size_t j = 0; j < m; j++) u += "-" + unit(r.chance(.8) ? r.pick(hot) : r.pick(syl));
      if (model::splitReadings(u).size() <= 12) { made.push_back(u); add(u); }
    }
    if (r.chance(.7))  // one with many
      for (int x = 0; x < 2; x++) {
        std::string u = x && !made.empty() ? r.pick(made) : unit(r.pick(hot));
        size_t c = r.pick(counts);
        for (size_t j = 0; j < c; j++) add(u + "-" + unit(r.pick(syl)) + (r.chance(.2) ? "-" + unit(r.pick(syl)) : ""));
      }
    if (r.chance(.6))  // chains: what ends a phrase begins others, several characters at a time
      for (size_t i = 1 + r.below(4); i > 0; i--) {
        std::vector<std::string> c;
        for (size_t j = 8 + r.below(6); j > 0; j--) c.push_back(unit(r.pick(hot)));
        size_t at = 0, had = 1;
        while (at + had < c.size()) {
          size_t more = 1 + r.below(3);
          std::string u;
          for (size_t j = at; j < std::min(at + had + more, c.size()); j++) u += (u.empty() ? "" : "-") + c[j];
          add(u);
          at += had;
          had = more;
        }
        d.hot.push_back(c[0].substr(c[0].find('-') + 1));
      }
    if (r.chance(.6)) {  // what follows a punctuation mark, and marks that follow
      std::vector<const Row*> m;
      for (auto& x : main) if (isMark(x.k) && x.k.find('-') == std::string::npos && chars(x.v) == 1 && x.v != "-" && x.v != "#") m.push_back(&x);
      for (size_t i = 10 + r.below(60); i > 0 && !m.empty(); i--) {
        const Row& x = *r.pick(m);
        std::string u = x.v + "-" + x.k;
        for (size_t j = 1 + r.below(3); j > 0; j--) { const Row& y = *r.pick(m); u += "-" + (r.chance(.5) ? y.v + "-" + y.k : unit(r.pick(hot))); }
        add(u);
      }
      for (size_t i = r.below(20); i > 0 && !m.empty(); i--) { const Row& y = *r.pick(m); add(unit(r.pick(hot)) + "-" + y.v + "-" + y.k); }
    }
    for (auto& ph : phrases) {  // what follows the phrases, and the phrases themselves
      if (!r.chance(.6)) continue;
      auto rs = model::splitReadings(ph.first);
      std::string u;
      size_t at = 0, k = 0;
      const std::string& v = ph.second;
      while (at < v.size() && k < rs.size()) {
        size_t e = at + 1;
        while (e < v.size() && ((unsigned char)v[e] & 0xC0) == 0x80) e++;
        u += (k ? "-" : "") + v.substr(at, e - at) + "-" + rs[k++];
        at = e;
      }
      if (r.chance(.6)) add(u);
      if (r.chance(.7)) { for (size_t i = r.chance(.1) ? 9 : 1 + r.below(3); i > 0; i--) add(u + "-" + unit(r.chance(.6) ? r.pick(hot) : r.pick(syl))); }
    }
    std::sort(l.begin(), l.end());
    // one score per phrase
    std::set<std::string> seen;
    d.assoc = "# format org.openvanilla.mcbopomofo.sorted\n";
    for (auto& s : l) if (seen.insert(s.substr(0, s.find(' '))).second) d.assoc += s + "\n";
  }
  // files that end exactly where a page ends: the last score written with more zeros
  auto fill = [&](std::string& f) {
    size_t at = f.rfind(' ');
    if (at == std::string::npos || f.find('.', at) == std::string::npos || f.back() != '\n') return;
    f.insert(f.size() - 1, std::string((4096 - f.size() % 4096) % 4096, '0'));
  };
  if (r.chance(.2)) { if (r.chance(.6)) fill(d.main); if (r.chance(.6)) fill(d.plain); if (r.chance(.6)) fill(d.assoc); }
  return d;
}

}  // namespace sim
