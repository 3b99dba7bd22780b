// The reference model: what an observer of the input method is entitled to see.
// It is written against the properties and the documented behaviour, with its
// own data structures; of the product's sources it only reuses the two pure
// conversion libraries that are outside the claimed properties (the non-standard
// keyboard layouts and the number conversion).
#pragma once
#include <fcitx-utils/key.h>

#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace model {

struct Uni {
  std::string v;
  double s;
};
struct AssocPhrase {
  std::string value;
  std::vector<std::string> readings;
};

// A complete built-in data file.
struct BuiltIn {
  std::unordered_map<std::string, std::vector<Uni>> rows;
  static std::shared_ptr<BuiltIn> parse(const std::string& text);
};
struct AssocData {
  std::vector<std::string> rows;  // sorted
  static std::shared_ptr<AssocData> parse(const std::string& text);
};

// Content of the three user files, parsed.
typedef std::vector<std::pair<std::string, std::string>> Pairs;  // first and second column
Pairs parsePairs(const std::string& text);
bool validUtf8(const std::string& s);

std::vector<std::string> codepoints(const std::string& s);
std::vector<std::string> splitReadings(const std::string& s);
std::string joinReadings(const std::vector<std::string>& r);

struct LM {
  std::shared_ptr<BuiltIn> main;
  std::shared_ptr<AssocData> assoc;
  std::map<std::string, std::vector<std::string>> user;
  std::map<std::string, std::set<std::string>> excl;
  std::map<std::string, std::string> repl;
  bool replOn = false;
  std::function<std::string(const std::string&)> macro;

  void setUser(const std::string& text);
  void setExcl(const std::string& text);
  void setRepl(const std::string& text);
  std::vector<Uni> get(const std::string& key) const;      // ranked by score
  bool has(const std::string& key) const;
  std::vector<AssocPhrase> associated(const std::string& value, const std::vector<std::string>& readings) const;
};

struct Node {
  std::string reading;
  size_t len = 0;
  std::vector<Uni> unis;
  int ovr = 0;  // 0 none, 1 soft (top score), 2 hard
  size_t sel = 0;
  double score() const { return ovr == 2 ? 42.0 : ovr == 1 ? unis[0].s : unis[sel].s; }
  const std::string& value() const { return unis[sel].v; }
};
typedef std::shared_ptr<Node> NodeP;

struct Walk {
  std::vector<NodeP> nodes;
  size_t total = 0;
  bool tie = false;
  // index of the node at a reading position, or -1; *past is the position after it
  int at(size_t cursor, size_t* past = nullptr) const;
};

struct Cand {
  std::string r, v;
};

struct Grid {
  static constexpr size_t kMax = 6;
  std::vector<std::string> rd;
  std::vector<std::vector<NodeP>> spans;  // [position][len-1]
  size_t cursor = 0;
  const LM* lm = nullptr;
  void clear() { rd.clear(); spans.clear(); cursor = 0; }
  bool insert(const std::string& r);
  bool delBefore();
  bool delAfter();
  struct Hit { NodeP n; size_t at; };
  std::vector<Hit> overlapping(size_t loc) const;
  std::vector<Cand> candidates(size_t loc) const;
  bool override_(size_t loc, const std::string* reading, const std::string& value, int type);
  Walk walk() const;
 private:
  void drop(size_t loc);
  void fill();
};

struct UOM {
  struct Ov { size_t count = 0; double t = 0; bool force = false; };
  struct Ob { size_t count = 0; std::map<std::string, Ov> o; };
  std::list<std::pair<std::string, Ob>> lru;
  std::map<std::string, std::list<std::pair<std::string, Ob>>::iterator> idx;
  uint64_t observed = 0, suggested = 0, expired = 0, dropped = 0;
  bool close = false;  // the last suggestion was decided by less than rounding error
  void clear() { lru.clear(); idx.clear(); }
  void observe(const Walk& before, const Walk& after, size_t cursor, double now);
  bool suggest(const Walk& w, size_t cursor, double now, std::string* cand, bool* force);
};

// Pending phonetic symbols.
struct ReadingBuf {
  virtual ~ReadingBuf() {}
  virtual bool valid(char c) const = 0;
  virtual void combine(char c) = 0;
  virtual void clear() = 0;
  virtual void backspace() = 0;
  virtual bool empty() const = 0;
  virtual bool hasTone() const = 0;
  virtual bool toneOnly() const = 0;
  virtual std::string syllable() const = 0;  // for the lookup
  virtual std::string display() const = 0;
};
std::unique_ptr<ReadingBuf> makeReadingBuf(const std::string& layout);
// keys that type one syllable on a layout ("" when the layout is not known by table)
std::string keysFor(const std::string& layout, const std::string& syllable);

struct Config {
  std::string layout = "standard";
  std::string candLayout = "Not Set";
  std::string selKeys = "123456789";
  int keyCount = 9;       // entries on a page
  bool afterCursor = false;
  bool moveCursor = false;
  bool allowMoving = false;
  bool escClears = false;
  bool putLower = false;
  std::string ctrlEnter = "disabled";
  std::string openWith = "";
  std::string hookPath = "";
  bool hookOn = false;
  bool half = false;
  bool assoc = false;
  bool operator==(const Config& o) const {
    return layout == o.layout && candLayout == o.candLayout && selKeys == o.selKeys && keyCount == o.keyCount && afterCursor == o.afterCursor &&
           moveCursor == o.moveCursor && allowMoving == o.allowMoving && escClears == o.escClears && putLower == o.putLower &&
           ctrlEnter == o.ctrlEnter && openWith == o.openWith && hookPath == o.hookPath && hookOn == o.hookOn && half == o.half && assoc == o.assoc;
  }
};

struct Key {
  char ascii = 0;
  enum Name { ASCII, LEFT, RIGHT, UP, DOWN, HOME, END, UNKNOWN } name = UNKNOWN;
  bool shift = false, ctrl = false, numpad = false;
};
Key mapKey(const fcitx::Key& k);

enum StateType {
  Empty, Committing, Inputting, Choosing, Marking, SelDict, CharInfo, Assoc, AssocPlain, Feature, DateMacro, ChineseNumber, EnclosingNumber
};
extern const char* const kStateName[];

struct State {
  StateType t = Empty;
  std::string buf;
  size_t cur = 0;
  // choosing / associated
  size_t orig = 0;
  std::vector<Cand> cands;
  // marking
  size_t markStart = 0;
  std::string head, marked, tail, reading;
  bool ok = false;
  std::string tip;  // the hint shown with the text
  // dictionary / info / associated
  std::shared_ptr<State> prev;
  std::string phrase;
  size_t selIdx = 0;
  std::vector<std::string> menu;
  size_t prefixCursor = 0;
  std::string prefixR, prefixV;
  bool useShift = false;
  // numbers
  std::string number;
  int style = 0;
  bool notEmpty() const {
    return t == Inputting || t == Choosing || t == Marking || t == SelDict || t == CharInfo || t == Assoc;
  }
  bool hasCandidates() const {
    return t == Choosing || t == SelDict || t == CharInfo || t == Assoc || t == AssocPlain || t == Feature || t == DateMacro;
  }
};
typedef std::shared_ptr<State> StateP;

struct Panel {
  std::string preedit;
  int cursor = -1;
  bool hasList = false;
  std::vector<std::string> list;
  std::string head, marked, tail;
  bool marking = false;
  bool label = false;  // preedit is a prompt, not text
  std::string selKeys; // the selection keys this window was opened with
  int perPage = 9;
  bool shiftLabels = false;   // entries are chosen with Shift and a digit
  int layout = 0;             // 0 as the panel likes, 1 vertical, 2 horizontal
  int page = 0, hi = 0;       // page on show; highlighted entry (of all), -1: any on that page
  std::string tip;
  void clear() { *this = Panel(); }
};

// What the candidate window of the client showed just before the event.
struct ObsList {
  bool present = false;
  int total = 0, pageSize = 0, page = 0, cursor = -1, size = 0;
};

struct DictService {
  std::string name, url;  // url empty: the character information entry
};

struct Effects {
  std::vector<std::string> commits;
  std::vector<std::pair<std::string, std::string>> adds;  // reading, phrase
  std::vector<std::vector<std::string>> starts;
  bool tie = false;       // an equally good conversion exists
};

class Engine {
 public:
  LM lm;
  Config inForce;         // what the key handler uses (set at activation)
  Config stored;          // the configuration object
  bool plain = false;
  Grid grid;
  Walk walk;
  UOM uom;
  std::unique_ptr<ReadingBuf> reading;
  std::string layoutInForce;
  StateP st;
  Panel panel;            // of the focused client
  Effects fx;
  std::vector<DictService> services;
  std::function<double()> now;
  std::function<bool(const std::string&, const std::string&)> onAdd;  // performs the add (file + reload)
  std::function<std::string()> openWithDefault;
  std::string userDir;
  bool snapshotStale = false;   // data changed while a grid existed

  Engine();
  void start();                 // process start
  bool key(const fcitx::Key& key, const fcitx::Key& raw, const ObsList& obs, bool* accepted);
  void page(const ObsList& before, bool fwd);  // an arrow of the panel
  void click(size_t idx);       // a candidate of the list on show
  void resetHandler();
  void resetFromEvent();        // focus out / client reset
  void deactivateSwitch();      // another input method chosen
  void activate(bool plainMode);

 private:
  void enter(StateP n);
  StateP mkInputting();
  StateP mkChoosing(const State& ne, size_t orig);
  StateP mkMarking(size_t begin);
  StateP mkDict(StateP prev, const std::string& phrase, size_t sel);
  StateP mkAssoc(StateP prev, size_t prefixCursor, const std::string& r, const std::string& v, size_t sel, bool useShift);
  StateP mkAssocPlain(const std::string& r, const std::string& v);
  StateP mkCommit(const std::string& t);
  StateP mk(StateType t);
  void doWalk();
  size_t actual(size_t index) const;
  struct Composed { std::string head, tail, tip; };
  Composed composed(size_t cursor) const;
  std::string ruby() const;
  bool handle(const Key& k, StateP s);
  bool handlePunct(const std::string& key);
  bool handleTab(const Key& k, StateP s);
  bool handleCursor(const Key& k, StateP s);
  bool handleDelete(const Key& k, StateP s);
  bool handleChinese(const Key& k, StateP s);
  bool handleEnclosing(const Key& k, StateP s);
  void handleAssociated(bool inputting, bool useShift);
  bool candidateKey(const fcitx::Key& key, const fcitx::Key& raw, const ObsList& obs);
  void selectIdx(size_t idx);
  void candidateSelected(const Cand& c, size_t orig);
  void pin(size_t orig, const Cand& c, bool useMove = true);
  void pinAssoc(size_t prefixCursor, const std::string& pr, const std::string& pv, const Cand& c);
  void cancelled(size_t orig);
  int layoutFor(const State& s) const;
  void turnPage(const ObsList& o, bool fwd);
  void moveHighlight(const ObsList& o, bool fwd);
  void setList(const StateP& s);
};

}  // namespace model
