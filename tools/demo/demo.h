// A stand-alone driver: the real input method framework and the real add-on in
// this process, with everything they read and write in a scratch directory.
#pragma once
#include <fcitx-config/rawconfig.h>
#include <fcitx-utils/key.h>
#include <fcitx-utils/log.h>
#include <fcitx/action.h>
#include <fcitx/addonfactory.h>
#include <fcitx/addonloader.h>
#include <fcitx/addonmanager.h>
#include <fcitx/candidatelist.h>
#include <fcitx/focusgroup.h>
#include <fcitx/inputcontext.h>
#include <fcitx/inputcontextmanager.h>
#include <fcitx/inputmethodengine.h>
#include <fcitx/inputmethodgroup.h>
#include <fcitx/inputmethodmanager.h>
#include <fcitx/inputpanel.h>
#include <fcitx/instance.h>
#include <fcitx/userinterfacemanager.h>
#include <unicode/timezone.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

extern "C" fcitx::AddonFactory* fcitx_addon_factory_instance();

// ---- what the add-on gets from the outside ----
inline long long gNow = 0;  // seconds since the epoch; 0: the real clock
inline std::vector<std::vector<std::string>> gStarted;
extern "C" {
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (gNow && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { ts->tv_sec = gNow; ts->tv_nsec = 0; return 0; }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
}
namespace fcitx {
void startProcess(const std::vector<std::string>& args, const std::string&) { gStarted.push_back(args); }
}

namespace demo {
namespace sfs = std::filesystem;
using namespace fcitx;
inline int gBad = 0;
inline void check(bool ok, const std::string& what) {
  if (!ok) { std::cout << "NOT AS IT SHOULD BE: " << what << std::endl; gBad = 1; }
}
inline std::string read(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s; s << f.rdbuf();
  return s.str();
}
inline void write(const std::string& p, const std::string& s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << s;
}
inline void mtime(const std::string& p, long long t) {
  struct timespec ts[2] = {{(time_t)t, 0}, {(time_t)t, 0}};
  utimensat(AT_FDCWD, p.c_str(), ts, 0);
}

class IC : public InputContext {
 public:
  IC(InputContextManager& m, const std::string& n) : InputContext(m, n) { created(); }
  ~IC() override { destroy(); }
  const char* frontend() const override { return "demo"; }
  void commitStringImpl(const std::string& s) override { got += s; count++; }
  void deleteSurroundingTextImpl(int, unsigned int) override {}
  void forwardKeyImpl(const ForwardKeyEvent&) override {}
  void updatePreeditImpl() override { asked++; }
  int asked = 0;  // how often it was asked to draw the composing text
  std::string got;
  int count = 0;
};

inline std::string keysOf(const std::string& reading) {
  static const char* t[] = {"ㄅ1", "ㄆq", "ㄇa", "ㄈz", "ㄉ2", "ㄊw", "ㄋs", "ㄌx", "ㄍe", "ㄎd", "ㄏc", "ㄐr", "ㄑf", "ㄒv", "ㄓ5", "ㄔt", "ㄕg", "ㄖb", "ㄗy",
                            "ㄘh", "ㄙn", "ㄧu", "ㄨj", "ㄩm", "ㄚ8", "ㄛi", "ㄜk", "ㄝ,", "ㄞ9", "ㄟo", "ㄠl", "ㄡ.", "ㄢ0", "ㄣp", "ㄤ;", "ㄥ/", "ㄦ-"};
  static std::map<std::string, std::string> m;
  if (m.empty()) {
    for (auto* s : t) m[std::string(s).substr(0, 3)] = std::string(s).substr(3);
    m["ˊ"] = "6"; m["ˇ"] = "3"; m["ˋ"] = "4"; m["˙"] = "7";
  }
  std::string out;
  bool tone = false;
  for (size_t i = 0; i < reading.size();) {
    size_t n = ((unsigned char)reading[i] >= 0xE0) ? 3 : 2;
    auto s = reading.substr(i, n);
    i += n;
    if (n == 2) tone = true;
    out += m[s];
  }
  return tone ? out : out + " ";
}

class Demo {
 public:
  std::string root;
  std::vector<std::string> main, plain, assoc;
  std::string dict = "{\"services\":[{\"name\":\"D\",\"url_template\":\"https://d.example/(encoded)\"}]}";
  std::unique_ptr<Instance> inst;
  std::vector<std::unique_ptr<IC>> ic;
  int at = 0;

  Demo() {
    char t[] = "/tmp/demoXXXXXX";
    root = mkdtemp(t);
    for (auto* d : {"/home/data/fcitx5", "/home/config/fcitx5", "/usr/fcitx5/addon", "/usr/fcitx5/inputmethod", "/usr/fcitx5/data", "/etc", "/run", "/cache"}) sfs::create_directories(root + d);
    setenv("HOME", (root + "/home").c_str(), 1);
    setenv("XDG_DATA_HOME", (root + "/home/data").c_str(), 1);
    setenv("XDG_CONFIG_HOME", (root + "/home/config").c_str(), 1);
    setenv("XDG_CACHE_HOME", (root + "/cache").c_str(), 1);
    setenv("XDG_RUNTIME_DIR", (root + "/run").c_str(), 1);
    setenv("XDG_DATA_DIRS", (root + "/usr").c_str(), 1);
    setenv("XDG_CONFIG_DIRS", (root + "/etc").c_str(), 1);
    setenv("FCITX_DATA_DIRS", (root + "/usr/fcitx5").c_str(), 1);
    setenv("FCITX_CONFIG_DIRS", (root + "/etc").c_str(), 1);
    setenv("SKIP_FCITX_PATH", "1", 1);
    setenv("LC_ALL", "C.UTF-8", 1);
    write(root + "/usr/fcitx5/addon/mcbopomofo.conf", "[Addon]\nName=McBopomofo\nCategory=InputMethod\nType=StaticLibrary\nLibrary=mcbopomofo\nOnDemand=True\nConfigurable=True\n");
    write(root + "/usr/fcitx5/inputmethod/mcbopomofo.conf", "[InputMethod]\nName=M\nLangCode=zh_TW\nAddon=mcbopomofo\nConfigurable=True\nLabel=M\n");
    write(root + "/usr/fcitx5/inputmethod/mcbopomofo-plain.conf", "[InputMethod]\nName=P\nLangCode=zh_TW\nAddon=mcbopomofo\nConfigurable=True\nLabel=P\n");
    main = {"_punctuation_list ， 0.0", "_punctuation_list 。 0.0", "_punctuation_< ， 0.0", "_punctuation_Standard_< ， 0.0",
            "ㄋㄧˇ 你 -3.0", "ㄋㄧˇ 妳 -4.0", "ㄋㄧˇ 擬 -5.0", "ㄏㄠˇ 好 -3.0", "ㄏㄠˇ 郝 -5.0", "ㄋㄧˇ-ㄏㄠˇ 你好 -4.0",
            "ㄇㄞˋ 賣 -4.0", "ㄇㄞˋ 麥 -4.5", "ㄒㄧㄠˇ 小 -3.0", "ㄒㄧㄠˇ 曉 -4.5", "ㄓㄨˋ 住 -3.5", "ㄓㄨˋ 注 -4.0", "ㄧㄣ 因 -3.5", "ㄧㄣ 音 -4.0", "ㄓㄨˋ-ㄧㄣ 注音 -5.0"};
    plain = {"_punctuation_list ， 0.0", "ㄋㄧˇ 妳 0.0", "ㄋㄧˇ 你 -1.0", "ㄏㄠˇ 好 0.0", "ㄏㄠˇ 郝 -1.0", "ㄇㄞˋ 買 0.0", "ㄇㄞˋ 賣 -1.0", "ㄒㄧㄠˇ 小 0.0"};
    assoc = {"你-ㄋㄧˇ-們-ㄇㄣ˙ -3.0", "好-ㄏㄠˇ-人-ㄖㄣˊ -3.0", "好-ㄏㄠˇ-事-ㄕˋ -4.0", "小-ㄒㄧㄠˇ-心-ㄒㄧㄣ -3.0"};
    setenv("TZ", "Asia/Taipei", 1);
    tzset();
  }
  ~Demo() {
    stop();
    sfs::remove_all(root);  // the directory made above
  }
  std::string userDir() { return root + "/home/data/fcitx5/mcbopomofo"; }
  std::string user() { return userDir() + "/data.txt"; }
  std::string excl() { return userDir() + "/exclude-phrases.txt"; }
  std::string repl() { return userDir() + "/phrases-replacement.txt"; }
  std::string conf() { return root + "/home/config/fcitx5/conf/mcbopomofo.conf"; }
  std::string assocFile() { return root + "/usr/fcitx5/data/mcbopomofo-associated-phrases-v2.txt"; }
  static std::string sorted(std::vector<std::string> v) {
    std::sort(v.begin(), v.end());
    std::string s = "# format org.openvanilla.mcbopomofo.sorted\n";
    for (auto& l : v) s += l + "\n";
    return s;
  }
  void install() {
    write(root + "/usr/fcitx5/data/mcbopomofo-data.txt", sorted(main));
    write(root + "/usr/fcitx5/data/mcbopomofo-data-plain-bpmf.txt", sorted(plain));
    write(root + "/usr/fcitx5/data/mcbopomofo-associated-phrases-v2.txt", sorted(assoc));
    write(root + "/usr/fcitx5/data/mcbopomofo-dictionary-service.json", dict);
    installed_ = true;
  }
  void start(int clients = 1) {
    if (!installed_) install();
    static char a0[] = "demo", a1[] = "--disable=all", a2[] = "--enable=mcbopomofo";
    char* av[] = {a0, a1, a2};
    inst = std::make_unique<Instance>(3, av);
    Log::setLogRule("*=0");
    reg_ = std::make_unique<StaticAddonRegistry>();
    reg_->emplace("mcbopomofo", fcitx_addon_factory_instance());
    inst->addonManager().registerDefaultLoader(reg_.get());
    inst->initialize();
    inst->addonManager().addon("mcbopomofo", true);
    auto& imm = inst->inputMethodManager();
    InputMethodGroup g("g");
    g.inputMethodList().push_back(InputMethodGroupItem("mcbopomofo"));
    g.inputMethodList().push_back(InputMethodGroupItem("mcbopomofo-plain"));
    g.setDefaultInputMethod("mcbopomofo");
    imm.addEmptyGroup("g");
    imm.setGroup(g);
    imm.setCurrentGroup("g");
    inst->activate();
    group_ = std::make_unique<FocusGroup>("demo", inst->inputContextManager());
    for (int i = 0; i < clients; i++) {
      ic.push_back(std::make_unique<IC>(inst->inputContextManager(), "p" + std::to_string(i)));
      ic[i]->setCapabilityFlags(i == 1 ? CapabilityFlags() : CapabilityFlags(CapabilityFlag::Preedit));  // client 1 leaves the drawing to the panel
      ic[i]->setFocusGroup(group_.get());
    }
    at = 0;
    focus(0);
    im(false);
  }
  void stop() {
    ic.clear();
    group_.reset();
    inst.reset();
    reg_.reset();
  }
  void restart(int clients = 1) { stop(); start(clients); }
  IC& c() { return *ic[at]; }
  void focus(int i) { at = i; ic[i]->focusIn(); }
  void blur() { c().focusOut(); }
  void again() { blur(); focus(at); }  // the next activation
  void im(bool plain) { inst->setCurrentInputMethod(&c(), plain ? "mcbopomofo-plain" : "mcbopomofo", true); }
  bool key(const Key& k) {
    KeyEvent e(&c(), k, false, 0);
    return c().keyEvent(e);
  }
  bool key(const std::string& k) {
    if (k.size() == 1) {
      unsigned char ch = (unsigned char)k[0];
      return key(Key(static_cast<KeySym>(ch), ch >= 'A' && ch <= 'Z' ? KeyStates(KeyState::Shift) : KeyStates(), ch >= '1' && ch <= '9' ? 10 + (ch - '1') : 0));
    }
    if (k == "space") return key(" ");
    if (k == "S-Return") return key(Key(FcitxKey_Return, KeyState::Shift, 36));
    if (k == "Return") return key(Key(FcitxKey_Return, KeyStates(), 36));
    if (k.size() == 3 && k[0] == 'S' && k[1] == '#') {  // Shift and a digit
      static const FcitxKeySym s[] = {FcitxKey_exclam, FcitxKey_at, FcitxKey_numbersign, FcitxKey_dollar, FcitxKey_percent, FcitxKey_asciicircum, FcitxKey_ampersand, FcitxKey_asterisk, FcitxKey_parenleft};
      return key(Key(s[k[2] - '1'], KeyState::Shift, 10 + (k[2] - '1')));
    }
    return key(Key(k));
  }
  void keys(const std::vector<std::string>& v) { for (auto& k : v) key(k); }
  void typeKeys(const std::string& s) { for (char ch : s) key(std::string(1, ch)); }
  void syl(const std::vector<std::string>& v) { for (auto& r : v) typeKeys(keysOf(r)); }
  std::string preedit() { return (at == 1 ? c().inputPanel().preedit() : c().inputPanel().clientPreedit()).toString(); }
  int caret() { return (at == 1 ? c().inputPanel().preedit() : c().inputPanel().clientPreedit()).cursor(); }
  CommonCandidateList* list() { return dynamic_cast<CommonCandidateList*>(c().inputPanel().candidateList().get()); }
  std::vector<std::string> cands() {
    std::vector<std::string> r;
    if (auto* l = list()) for (int i = 0; i < l->totalSize(); i++) r.push_back(l->candidateFromAll(i).text().toString());
    return r;
  }
  bool offers(const std::string& s) { auto v = cands(); return std::count(v.begin(), v.end(), s) > 0; }
  bool pick(const std::string& s) {
    auto hold = c().inputPanel().candidateList();
    auto* l = list();
    if (!l) return false;
    for (int i = 0; i < l->totalSize(); i++) if (l->candidateFromAll(i).text().toString() == s) { l->candidateFromAll(i).select(&c()); return true; }
    return false;
  }
  std::string take() { std::string s; s.swap(c().got); return s; }
  void clear() { for (int i = 0; i < 60; i++) { key("Escape"); key("End"); key("BackSpace"); } take(); }
  void config(const std::vector<std::pair<std::string, std::string>>& kv) {
    RawConfig rc;
    for (auto& p : kv) rc.setValueByPath(p.first, p.second);
    static_cast<InputMethodEngine*>(inst->addonManager().addon("mcbopomofo", true))->setConfig(rc);
  }
  bool action(const std::string& n) {
    auto* a = inst->userInterfaceManager().lookupAction(n);
    if (a) a->activate(&c());
    return a != nullptr;
  }
  static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; }

 private:
  bool installed_ = false;
  std::unique_ptr<StaticAddonRegistry> reg_;
  std::unique_ptr<FocusGroup> group_;
};
}  // namespace demo
