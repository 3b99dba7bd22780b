#include "host.h"

#include <fcitx-config/rawconfig.h>
#include <fcitx-utils/log.h>
#include <fcitx/action.h>
#include <fcitx/addonfactory.h>
#include <fcitx/addonmanager.h>
#include <fcitx/candidatelist.h>
#include <fcitx/inputcontextmanager.h>
#include <fcitx/inputmethodengine.h>
#include <fcitx/inputmethodgroup.h>
#include <fcitx/inputmethodmanager.h>
#include <fcitx/inputpanel.h>
#include <fcitx/statusarea.h>
#include <fcitx/userinterfacemanager.h>

#include <cstring>

#include "env.h"

#include <notifications_public.h>

extern "C" fcitx::AddonFactory* fcitx_addon_factory_instance();

namespace sim {
using namespace fcitx;


// The desktop's notification service.
namespace {
Host* gHost;
class Notifications : public AddonInstance {
 public:
  void showTip(const std::string& id, const std::string&, const std::string&, const std::string& title, const std::string& text, int32_t) {
    if (id != "enumerate-group") gHost->tips.push_back({id, title, text});  // that one is the framework's
  }
  FCITX_ADDON_EXPORT_FUNCTION(Notifications, showTip);
};
class NoticesFactory : public AddonFactory {
  AddonInstance* create(AddonManager*) override { return new Notifications; }
};
}  // namespace

static std::string marksOf(const Text& t) {
  std::string r;
  for (size_t i = 0; i < t.size(); i++) if (!t.stringAt((int)i).empty()) r += std::string(t.stringAt((int)i).size(), t.formatAt((int)i).test(TextFormatFlag::HighLight) ? 'H' : '-');
  return r;
}
void SimIC::updatePreeditImpl() {
  const Text& t = inputPanel().clientPreedit();
  told = t.toString();
  toldCommit = t.toStringForCommit();
  toldCursor = t.cursor();
  toldMarks = marksOf(t);
}

void Host::boot(bool desktop) {
  InProduct in;
  static char a0[] = "sim", a1[] = "--disable=all", lone[] = "--enable=mcbopomofo", full[] = "--enable=mcbopomofo,notifications";
  char* a2 = desktop ? full : lone;
  static NoticesFactory notices;
  gHost = this;
  tips.clear();
  char* av[] = {a0, a1, a2};
  inst_ = new Instance(3, av);
  Log::setLogRule("*=0");
  reg_ = new StaticAddonRegistry;
  reg_->emplace("mcbopomofo", fcitx_addon_factory_instance());
  if (desktop) reg_->emplace("notifications", &notices);
  inst_->addonManager().registerDefaultLoader(reg_);
  inst_->initialize();
  if (desktop) {
    hant_ = std::make_unique<SimpleAction>();
    inst_->userInterfaceManager().registerAction("chttrans", hant_.get());
  }
  watch_.push_back(inst_->watchEvent(EventType::InputContextUpdateUI, EventWatcherPhase::PreInputMethod, [this](Event& e) {
    auto& u = static_cast<InputContextUpdateUIEvent&>(e);
    for (int i = 0; i < kClients; i++)
      if (ic_[i] == u.inputContext()) (u.component() == UserInterfaceComponent::InputPanel ? panelAsked_ : statusAsked_)[i] = true;
  }));
  up_ = true;
}
bool Host::loadAddon() {
  InProduct in;
  return inst_->addonManager().addon("mcbopomofo", true) != nullptr;
}
void Host::makeClients() {
  InProduct in;
  auto& imm = inst_->inputMethodManager();
  InputMethodGroup g("g");
  g.inputMethodList().push_back(InputMethodGroupItem("mcbopomofo"));
  g.inputMethodList().push_back(InputMethodGroupItem("mcbopomofo-plain"));
  g.setDefaultInputMethod("mcbopomofo");
  imm.addEmptyGroup("g");
  imm.setGroup(g);
  imm.setCurrentGroup("g");
  inst_->activate();
  group_ = new FocusGroup("sim", inst_->inputContextManager());
  for (auto* n : {"mcbopomofo-half-width-punctuation", "mcbopomofo-associated-phrases"})
    if (auto* a = inst_->userInterfaceManager().lookupAction(n))
      links_.emplace_back(a->connect<Action::Update>([this](InputContext* c) {
        for (int i = 0; i < kClients; i++) if (ic_[i] == c) statusAsked_[i] = true;
      }));
  for (int i = 0; i < kClients; i++) newClient(i);
}
void Host::shutdown() {
  if (!inst_) return;
  InProduct in;
  for (auto& c : ic_) { delete c; c = nullptr; }
  links_.clear();
  watch_.clear();
  delete group_;
  group_ = nullptr;
  hant_.reset();
  delete inst_;
  inst_ = nullptr;
  delete reg_;
  reg_ = nullptr;
  up_ = false;
}
// The memory of a dead process is simply gone; here it is left behind.
void Host::abandon() {
  for (auto& c : ic_) c = nullptr;
  group_ = nullptr;
  (void)new decltype(watch_)(std::move(watch_));
  (void)new decltype(links_)(std::move(links_));
  watch_.clear();
  links_.clear();
  (void)hant_.release();
  inst_ = nullptr;
  reg_ = nullptr;
  up_ = false;
}
bool Host::key(int ic, const Key& raw) {
  InProduct in;
  KeyEvent ev(ic_[ic], raw, false, 0);
  bool r = ic_[ic]->keyEvent(ev);
  KeyEvent up(ic_[ic], raw, true, 0);
  releaseAccepted = ic_[ic]->keyEvent(up);
  return r;
}
void Host::setFlags(int i) {
  CapabilityFlags f;
  if (draws_[i]) f |= CapabilityFlag::Preedit;
  if (secret_[i]) f |= CapabilityFlag::Password;
  if (i == 2) f |= CapabilityFlag::ClientUnfocusCommit;
  ic_[i]->setCapabilityFlags(f);
}
void Host::setDraws(int ic, bool on) { InProduct in; draws_[ic] = on; setFlags(ic); redrawn(ic); }
void Host::setSecret(int ic, bool on) { InProduct in; secret_[ic] = on; setFlags(ic); }
// A client that loses the focus delivers what it draws, if it is one that does so, and draws nothing any more.
void Host::moveFocus(int next) {
  int old = -1;
  for (int i = 0; i < kClients; i++) if (i != next && ic_[i]->hasFocus()) old = i;
  if (old == 2 && !ic_[2]->toldCommit.empty()) ic_[2]->commits.push_back(ic_[2]->toldCommit);
  if (next >= 0) ic_[next]->focusIn(); else if (old >= 0) ic_[old]->focusOut();
  if (old >= 0) { ic_[old]->told = ic_[old]->toldCommit = ic_[old]->toldMarks = ""; ic_[old]->toldCursor = -1; redrawn(old); }
  if (next >= 0) redrawn(next);
}
void Host::newClient(int i) {
  ic_[i] = new SimIC(inst_->inputContextManager(), "prog" + std::to_string(i));
  draws_[i] = i != 1;
  secret_[i] = false;
  setFlags(i);
  ic_[i]->setFocusGroup(group_);
  redrawn(i);
}
void Host::reopen(int i) {
  InProduct in;
  delete ic_[i];
  newClient(i);
}
void Host::reload() {
  InProduct in;
  if (auto* a = inst_->addonManager().addon("mcbopomofo", true)) a->reloadConfig();
}
void Host::focusIn(int ic) { InProduct in; moveFocus(ic); }
void Host::focusOut(int) { InProduct in; moveFocus(-1); }
void Host::resetIC(int ic) { InProduct in; ic_[ic]->reset(); }
void Host::setIM(int ic, bool plain) {
  InProduct in;
  inst_->setCurrentInputMethod(ic_[ic], plain ? "mcbopomofo-plain" : "mcbopomofo", true);
}
bool Host::isPlain(int ic) { OutOfProduct o; return inst_->inputMethod(ic_[ic]) == "mcbopomofo-plain"; }
bool Host::click(int ic, int index) {
  InProduct in;
  auto l = ic_[ic]->inputPanel().candidateList();  // a frontend holds on to the list it draws
  auto* c = dynamic_cast<CommonCandidateList*>(l.get());
  if (!c || index < 0 || index >= c->totalSize()) return false;
  c->candidateFromAll(index).select(ic_[ic]);
  return true;
}
bool Host::page(int ic, bool next) {
  InProduct in;
  auto l = ic_[ic]->inputPanel().candidateList();
  auto* p = l ? l->toPageable() : nullptr;
  if (!p || !(next ? p->hasNext() : p->hasPrev())) return false;
  next ? p->next() : p->prev();
  ic_[ic]->updateUserInterface(UserInterfaceComponent::InputPanel);
  return true;
}
bool Host::setConfig(const std::vector<std::pair<std::string, std::string>>& kv) {
  InProduct in;
  auto* a = static_cast<InputMethodEngine*>(inst_->addonManager().addon("mcbopomofo", true));
  if (!a) return false;
  RawConfig rc;
  for (auto& p : kv) rc.setValueByPath(p.first, p.second);
  a->setConfig(rc);
  return true;
}
std::vector<std::pair<std::string, std::string>> Host::settings() {
  std::vector<std::pair<std::string, std::string>> r;
  InProduct in;
  auto* a = inst_->addonManager().addon("mcbopomofo", true);
  auto* c = a ? a->getConfig() : nullptr;
  if (!c) return r;
  RawConfig rc;
  c->save(rc);
  for (auto& n : rc.subItems()) r.emplace_back(n, *rc.valueByPath(n));
  return r;
}
bool Host::action(const std::string& name, int ic) {
  InProduct in;
  auto* a = inst_->userInterfaceManager().lookupAction(name);
  if (!a) return false;
  a->activate(ic_[ic]);
  return true;
}
Host::Picture Host::pictureOf(int ic) {
  Picture r;
  auto& p = ic_[ic]->inputPanel();
  r[0] = "[" + p.preedit().toString() + "] " + std::to_string(p.preedit().cursor()) + marksOf(p.preedit());
  if (auto l = p.candidateList()) {
    r[1] = "page of " + std::to_string(l->size()) + ", cursor " + std::to_string(l->cursorIndex()) + ", layout " + std::to_string((int)l->layoutHint()) + ":";
    for (int i = 0; i < l->size(); i++) r[1] += " " + l->label(i).toString() + l->candidate(i).text().toString();
    if (auto* g = l->toPageable()) r[1] += g->hasPrev() ? (g->hasNext() ? " <>" : " <") : (g->hasNext() ? " >" : "");
  }
  r[2] = p.auxDown().toString();
  auto& uim = inst_->userInterfaceManager();
  for (auto* a : ic_[ic]->statusArea().actions(StatusGroup::InputMethod))
    if (uim.lookupAction(a->name()) == a) r[3] += a->shortText(ic_[ic]) + "|";
  return r;
}
void Host::redrawn(int ic) {
  shown_[ic] = pictureOf(ic);
  panelAsked_[ic] = statusAsked_[ic] = false;
}
Obs Host::observe(int ic, bool drain) {
  Obs o;
  SimIC* c = ic_[ic];
  auto& p = c->inputPanel();
  bool draws = draws_[ic];
  const Text& t = draws ? p.clientPreedit() : p.preedit();
  const Text& u = draws ? p.preedit() : p.clientPreedit();
  o.preedit = t.toString();
  o.cursor = t.cursor();
  for (size_t i = 0; i < t.size(); i++) o.segs.push_back({t.stringAt((int)i), t.formatAt((int)i).test(TextFormatFlag::HighLight)});
  o.otherPreedit = !u.toString().empty();
  if (auto l = p.candidateList()) {
    o.hasList = true;
    if (auto* cl = dynamic_cast<CommonCandidateList*>(l.get())) {
      o.win.present = true;
      o.win.total = cl->totalSize();
      o.win.pageSize = cl->pageSize();
      o.win.page = cl->currentPage();
      o.win.cursor = cl->cursorIndex();
      o.win.size = cl->size();
      for (int i = 0; i < o.win.size; i++) o.labels.push_back(cl->label(i).toString());
      o.layout = (int)cl->layoutHint();
      for (int i = 0; i < o.win.total; i++) o.list.push_back(cl->candidateFromAll(i).text().toString());
    }
  }
  o.tip = p.auxDown().toString();
  auto& uim = inst_->userInterfaceManager();
  if (auto* a = uim.lookupAction("mcbopomofo-half-width-punctuation")) o.half = a->shortText(c);
  if (auto* a = uim.lookupAction("mcbopomofo-associated-phrases")) o.assoc = a->shortText(c);
  for (auto* a : c->statusArea().actions(StatusGroup::InputMethod)) o.actions.push_back(a->name());
  o.told = c->told;
  o.toldCursor = c->toldCursor;
  o.toldStale = c->toldMarks != marksOf(p.clientPreedit()) || (!c->told.empty() && c->toldCursor != p.clientPreedit().cursor());
  Picture now = pictureOf(ic);
  for (int i = 0; i < 4; i++) {
    if (i < 3 ? panelAsked_[ic] : statusAsked_[ic]) shown_[ic][i] = now[i];
    if (shown_[ic][i] == now[i]) continue;
    o.stale = "[" + shown_[ic][i] + "] instead of [" + now[i] + "]";
    o.staleKind = i == 0 ? "preedit" : i == 1 ? (o.hasList ? "list" : "window") : i == 2 ? "tip" : "status";
  }
  panelAsked_[ic] = statusAsked_[ic] = false;
  if (drain) o.commits.swap(c->commits); else o.commits = c->commits;
  return o;
}

Key parseKey(const std::string& t) {
  for (auto& m : {std::make_pair(std::string("NumLock+"), KeyState::NumLock), std::make_pair(std::string("CapsLock+"), KeyState::CapsLock), std::make_pair(std::string("Mod5+"), KeyState::Mod5)})
    if (t.compare(0, m.first.size(), m.first) == 0 && t.size() > m.first.size()) {
      Key k = parseKey(t.substr(m.first.size()));
      return Key(k.sym(), k.states() | m.second, k.code());
    }
  // Keys that only their hardware code identifies: Shift with a digit, Return.
  if (t.size() == 2 && t[0] == 'S' && t[1] >= '1' && t[1] <= '9') {
    static const FcitxKeySym s[] = {FcitxKey_exclam, FcitxKey_at, FcitxKey_numbersign, FcitxKey_dollar, FcitxKey_percent,
                                    FcitxKey_asciicircum, FcitxKey_ampersand, FcitxKey_asterisk, FcitxKey_parenleft};
    return Key(s[t[1] - '1'], KeyState::Shift, 10 + (t[1] - '1'));
  }
  if (t.size() == 1) {
    unsigned char c = (unsigned char)t[0];
    KeyStates st;
    int code = 0;
    if (c >= 'A' && c <= 'Z') st = KeyState::Shift;
    if (c >= '1' && c <= '9') code = 10 + (c - '1');
    return Key(static_cast<KeySym>(c), st, code);
  }
  Key k(t);
  int code = 0;
  if (k.sym() == FcitxKey_Return) code = 36;
  return Key(k.sym(), k.states(), code);
}
}  // namespace sim
