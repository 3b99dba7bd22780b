// The real input method framework and the real add-on, in this process, driven
// by the simulator through the interfaces a frontend uses.
#pragma once
#include <fcitx-utils/key.h>
#include <fcitx/addonloader.h>
#include <fcitx/focusgroup.h>
#include <fcitx/inputcontext.h>
#include <fcitx/action.h>
#include <fcitx/instance.h>

#include <array>
#include <memory>
#include <string>
#include <vector>

#include "model.h"

namespace sim {

// 0 and 2 draw the composing text themselves, 1 leaves it to the panel (until that is changed). When 2 loses the focus it
// delivers what it draws itself; for the others the framework or the input method has to.
constexpr int kClients = 3;

class SimIC : public fcitx::InputContext {
 public:
  SimIC(fcitx::InputContextManager& m, const std::string& prog) : InputContext(m, prog) { created(); }
  ~SimIC() override { destroy(); }
  const char* frontend() const override { return "sim"; }
  void commitStringImpl(const std::string& s) override { commits.push_back(s); }
  void deleteSurroundingTextImpl(int, unsigned int) override { odd = true; }
  void forwardKeyImpl(const fcitx::ForwardKeyEvent&) override { odd = true; }
  void updatePreeditImpl() override;
  std::vector<std::string> commits;
  std::string told;       // what the client was last told to draw
  std::string toldCommit; // what of it counts as text
  int toldCursor = -1;
  std::string toldMarks;  // and which of it is highlighted
  bool odd = false;
};

struct Seg { std::string text; bool high; };
struct Obs {
  std::string preedit;    // as displayed, by the client or by the panel
  int cursor = -1;
  std::vector<Seg> segs;
  bool otherPreedit = false;  // text in the place where this client does not show it
  bool hasList = false;
  std::vector<std::string> list;
  model::ObsList win;
  std::vector<std::string> labels;
  int layout = 0;
  std::string tip;
  std::string half, assoc;            // status texts
  std::vector<std::string> actions;   // what the status area offers
  std::vector<std::string> commits;
  std::string told;
  int toldCursor = -1;
  bool toldStale = false;   // the client draws another caret or other highlights
  std::string stale, staleKind;  // what the panel or the status area still shows, if nobody asked for it to be drawn again
};

class Host {
 public:
  bool alive() const { return inst_ != nullptr && up_; }
  void boot(bool desktop);  // framework only; with or without the add-ons of a full desktop
  bool loadAddon();       // the add-on: its start-up
  void makeClients();
  void shutdown();        // orderly
  void abandon();         // after a simulated crash: nothing runs any more
  bool key(int ic, const fcitx::Key& raw);
  bool releaseAccepted = false;   // the release of a key was swallowed
  void reopen(int ic);    // the client goes away and another one takes its place
  void reload();          // the settings file is read again
  void focusIn(int ic);
  void focusOut(int ic);
  void resetIC(int ic);
  void setDraws(int ic, bool on);
  void setSecret(int ic, bool on);  // a password field
  bool draws(int ic) const { return draws_[ic]; }
  void setIM(int ic, bool plain);
  bool isPlain(int ic);
  bool click(int ic, int index);
  bool page(int ic, bool next);   // the arrows of the panel
  bool setConfig(const std::vector<std::pair<std::string, std::string>>& kv);
  bool action(const std::string& name, int ic);
  std::vector<std::pair<std::string, std::string>> settings();   // as a settings dialog reads them
  std::vector<std::array<std::string, 3>> tips;   // notifications shown: id, title, text
  Obs observe(int ic, bool drain = true);
  fcitx::Instance* inst() { return inst_; }

 private:
  void newClient(int i);
  fcitx::Instance* inst_ = nullptr;
  bool up_ = false;
  fcitx::StaticAddonRegistry* reg_ = nullptr;
  std::unique_ptr<fcitx::SimpleAction> hant_;
  fcitx::FocusGroup* group_ = nullptr;
  void setFlags(int i);
  void moveFocus(int next);
  using Picture = std::array<std::string, 4>;   // composing text, window, hint, status area
  Picture pictureOf(int ic);
  void redrawn(int ic);     // the user interface draws this client's panel and status anew
  std::vector<std::unique_ptr<fcitx::HandlerTableEntry<fcitx::EventHandler>>> watch_;
  std::vector<fcitx::ScopedConnection> links_;
  bool panelAsked_[kClients] = {false}, statusAsked_[kClients] = {false};
  Picture shown_[kClients];
  SimIC* ic_[kClients] = {nullptr};
  bool draws_[kClients] = {true, false, true}, secret_[kClients] = {false, false, false};
};

fcitx::Key parseKey(const std::string& token);
}  // namespace sim
