// Time triggers: histories of a manager under an arbitrary clock, and triggers of
// a running job whose nodes are slow, stalled or jump in time.
#include "wl.h"
#include <vt/timetrigger/time_trigger_manager.h>
#include <chrono>
#include <cmath>
#include <memory>
using namespace wl;
using Ms = std::chrono::milliseconds;

namespace {

constexpr double kEps = 2e-7;      // times this close to a deadline decide nothing

struct Trig {
  int id = -1;
  int64_t period = 0;              // ms
  double last = 0;
  bool on = true, inflight = false;
  int fired = 0, polled = 0;       // firings altogether / in the current poll
  int behave = 0;                  // what the action does besides counting
};

// A manager driven through random histories
struct Hist {
  vt::timetrigger::TimeTriggerManager* m = nullptr;
  std::deque<Trig> t;
  Rng g{0};
  double now = 0, poll_time = 0;
  int depth = 0;
  bool adding = false;
  std::size_t limit = 0;

  double dl(Trig const& x) const { return x.last + (double)x.period / 1000.0; }

  void fire(int k) {
    auto& x = t[k];
    if (adding and x.fired == 0 and x.id == -1) { x.fired++; return; }    // fired immediately on registration
    if (depth == 0) vsim_fail("fired-outside-poll", "a trigger fired although nothing was polled");
    if (not x.on) vsim_fail("fired-after-removal", "trigger %d (period %ld ms) fired after it was removed", x.id, x.period);
    if (x.inflight) vsim_fail("fired-early", "trigger %d fired again while its action was running", x.id);
    if (poll_time < dl(x) - kEps) {
      vsim_fail("fired-early", "trigger %d with period %ld ms fired at %.6f although it last fired at %.6f", x.id, x.period, poll_time, x.last);
    }
    x.fired++;
    x.polled++;
    vsim_probe("fired");
    if (x.behave) {
      x.inflight = true;
      double const keep = poll_time;
      switch (x.behave) {
        case 1: if (t.size() < limit) { add(keep); vsim_probe("added-in-action"); } break;
        case 2: remove((int)g.range(0, (int64_t)t.size() - 1)); vsim_probe("removed-in-action"); break;
        case 3: remove(k); vsim_probe("removed-itself"); break;
        case 4: if (depth < 2) { vsim_probe("nested-poll"); poll(keep + (double)g.range(0, 3000) / 1000.0); poll_time = keep; } break;
        default: break;
      }
      t[k].inflight = false;
    }
    t[k].last = poll_time;
  }
  void add(double at) {
    bool imm = g.chance(40);
    Trig x;
    static int64_t const per[] = {0, 1, 2, 3, 7, 10, 50, 100, 999, 1000, 1001, 5000, 60000};
    x.period = g.chance(60) ? per[g.range(0, 12)] : g.range(0, 2000);
    x.behave = g.chance(60) ? 0 : (int)g.range(1, 4);
    x.last = at;
    int k = (int)t.size();
    t.push_back(x);
    bool was = adding;
    adding = true;
    int id = m->addTrigger(vt::TimeType{at}, Ms(x.period), [this, k] { fire(k); }, imm);
    adding = was;
    for (auto& y : t) if (y.id == id) vsim_fail("duplicate-id", "two triggers got the id %d", id);
    t[k].id = id;
    if (t[k].fired != (imm ? 1 : 0)) vsim_fail("immediate", "a trigger %s was fired %d times when it was registered", imm ? "to fire immediately" : "not to fire immediately", t[k].fired);
  }
  void remove(int k) {
    if (not t[k].on) return;
    t[k].on = false;
    m->removeTrigger(t[k].id);
    vsim_probe("removed");
  }
  void poll(double at) {
    double const keep = poll_time;
    poll_time = at;
    depth++;
    std::vector<std::pair<int, int>> must;
    for (int k = 0; k < (int)t.size(); k++) {
      if (t[k].on and not t[k].inflight and dl(t[k]) < at - kEps) must.push_back({k, t[k].fired});
    }
    m->triggerReady(vt::TimeType{at});
    for (auto& p : must) {
      if (t[p.first].on and t[p.first].fired == p.second) {
        vsim_fail("missed", "trigger %d with period %ld ms, last fired at %.6f, did not fire when polled at %.6f", t[p.first].id, t[p.first].period, t[p.first].last, at);
      }
    }
    depth--;
    poll_time = keep;
  }
  void run(int n) {
    for (int i = 0; i < n; i++) {
      int k = (int)g.range(0, 99);
      if (k < 12 and t.size() < limit) add(g.chance(85) ? now : now - (double)g.range(0, 5000) / 1000.0);
      else if (k < 18 and not t.empty()) remove((int)g.range(0, (int64_t)t.size() - 1));
      else {
        switch (g.range(0, 7)) {
          case 0: now += (double)g.range(0, 200000) / 1e6; break;
          case 1: now += (double)g.range(0, 100); vsim_probe("jump"); break;
          case 2: now -= (double)g.range(0, 3000) / 1000.0; vsim_probe("clock-back"); break;
          case 3: break;                                 // polled twice at one time
          case 4: {                                      // just around somebody's deadline
            if (not t.empty()) {
              auto& x = t[g.range(0, (int64_t)t.size() - 1)];
              now = dl(x) + (double)g.range(-2, 2) * 1e-5;
              if (now < 0) now = 0;
            }
            break;
          }
          default: now += (double)g.range(0, 20000) / 1e6; break;
        }
        if (now < 0) now = 0;
        poll(now);
        if (m->needsCurrentTime() != hasAny() and hasAny()) vsim_fail("needs-time", "the manager does not ask for the time although triggers are registered");
      }
    }
  }
  bool hasAny() { for (auto& x : t) if (x.on) return true; return false; }
};

void managerMode() {
  for (int h = 0; h < 12; h++) {
    uint64_t op = (uint64_t)(me() * 100 + h);
    Rng g("hist", op);
    if (not vsim_op_on(op)) continue;
    auto m = std::make_unique<vt::timetrigger::TimeTriggerManager>();
    Hist s;
    s.m = m.get();
    s.g = g;
    s.now = (double)g.range(0, 3) * 500 + (double)g.range(0, 999999) / 1e6;
    s.limit = (std::size_t)g.range(1, 24);
    s.run((int)vsim_param("ops", 1, 160));
    vsim_yield();
  }
}

// ---------------------------------------------------------------- triggers of a running job
struct Live {
  int id = -1;
  double period = 0;
  double set = 0, last = -1;       // node clock: registered, last seen firing
  double seen_poll = 0;            // the scheduler was surely polled after this time
  double stop_at = -1;
  bool on = true, imm = false;
  int fired = 0;
  int cost = 0;                    // simulated time its action takes
};
struct Job {
  std::deque<Live> t;
  int64_t msgs_left = 0;
  Rng g{0};
};
Job& job() { static std::deque<std::pair<int, Job>> all; for (auto& p : all) if (p.first == me()) return p.second; all.emplace_back(me(), Job{}); return all.back().second; }

double clk() { return vt::timing::getCurrentTime().seconds(); }

struct Chat : vt::Message { int hops = 0; int cost = 0; };
void chat(Chat* msg) {
  vsim_advance((uint64_t)msg->cost);
  if (msg->hops > 0) {
    auto m = vt::makeMessage<Chat>();
    m->hops = msg->hops - 1;
    m->cost = (int)(vsim_hash("cost", (uint64_t)(msg->hops * 131 + me())) % 60000);
    vt::theMsg()->sendMsg<chat>((int)(vsim_hash("to", (uint64_t)(msg->hops * 17 + me())) % (unsigned)nn()), m);
  }
}

void fireLive(int k) {
  auto& j = job();
  auto& x = j.t[k];
  double const now = clk();
  vsim_probe("fired-live");
  if (not x.on) vsim_fail("fired-after-removal", "trigger %d fired after it was removed", x.id);
  if (x.id == -1) {   // inside addTrigger
    if (not x.imm) vsim_fail("immediate", "a trigger fired when it was registered");
    x.last = now;
    x.fired++;
    return;
  }
  double const since = x.last < 0 ? x.set : x.last;
  // its predecessor in this poll may have taken the time x.cost allows for
  double const slack = 3e-4;
  if (now - since < x.period - slack) {
    vsim_fail("fired-early", "trigger with period %.3f s fired at %.6f although the last firing or registration was at %.6f (firing %d)", x.period, now, since, x.fired);
  }
  x.last = now;
  x.fired++;
}

void systemMode() {
  auto& j = job();
  j.g = Rng("live", (uint64_t)me());
  auto& g = j.g;
  vt::theTerm()->produce();    // this program runs the scheduler itself: it is not done when everything is idle
  int const n = (int)vsim_param("rounds", 1, 14);
  for (int r = 0; r < n; r++) {
    if (not vsim_op_on((uint64_t)(me() * 50 + r))) { g.next(); continue; }
    int k = (int)g.range(0, 9);
    if (k < 4 and j.t.size() < 8) {
      Live x;
      int64_t ms = (int64_t[]){1, 2, 3, 5, 10, 40}[g.range(0, 5)];
      x.period = (double)ms / 1000;
      x.imm = g.chance(40);
      int q = (int)j.t.size();
      auto t0 = vt::timing::getCurrentTime();
      x.set = t0.seconds();
      j.t.push_back(x);
      int id = vt::theTimeTrigger()->addTrigger(t0, Ms(ms), [q] { fireLive(q); }, x.imm);
      j.t[q].id = id;
      if (j.t[q].fired != (x.imm ? 1 : 0)) vsim_fail("immediate", "trigger fired %d times on registration", j.t[q].fired);
    } else if (k < 5 and not j.t.empty()) {
      auto& x = j.t[g.range(0, (int64_t)j.t.size() - 1)];
      if (x.on) { vt::theTimeTrigger()->removeTrigger(x.id); x.on = false; vsim_probe("removed-live"); }
    } else if (k < 6) {
      // the program computes between two calls of the scheduler
      vsim_advance((uint64_t)g.range(1, 30000000));
      vsim_probe("long-computation");
    } else if (k < 8) {
      auto m = vt::makeMessage<Chat>();
      m->hops = (int)g.range(0, 6);
      m->cost = (int)g.range(0, 50000);
      vt::theMsg()->sendMsg<chat>((int)g.range(0, nn() - 1), m);
    }
    // run the scheduler for a while, then all live triggers must have kept their period
    double const until = clk() + (double)g.range(1, 30) / 1000;
    double const grain = (double)g.range(10, 200) * 1e-6;
    double begin = clk(), prev = begin, worst = 0;
    vt::theSched()->runSchedulerWhile([&] {
      double now = clk();
      worst = std::max(worst, now - prev);
      prev = now;
      if (now >= until) return false;
      vsim_advance((uint64_t)(grain * 1e9));
      return true;
    });
    double const end = clk();
    for (auto& x : j.t) {
      if (not x.on) continue;
      double const since = std::max(x.last < 0 ? x.set : x.last, 0.0);
      // a queue that stays busy delays polls; allow for a handful of the longest steps seen
      double const allow = x.period + 40 * worst + 2e-3;
      if (end - since > allow and end - begin > allow) {
        vsim_fail("missed", "trigger with period %.3f s did not fire for %.6f s while the scheduler ran (longest step %.6f s)", x.period, end - since, worst);
      }
    }
  }
  for (auto& x : j.t) if (x.on) { vt::theTimeTrigger()->removeTrigger(x.id); x.on = false; }
  vt::theSched()->runSchedulerWhile([&, until = clk() + 0.01] { vsim_advance(100000); return clk() < until; });
  vt::theTerm()->consume();
}

} // namespace

WL_ENTRY {
  std::string mode = mode_c;
  if (mode == "system" or mode == "mix") init();
  if (mode == "manager") managerMode();
  else systemMode();
  if (mode != "manager") vt::finalize();
  vsim_done();
}
