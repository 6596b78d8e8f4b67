// The scheduler (order, exactly once, nested loops, triggers) and suspended tasks.
#include "wl.h"
#include <vt/messaging/async_op.h>
#include <vt/messaging/async_op_mpi.h>
#include <vt/scheduler/thread_action.h>
using namespace wl;
namespace sch = vt::sched;

namespace {

// ------------------------------------------------------------------ mode "order"
// A priority is a 16 bit number, larger runs first; level L refines the levels
// above it in the three bits below theirs.
constexpr int kLevels = 5;
constexpr unsigned kUnset = 3u << 13;
struct Prio {
  unsigned v = 0;
  void level(int l, unsigned d) { unsigned sh = 12 - 3 * l; v = (v & ~(7u << sh)) | (d << sh); }
  bool operator<(Prio const& o) const { return v < o.v; }
};
struct Unit { Prio p; int level = 0; int runs = 0; bool queued = false; };
struct OrderO {
  int64_t live = 0;
  int mains = 0;
  int64_t budget = 0;
  std::vector<Unit> all;                // all nodes
};
OrderO& OO() { return shared<OrderO>("order"); }
std::set<int> queued;                   // units in this node's queue now
bool idle = false;
int idle_begin = 0, idle_end = 0, depth = 0;

int newUnit(Prio p, int level = 0) {
  auto& o = OO();
  o.all.push_back({p, level, 0, false});
  o.live++;
  return (int)o.all.size() - 1;
}
void addQueued(int u) { queued.insert(u); }

struct PMsg : vt::Message { int u; int ttl; uint64_t sd; int tracked; };
struct PMsgS : vt::Message {
  using MessageParentType = vt::Message;
  vt_msg_serialize_required();
  int u; int ttl; uint64_t sd; int tracked; std::vector<char> v;
  template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | u | ttl | sd | tracked | v; }
};

void generate(Rng& g, int n, int ttl, vt::messaging::BaseMsg* parent, Prio pp, int plevel);

void ran(int u, int tracked) {
  auto& o = OO();
  if (++o.all[u].runs > 1) vsim_fail("duplicate", "unit %d ran twice", u);
  if (idle) vsim_fail("idle", "a unit runs on node %d although the scheduler announced it is idle", me());
  if (tracked) {
    if (not queued.count(u)) vsim_fail("order", "unit %d runs but was not queued on node %d", u, me());
    queued.erase(u);
    for (int q : queued) {
      if (o.all[u].p < o.all[q].p) {
        vsim_fail("order", "node %d ran a unit with priority %x while one with priority %x was queued", me(),
          o.all[u].p.v, o.all[q].p.v);
      }
    }
  }
  o.live--;
  vsim_touch();
}

void nested(Rng& g, int ttl) {
  if (depth >= 2) return;
  depth++;
  vsim_probe("nested-loop");
  auto& o = OO();
  int need = (int)g.range(1, 3);
  int got = 0;
  for (int i = 0; i < need; i++) {
    Prio p;
    p.v = (unsigned)g.range(0, 65535);
    int u = newUnit(p);
    addQueued(u);
    vt::theSched()->enqueue((vt::PriorityType)p.v, [u, &got] { ran(u, 1); got++; });
  }
  (void)o; (void)ttl;
  vt::theSched()->runSchedulerWhile([&] { return got < need; });
  if (got < need) vsim_fail("loop", "runSchedulerWhile returned with its condition still true");
  depth--;
}

template <class M> void pbody(M* m) {
  Prio want = OO().all[m->u].p;
  unsigned raw = vt::envelopeGetPriority(m->env);
  if (raw != want.v) {
    vsim_fail("priority", "a message sent with priority %x arrived with %x", want.v, raw);
  }
  if (vt::envelopeGetPriorityLevel(m->env) != OO().all[m->u].level) vsim_fail("priority", "the priority level of a message changed in transit");
  int u = m->u;
  ran(u, m->tracked);
  Rng g(m->sd);
  if (m->ttl > 0) generate(g, (int)g.range(0, 3), m->ttl - 1, m, want, OO().all[u].level);
  if (g.chance(10)) nested(g, m->ttl);
}
void hP(PMsg* m) { pbody(m); }
void hPS(PMsgS* m) { pbody(m); }

void generate(Rng& g, int n, int ttl, vt::messaging::BaseMsg* parent, Prio pp, int plevel) {
  auto& o = OO();
  for (int i = 0; i < n; i++) {
    if (o.budget-- <= 0) return;
    int k = (int)g.range(0, 9);
    auto sd = g.next();
    if (k < 3) {
      Prio p;
      p.v = g.chance(60) ? (unsigned)g.range(0, 65535) : (unsigned)g.range(0, 7) << 12;
      if (k == 0) p.v = 0x6db6;     // the documented default: the middle on every level
      int u = newUnit(p);
      addQueued(u);
      auto fn = [u, sd, ttl, p] {
        ran(u, 1);
        Rng g2(sd);
        if (ttl > 0) generate(g2, (int)g2.range(0, 3), ttl - 1, nullptr, p, 0);
        if (g2.chance(8)) nested(g2, ttl);
      };
      if (k == 0) { vt::theSched()->enqueue(fn); vsim_probe("unit-default"); }
      else { vt::theSched()->enqueue((vt::PriorityType)p.v, fn); vsim_probe("unit-priority"); }
    } else {
      int dest = g.chance(60) ? me() : (int)g.range(0, nn() - 1);
      bool ser = k >= 8;
      int tracked = dest == me() and not ser;
      int prio = g.chance(25) ? 7 : (int)g.range(0, 6);
      Prio p;
      int level;
      auto build = [&](auto m) {
        m->ttl = ttl; m->sd = sd; m->tracked = tracked;
        if (parent and g.chance(60)) {
          bool inc = g.chance(60);
          level = plevel;
          if (inc and level + 1 < kLevels) level++;
          p = pp;
          p.level(level, prio);
          for (int q = level + 1; q < kLevels; q++) p.level(q, prio == 7 ? 7 : 0);
          if (plevel >= 0) vt::messaging::msgSetPriorityFrom(static_cast<vt::Message*>(static_cast<void*>(parent)), m.get(), prio, inc);
          vsim_probe("priority-from-parent");
        } else {
          bool inc = g.chance(40);
          level = inc ? 1 : 0;
          p.v = kUnset;
          p.level(level, prio);
          for (int q = level + 1; q < kLevels; q++) p.level(q, prio == 7 ? 7 : 0);
          vt::messaging::msgSetPriority(m.get(), prio, inc);
          vsim_probe("priority-set");
        }
        m->u = newUnit(p, level);
        if (tracked) addQueued(m->u);
      };
      if (ser) {
        auto m = vt::makeMessage<PMsgS>();
        build(m);
        m->v.resize(sd % 1500);
        vt::theMsg()->sendMsg<hPS>(dest, m);
      } else {
        auto m = vt::makeMessage<PMsg>();
        build(m);
        vt::theMsg()->sendMsg<hP>(dest, m);
      }
    }
  }
}

int once_reg = 0, once_ran = 0;
void onceTrigger(int again) {
  once_reg++;
  vt::theSched()->registerTriggerOnce(sch::SchedulerEvent::EndIdle, [again] {
    once_ran++;
    if (again > 0) { vsim_probe("once-trigger-registers-another"); onceTrigger(again - 1); }
  });
}

void order() {
  auto& o = OO();
  if (me() == 0) o.budget = vsim_param("budget", 20, 400);
  vt::theSched()->registerTrigger(sch::SchedulerEvent::BeginIdle, [] {
    if (idle_begin + idle_end > 0 and idle) vsim_fail("idle", "BeginIdle twice in a row");
    idle = true; idle_begin++;
  });
  vt::theSched()->registerTrigger(sch::SchedulerEvent::EndIdle, [] {
    if (idle_begin + idle_end > 0 and not idle) vsim_fail("idle", "EndIdle without BeginIdle");
    idle = false; idle_end++;
  });
  int rounds = (int)vsim_param("rounds", 1, 8);
  int fan = (int)vsim_param("fan", 1, 30);
  int ttl = (int)vsim_param("ttl", 0, 3);
  for (int r = 0; r < rounds; r++) {
    if (not vsim_op_on(r)) continue;
    Rng g("round", r * 64 + me());
    generate(g, (int)g.range(0, fan), ttl, nullptr, Prio{}, 0);
    if (g.chance(30)) onceTrigger((int)g.range(0, 2));
    int polls = (int)g.range(0, 40);
    if (g.chance(40)) {
      while (polls-- > 0) vt::theSched()->runSchedulerOnceImpl();
    } else {
      int64_t target = OO().live > 5 ? OO().live / 2 : 0;
      bool stop = false;
      vt::theSched()->runSchedulerWhile([&] { stop = OO().live <= target; return not stop; });
      if (not stop) vsim_fail("loop", "runSchedulerWhile returned with its condition still true");
    }
  }
  o.mains++;
  vsim_touch();
  pumpUntil([&] { return o.mains == nn() and o.live == 0; });
  if (not queued.empty()) vsim_fail("lost", "node %d still has %zu queued units", me(), queued.size());
  if (once_ran > once_reg) vsim_fail("trigger", "a one-shot trigger ran more than once");
  // one more idle period runs the remaining one-shot triggers
  for (int k = 0; k < 6 and once_ran < once_reg; k++) {
    int u = 0;
    for (int p = 0; p < 8; p++) vt::theSched()->runSchedulerOnceImpl();
    vt::theSched()->enqueue([&] { u = 1; });
    vt::theSched()->runSchedulerWhile([&] { return not u; });
    vt::theSched()->runSchedulerWhile([] { return false; });
  }
  int more = 0;
  pumpUntil([&] { return once_ran >= once_reg or ++more > 400; });
  if (once_ran != once_reg) vsim_fail("trigger", "%d one-shot triggers registered, %d ran", once_reg, once_ran);
  meet("end");
  vt::finalize();
  for (auto& u : o.all) if (u.runs != 1) vsim_fail("lost", "a unit ran %d times", u.runs);
}

// ------------------------------------------------------------------ mode "ult"
struct UltO {
  int64_t live = 0, budget = 0;
  int mains = 0;
  std::vector<std::array<int, 3>> tasks;   // started, resumed, finished
  std::map<uint64_t, int64_t> epoch_out;   // outstanding per epoch id
  std::set<uint64_t> epoch_done;
  std::set<uint64_t> closed;
  int64_t actions = 0;
  uint64_t flag[16] = {};                  // released tickets per node
};
UltO& U() { return shared<UltO>("ult"); }

struct Op : vt::messaging::AsyncOp {
  std::function<bool()> p;
  std::function<void()> d;
  bool poll() override { return p(); }
  void done() override { d(); }
};
struct UMsg : vt::Message { int id, ttl, from, what; uint64_t ep, sd; };
struct Ticket : vt::Message { int* cell; };
void hTicket(Ticket* t) { *t->cell = 1; vsim_touch(); }
struct TickReq : vt::Message { int back; int* cell; };
void hTickReq(TickReq* t) {
  auto m = vt::makeMessage<Ticket>();
  m->cell = t->cell;
  vt::theMsg()->sendMsg<hTicket>(t->back, m);
}
struct UObj {
  int64_t tag = 0;
  void h(UMsg* m);
};
vt::objgroup::proxy::Proxy<UObj> uproxy;
struct UElm : vt::Collection<UElm, vt::Index1D> {
  int64_t tag = 0;
  void h(vt::CollectionMessage<UElm>* m);
  struct M : vt::CollectionMessage<UElm> { int id, ttl, from, what; uint64_t ep, sd; };
  void hh(M* m);
  template <class S> void serialize(S& s) { vt::Collection<UElm, vt::Index1D>::serialize(s); s | tag; }
};
vt::CollectionProxy<UElm, vt::Index1D> cproxy;
int in_handler_nested = 0;

void uspawn(Rng& g, int ttl);
void ubody(int id, int ttl, int from, uint64_t ep, uint64_t sd, std::function<void()> extra);
void hU(UMsg* m) { ubody(m->id, m->ttl, m->from, m->ep, m->sd, [] {}); }
void UObj::h(UMsg* m) {
  if (uproxy.get() != this) vsim_fail("context", "the wrong object-group instance runs");
  ubody(m->id, m->ttl, -1, m->ep, m->sd, [this] { tag++; });
}
void UElm::hh(M* m) {
  auto ix = getIndex().x();
  auto q = vt::theCollection()->queryIndexContext<vt::Index1D>();
  if (not q or q->x() != ix) vsim_fail("context", "wrong collection context before suspending");
  ubody(m->id, m->ttl, -1, m->ep, m->sd, [this, ix] {
    auto q2 = vt::theCollection()->queryIndexContext<vt::Index1D>();
    if (not q2 or q2->x() != ix) vsim_fail("context", "wrong collection context after resuming");
    tag++;
  });
}

uint64_t curEp() {
  auto e = vt::theMsg()->getEpoch();
  return e == vt::no_epoch or e == vt::term::any_epoch_sentinel ? 0 : e.get();
}

void suspendNow(Rng& g) {
  auto op = std::make_unique<Op>();
  int kind = (int)g.range(0, 2);
  auto done = std::make_shared<int>(0);
  op->d = [done] { if (++*done > 1) vsim_fail("resume", "an operation completed twice"); };
  if (kind == 0) {
    auto left = std::make_shared<int>((int)g.range(0, 20));
    op->p = [left] { vsim_touch(); return (*left)-- <= 0; };
    vsim_probe("suspend-polls");
    vt::theMsg()->blockOnAsyncOp(std::move(op));
  } else if (kind == 1) {
    auto until = vsim_now() + (uint64_t)g.range(1, 200000);
    op->p = [until] { vsim_touch(); return vsim_now() >= until; };
    vsim_probe("suspend-time");
    vt::theMsg()->blockOnAsyncOp(std::move(op));
  } else {
    // a message from another node lets it continue; the cell is on this stack
    int cell = 0;
    auto m = vt::makeMessage<TickReq>();
    m->back = me(); m->cell = &cell;
    vt::theMsg()->sendMsg<hTickReq>((int)g.range(0, nn() - 1), m);
    int* pc = &cell;
    op->p = [pc] { return *pc != 0; };
    vsim_probe("suspend-message");
    vt::theMsg()->blockOnAsyncOp(std::move(op));
    if (cell != 1) vsim_fail("resume", "a task continued before its operation completed");
  }
  if (*done != 1) vsim_fail("resume", "a task continued before its operation was done");
}

void ubody(int id, int ttl, int from, uint64_t ep, uint64_t sd, std::function<void()> extra) {
  auto& o = U();
  auto& t = o.tasks;
  if (++t[id][0] > 1) vsim_fail("duplicate", "task %d started twice", id);
  if (curEp() != ep) vsim_fail("epoch", "task %d starts under another epoch", id);
  Rng g(sd);
  volatile uint64_t locals[16];
  for (int i = 0; i < 16; i++) locals[i] = sd ^ (uint64_t)i * 0x9E37;
  int n = (int)g.range(0, 3);
  auto tid = sch::ThreadAction::getActiveThreadID();
  auto src = vt::theContext()->getFromNodeCurrentTask();
  if (from >= 0 and src != from) vsim_fail("context", "a task sent by node %d sees source node %d", from, (int)src);
  auto* task = vt::theContext()->getTask();
  if (ttl > 0 and g.chance(50)) uspawn(g, ttl - 1);
  bool pushed = g.chance(25);
  if (pushed) vt::theMsg()->pushEpoch(vt::term::any_epoch_sentinel);
  auto inner = curEp();
  for (int s = 0; s < n; s++) {
    suspendNow(g);
    t[id][1]++;
    if (curEp() != inner) vsim_fail("epoch", "task %d resumed under another epoch", id);
    for (int i = 0; i < 16; i++) if (locals[i] != (sd ^ (uint64_t)i * 0x9E37)) vsim_fail("locals", "a local variable of task %d changed while it was suspended", id);
    if (sch::ThreadAction::getActiveThreadID() != tid) vsim_fail("context", "task %d resumed in another thread", id);
    if (vt::theContext()->getFromNodeCurrentTask() != src) vsim_fail("context", "the source node of task %d changed while it was suspended", id);
    if (vt::theContext()->getTask() != task) vsim_fail("context", "the current task of task %d changed while it was suspended", id);
    extra();
    if (o.epoch_done.count(ep)) vsim_fail("early", "the epoch of a suspended task was reported terminated");
    if (ttl > 0 and g.chance(40)) { if (inner == ep) uspawn(g, ttl - 1); vsim_probe("work-after-resume"); }
    if (ttl > 0 and inner == ep and g.chance(15)) {
      auto e2 = vt::theTerm()->makeEpochRooted("u", vt::term::UseDS{g.chance(50)});
      vt::theMsg()->pushEpoch(e2);
      o.epoch_out[e2.get()] = 0;
      uspawn(g, 0);
      if (g.chance(40)) { suspendNow(g); if (curEp() != e2.get()) vsim_fail("epoch", "a pushed epoch was lost over a suspension"); vsim_probe("suspend-with-pushed-epoch"); }
      vt::theMsg()->popEpoch(e2);
      auto id2 = e2.get();
      o.actions++;
      vt::theTerm()->addAction(e2, [id2] {
        if (U().epoch_out[id2] != 0) vsim_fail("early", "an epoch was reported terminated with work outstanding");
        U().epoch_done.insert(id2);
        U().actions--;
        vsim_touch();
      });
      vt::theTerm()->finishedEpoch(e2);
      vsim_probe("epoch-in-suspended-task");
    }
  }
  if (pushed) vt::theMsg()->popEpoch(vt::term::any_epoch_sentinel);
  if (curEp() != ep) vsim_fail("epoch", "task %d ends under another epoch", id);
  if (++t[id][2] > 1) vsim_fail("duplicate", "task %d finished twice", id);
  o.epoch_out[ep]--;
  o.live--;
  vsim_touch();
}

void uspawn(Rng& g, int ttl) {
  auto& o = U();
  int n = (int)g.range(1, 3);
  while (n-- > 0) {
    if (o.budget-- <= 0) return;
    int id = (int)o.tasks.size();
    o.tasks.push_back({0, 0, 0});
    auto ep = curEp();
    if (o.epoch_done.count(ep)) vsim_fail("early", "work is produced under an epoch that was reported terminated");
    o.epoch_out[ep]++;
    o.live++;
    int dest = (int)g.range(0, nn() - 1), k = (int)g.range(0, 5);
    auto set = [&](auto m) { m->id = id; m->ttl = ttl; m->from = me(); m->what = k; m->ep = ep; m->sd = g.next(); };
    if (k < 3) {
      auto m = vt::makeMessage<UMsg>();
      set(m);
      vt::theMsg()->sendMsg<hU>(dest, m);
    } else if (k == 3) {
      auto m = vt::makeMessage<UMsg>();
      set(m);
      uproxy[dest].sendMsg<&UObj::h>(m);
    } else {
      auto m = vt::makeMessage<UElm::M>();
      set(m);
      cproxy[(int)g.range(0, 2 * nn() - 1)].sendMsg<&UElm::hh>(m);
    }
  }
}

void ult() {
  auto& o = U();
  if (me() == 0) o.budget = vsim_param("budget", 5, 120);
  uproxy = vt::theObjGroup()->makeCollective<UObj>("u");
  cproxy = vt::makeCollection<UElm>("u").bounds(vt::Index1D(2 * nn())).bulkInsert().wait();
  meet("built");
  int ops = (int)vsim_param("ops", 1, 8);
  int ttl = (int)vsim_param("ttl", 0, 3);
  for (int i = 0; i < ops; i++) {
    if (not vsim_op_on(i)) continue;
    Rng g("op", i * 64 + me()), gc("opc", i);
    int k = (int)gc.range(0, 2);
    if (k == 0) { uspawn(g, ttl); }
    else if (k == 1) {
      uint64_t id = 0;
      vt::runInEpochCollective("w", [&] { id = curEp(); uspawn(g, ttl); meet(("m" + std::to_string(i)).c_str()); });
      if (o.epoch_out[id] != 0) vsim_fail("early", "runInEpochCollective returned with suspended or unprocessed tasks");
      o.epoch_done.insert(id);
    } else {
      uint64_t id = 0;
      vt::runInEpochRooted("r", [&] { id = curEp(); uspawn(g, ttl); });
      if (o.epoch_out[id] != 0) vsim_fail("early", "runInEpochRooted returned with suspended or unprocessed tasks");
      o.epoch_done.insert(id);
    }
  }
  o.mains++;
  vsim_touch();
  pumpUntil([&] { return o.mains == nn() and o.live == 0 and o.actions == 0; });
  meet("end");
  vt::finalize();
  for (auto& t : o.tasks) if (t[0] != 1 or t[2] != 1) vsim_fail("lost", "a task started %d times and finished %d times", t[0], t[2]);
}
void describe(char* b, uint64_t n) {
  snprintf(b, n, "order: live=%ld mains=%d; ult: live=%ld mains=%d actions=%ld", (long)OO().live, OO().mains, (long)U().live, U().mains, (long)U().actions);
}

} // namespace

WL_ENTRY {
  std::string mode = mode_c;
  init(mode == "ult" ? kNoUlt : 0);
  if (me() == 0) vsim_describe(describe);
  if (mode == "ult") ult(); else order();
  vsim_done();
}
