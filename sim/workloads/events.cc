// C19: events.  Normal, MPI and parent events on all nodes; actions attached
// from anywhere at any time; asynchronous operations with nested work.
#include "wl.h"
#include <functional>
#include <memory>
#include <mpi.h>
#include <vt/messaging/async_op.h>
#include <vt/messaging/async_op_mpi.h>
using namespace wl;
using vt::EventType;
using vt::NodeType;
using ES = vt::event::AsyncEvent::EventStateType;

namespace {

enum Kind { Normal, Send, Recv, Parent };
struct Ev {
  int id, owner; Kind kind; EventType ev; bool complete = false, observed = false;
  std::vector<int> kids; std::vector<int> buf; int peer = -1, value = 0;
};
struct Act { int id, ev, node; int runs = 0; };
struct State {
  std::deque<Ev> ev; std::deque<Act> act; int pendingActs = 0, openEvents = 0, chains = 0, ops = 0, meant = 0;
  std::map<int, std::map<int, int>> values;        // what was sent from a to b by tag
};
State& S() { static State* s = &shared<State>("events"); return *s; }
int depth = 0;
MPI_Comm comm = MPI_COMM_NULL;

char const* kn(Kind k) { return k == Normal ? "normal" : k == Send ? "send" : k == Recv ? "receive" : "parent"; }

// may the event be complete?  For sends this is not known, except that the
// receiver must see the data
bool may(Ev& e) {
  switch (e.kind) {
  case Normal: return e.complete;
  case Send: return true;
  case Recv: for (auto v : e.buf) if (v != e.value) return false; return true;
  case Parent: for (auto k : e.kids) if (not may(S().ev[(std::size_t)k])) return false; return true;
  }
  return true;
}
// Something says that e is complete
void saysComplete(Ev& e, char const* what) {
  if (not may(e)) vsim_fail("early", "%s: %s event %d of node %d is reported complete, but is not", what, kn(e.kind), e.id, e.owner);
  if (e.observed) return;
  e.observed = true;
  vsim_log("%s event %d is complete (%s)", kn(e.kind), e.id, what);
  if (e.kind == Send) for (auto& v : e.buf) v = -5;             // the buffer may be used again
  if (e.kind == Parent) for (auto k : e.kids) saysComplete(S().ev[(std::size_t)k], "child of a parent that is");
}
void test(Ev& e) {
  auto s = vt::theEvent()->testEventComplete(e.ev);
  if (e.owner != me()) { if (s != ES::EventRemote) vsim_fail("remote", "event %d of node %d tests as %d on node %d", e.id, e.owner, (int)s, me()); return; }
  if (s == ES::EventReady) saysComplete(e, "test");
  else if (s == ES::EventRemote) vsim_fail("remote", "event %d of this node tests as remote", e.id);
  else if (e.observed) vsim_fail("again", "%s event %d tests as waiting, but was complete before", kn(e.kind), e.id);
}

void randomWork(Rng& g, int left);
void attach(Ev& e, Rng& g, int left) {
  S().act.push_back({(int)S().act.size(), e.id, me()});
  auto& a = S().act.back();
  S().pendingActs++;
  auto seed = g.next();
  vsim_probe(e.owner == me() ? "attach-local" : "attach-remote");
  vsim_log("attach action %d to %s event %d of %d", a.id, kn(e.kind), e.id, e.owner);
  vt::theEvent()->attachAction(e.ev, [&a, &e, seed, left] {
    vsim_log("action %d of %s event %d runs", a.id, kn(e.kind), e.id);
    if (me() != a.node) vsim_fail("node", "action %d was attached on %d, but runs on %d", a.id, a.node, me());
    if (++a.runs != 1) vsim_fail("twice", "action %d of %s event %d runs %d times", a.id, kn(e.kind), e.id, a.runs);
    saysComplete(e, "its action runs");
    if (e.owner == me() and vt::theEvent()->testEventComplete(e.ev) != ES::EventReady) vsim_fail("again", "%s event %d is not complete inside of its action", kn(e.kind), e.id);
    Rng h(seed);
    if (left > 0 and h.chance(60)) randomWork(h, left - 1);
    if (depth < 3 and h.chance(20)) { depth++; vsim_probe("nested-run"); for (auto k = h.range(1, 4); k > 0; k--) vt::theSched()->runSchedulerOnceImpl(); depth--; }
    S().pendingActs--; vsim_touch();
  });
}
Ev* pick(Rng& g, bool mine, bool open) {
  std::vector<Ev*> v;
  for (auto& e : S().ev) if ((not mine or e.owner == me()) and (not open or (e.kind == Normal and not e.complete))) v.push_back(&e);
  return v.empty() ? nullptr : v[(std::size_t)g.range(0, (int64_t)v.size() - 1)];
}
Ev& newEvent(Kind k) {
  S().ev.push_back({(int)S().ev.size(), me(), k, 0});
  auto& e = S().ev.back();
  vsim_probe(k == Normal ? "normal" : k == Parent ? "parent" : k == Send ? "send" : "receive");
  if (k == Normal) { e.ev = vt::theEvent()->createNormalEvent((NodeType)me()); S().openEvents++; }
  else if (k == Parent) e.ev = vt::theEvent()->createParentEvent((NodeType)me());
  else e.ev = vt::theEvent()->createMPIEvent((NodeType)me());
  for (auto& x : S().ev) if (&x != &e and x.ev == e.ev) vsim_fail("id", "events %d and %d have the same identifier", x.id, e.id);
  vsim_log("new %s event %d", kn(k), e.id);
  return e;
}
void complete(Ev& e) {
  vsim_log("trigger event %d", e.id);
  e.complete = true;
  S().openEvents--;
  vt::theEvent()->getEventHolder(e.ev).makeReadyTrigger();
  test(e);
}
struct RecvMsg : vt::Message { int tag, n, value, from; };
void recvHan(RecvMsg* m) {
  auto& e = newEvent(Recv);
  e.buf.assign((std::size_t)m->n, -1); e.value = m->value; e.peer = m->from;
  MPI_Irecv(e.buf.data(), m->n, MPI_INT, m->from, m->tag, comm, vt::theEvent()->getEventHolder(e.ev).get_event()->getRequest());
  Rng g("recv", (uint64_t)m->tag);
  for (auto k = g.range(1, 2); k > 0; k--) attach(e, g, 1);
  S().meant--;
  test(e);
}
void randomWork(Rng& g, int left) {
  auto k = g.range(0, 11);
  if (k == 0) { auto& e = newEvent(Normal); if (g.chance(70)) attach(e, g, left); }
  else if (k == 1) {                                           // send to a node
    auto& e = newEvent(Send);
    static int next = 0;
    int tag = next++ * 16 + me(), to = (int)g.range(0, nn() - 1), n = (int)(g.chance(50) ? g.range(1, 8) : g.range(100, 4000)), value = (int)g.range(1, 1000000);
    e.buf.assign((std::size_t)n, value); e.value = value; e.peer = to;
    MPI_Isend(e.buf.data(), n, MPI_INT, to, tag, comm, vt::theEvent()->getEventHolder(e.ev).get_event()->getRequest());
    if (g.chance(80)) attach(e, g, left);
    auto m = vt::makeMessage<RecvMsg>();
    m->tag = tag; m->n = n; m->value = value; m->from = me();
    S().meant++;
    vt::theMsg()->sendMsg<recvHan>((NodeType)to, m);
  } else if (k <= 4) {                                         // a parent of some events
    std::vector<int> kids;
    for (auto c = g.range(1, 4); c > 0; c--) if (auto* x = pick(g, not g.chance(35), false)) kids.push_back(x->id);
    auto& e = newEvent(Parent);
    e.kids = kids;
    for (auto c : kids) {
      if (S().ev[(std::size_t)c].owner != me()) vsim_probe("remote-child");
      vt::theEvent()->getEventHolder(e.ev).get_event()->addEventToList(S().ev[(std::size_t)c].ev);
    }
    vsim_log("parent %d has %zu children", e.id, kids.size());
    if (g.chance(90)) attach(e, g, left);
    test(e);
  } else if (k <= 7) { if (auto* e = pick(g, false, false)) { attach(*e, g, left); if (g.chance(40)) attach(*e, g, left); } }
  else if (k <= 9) { if (auto* e = pick(g, true, true)) complete(*e); }
  else { if (auto* e = pick(g, not g.chance(10), false)) test(*e); }
}

struct GoMsg : vt::Message { uint64_t seed; int left; };
void goHan(GoMsg* m) {
  Rng g(m->seed);
  if (vsim_op_on(m->seed % 4096)) randomWork(g, 2);
  if (m->left > 0) {
    auto x = vt::makeMessage<GoMsg>();
    x->seed = g.next(); x->left = m->left - 1;
    vt::theMsg()->sendMsg<goHan>((NodeType)g.range(0, nn() - 1), x);
  } else { S().chains--; vsim_touch(); }
}

void eventMode() {
  init();
  vt::theTerm()->produce();
  MPI_Comm_dup(vt::theContext()->getComm(), &comm);
  meet("start");
  int chains = (int)vsim_param("chains", 1, 5), len = (int)vsim_param("length", 2, 20);
  for (int i = 0; i < chains; i++) {
    auto x = vt::makeMessage<GoMsg>();
    Rng g("chain", (uint64_t)(me() * 20 + i));
    x->seed = g.next(); x->left = len;
    S().chains++;
    vt::theMsg()->sendMsg<goHan>((NodeType)g.range(0, nn() - 1), x);
  }
  meet("driven");
  pumpUntil([] { return S().chains == 0; });
  // complete what is still open (actions may open more)
  while (S().openEvents > 0 or S().pendingActs > 0 or S().meant > 0) {
    Rng g("close", vsim_seq());
    if (auto* e = pick(g, true, true)) complete(*e);
    vt::theSched()->runSchedulerOnceImpl();
  }
  meet("closed");
  MPI_Comm_free(&comm);
  vt::theTerm()->consume();
  vt::finalize();
  for (auto& a : S().act) if (a.runs != 1) vsim_fail("lost", "action %d of %s event %d ran %d times", a.id, kn(S().ev[(std::size_t)a.ev].kind), a.ev, a.runs);
}

// --------------------------------------------------- asynchronous operations

struct OpO { int id, node, done = 0; uint64_t ready; bool gone = false, blocks = false; int epoch = -1; };
struct OpS { std::deque<OpO> ops; int live = 0; std::deque<std::array<int, 2>> epochs; };   // epochs: {open ops, terminated}
OpS& P() { static OpS* s = &shared<OpS>("ops"); return *s; }
void opWork(Rng& g, int left, int ep);

struct Op : vt::messaging::AsyncOp {
  OpO& o; uint64_t seed; int left; bool said = false;
  Op(OpO& in, uint64_t s, int l) : o(in), seed(s), left(l) {}
  ~Op() { o.gone = true; }
  bool poll() override {
    if (o.node != me()) vsim_fail("node", "operation %d of %d is polled by %d", o.id, o.node, me());
    if (o.done != 0) vsim_fail("poll", "operation %d is polled after it was done", o.id);
    if (vsim_now() < o.ready) return false;
    said = true;
    return true;
  }
  void done() override {
    if (not said) vsim_fail("early", "operation %d is done before it was ready", o.id);
    if (++o.done != 1) vsim_fail("twice", "operation %d is done %d times", o.id, o.done);
    if (o.epoch >= 0 and P().epochs[(std::size_t)o.epoch][1]) vsim_fail("epoch", "epoch %d ended before operation %d was done", o.epoch, o.id);
    vsim_log("operation %d is done", o.id);
    Rng h(seed);
    if (left > 0 and h.chance(60)) opWork(h, left - 1, -1);
    if (depth < 3 and h.chance(25)) { depth++; vsim_probe("nested-run"); for (auto k = h.range(1, 4); k > 0; k--) vt::theSched()->runSchedulerOnceImpl(); depth--; }
    if (o.gone) vsim_fail("freed", "operation %d is destroyed while it is done", o.id);
    P().live--;
    if (o.epoch >= 0) P().epochs[(std::size_t)o.epoch][0]--;
    vsim_touch();
  }
};
void opWork(Rng& g, int left, int ep) {
  for (auto k = g.range(1, 4); k > 0; k--) {
    P().ops.push_back({(int)P().ops.size(), me(), 0, vsim_now() + (uint64_t)g.range(0, 3) * (uint64_t)g.range(0, 300000)});
    auto& o = P().ops.back();
    o.epoch = ep;
    P().live++;
    if (ep >= 0) P().epochs[(std::size_t)ep][0]++;
    vsim_log("operation %d starts", o.id);
    vsim_probe(ep >= 0 ? "op-epoch" : "op");
    vt::theMsg()->registerAsyncOp(std::make_unique<Op>(o, g.next(), left));
    if (g.chance(20)) vt::theSched()->runSchedulerOnceImpl();
  }
}
struct OpMsg : vt::Message { uint64_t seed; int left, ep; };
void opHan(OpMsg* m) {
  Rng g(m->seed);
  opWork(g, 2, m->ep);
  if (m->left > 0) {
    auto x = vt::makeMessage<OpMsg>();
    x->seed = g.next(); x->left = m->left - 1; x->ep = m->ep;
    vt::theMsg()->sendMsg<opHan>((NodeType)g.range(0, nn() - 1), x);
  } else { S().chains--; vsim_touch(); }
}
void asyncMode() {
  init();
  vt::theTerm()->produce();
  meet("start");
  int chains = (int)vsim_param("chains", 1, 4);
  for (int i = 0; i < chains; i++) {
    Rng g("ops", (uint64_t)(me() * 20 + i));
    auto to = (NodeType)g.range(0, nn() - 1);
    auto x = vt::makeMessage<OpMsg>();
    x->seed = g.next(); x->left = (int)g.range(0, 4); x->ep = -1;
    if (not vsim_op_on((uint64_t)(me() * 20 + i))) continue;
    S().chains++;
    if (g.chance(50)) { vt::theMsg()->sendMsg<opHan>(to, x); continue; }
    x->ep = (int)P().epochs.size();
    P().epochs.push_back({0, 0});
    auto ep = vt::theTerm()->makeEpochRooted("ops", vt::term::UseDS{g.chance(50)});
    auto i2 = (std::size_t)x->ep;
    vt::theTerm()->addAction(ep, [i2] {
      if (P().epochs[i2][0] != 0) vsim_fail("epoch", "epoch %zu ends with %d operations open", i2, P().epochs[i2][0]);
      P().epochs[i2][1] = 1;
      vsim_probe("epoch-ended");
    });
    vt::theMsg()->pushEpoch(ep);
    vt::theMsg()->sendMsg<opHan>(to, x);
    vt::theMsg()->popEpoch(ep);
    vt::theTerm()->finishedEpoch(ep);
  }
  meet("driven");
  pumpUntil([] {
    if (S().chains != 0 or P().live != 0) return false;
    for (auto& e : P().epochs) if (not e[1]) return false;
    return true;
  });
  vt::theTerm()->consume();
  vt::finalize();
  for (auto& o : P().ops) if (o.done != 1 or not o.gone) vsim_fail("lost", "operation %d is done %d times", o.id, o.done);
}

} // namespace

WL_ENTRY {
  std::string mode = mode_c;
  if (mode == "async") asyncMode(); else eventMode();
  vsim_done();
}
