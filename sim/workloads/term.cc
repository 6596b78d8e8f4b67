// Termination detection: random epoch programs judged by a global account of
// outstanding work kept outside the runtime.
#include "wl.h"
#include <vt/messaging/collection_chain_set.h>
#include <vt/messaging/dependent_send_chain.h>
using namespace wl;
using vt::EpochType;

namespace {

constexpr int kGlobal = -1;

struct Ep {
  int id = 0;
  EpochType ep = vt::no_epoch;
  bool coll = false, ds = false, blocked_child = false;
  int root = 0;
  std::set<int> deps;               // epochs this one must wait for
  int64_t outstanding = 0;
  std::set<int> fin;                // nodes that finished it
  int fin_needed = 1;
  bool seen_done = false;
  int after = -1;                   // chain: the previous step
  char why[24] = "";
};
struct Act { int ep; int rank; int count = 0; int encl; };
struct Oracle {
  std::deque<Ep> eps;
  std::map<uint64_t, int> by;
  std::map<uint64_t, int> coll_key; // collective creation -> epoch id
  std::deque<Act> acts;
  std::deque<int> units;            // executions per unit
  std::deque<int> expect;
  int64_t live_units = 0, acts_left = 0, mains = 0;
  int64_t budget = 0;
};
Oracle& O() { return shared<Oracle>("term"); }

int params_fan, params_ttl, params_budget, params_ops;
bool chain_mode = false;
int nest = 0;

void closure(int id, std::set<int>& out) {
  if (not out.insert(id).second) return;
  for (auto d : O().eps[id].deps) closure(d, out);
}
// the termination claim: everything below `id` has been processed
void claimTerminated(int id, char const* how) {
  std::set<int> c;
  closure(id, c);
  for (auto x : c) {
    auto& e = O().eps[x];
    if (e.outstanding != 0) {
      vsim_fail("early-termination", "epoch %d (%s%s%s, root %d) reported terminated by %s on node %d while "
        "%s %d has %ld unprocessed units", id, O().eps[id].why, O().eps[id].coll ? " collective" : " rooted",
        O().eps[id].ds ? " DS" : "", O().eps[id].root, how, me(), x == id ? "it" : "its descendant", x, (long)e.outstanding);
    }
    if ((int)e.fin.size() < e.fin_needed) {
      vsim_fail("early-termination", "epoch %d reported terminated by %s on node %d while epoch %d was finished on "
        "only %d of %d nodes", id, how, me(), x, (int)e.fin.size(), e.fin_needed);
    }
    e.seen_done = true;
  }
}

int curId() {
  auto e = vt::theMsg()->getEpoch();
  if (e == vt::term::any_epoch_sentinel or e == vt::no_epoch) return kGlobal;
  auto it = O().by.find(e.get());
  return it == O().by.end() ? kGlobal : it->second;
}

int registerEpoch(EpochType ep, bool coll, bool ds, int64_t key, int parent, char const* why) {
  auto& o = O();
  if (coll and key >= 0) {
    auto it = o.coll_key.find(key);
    if (it != o.coll_key.end()) {
      auto& e = o.eps[it->second];
      if (e.ep != ep) {
        vsim_fail("epoch-identity", "the same collective epoch has different identifiers on two nodes");
      }
      if (parent >= 0) o.eps[parent].deps.insert(e.id);
      return e.id;
    }
  }
  if (o.by.count(ep.get())) {
    vsim_fail("epoch-identity", "a new epoch got the identifier of an existing one (%lx)", (unsigned long)ep.get());
  }
  int id = (int)o.eps.size();
  o.eps.emplace_back();
  auto& e = o.eps.back();
  e.id = id; e.ep = ep; e.coll = coll; e.ds = ds; e.root = me();
  e.fin_needed = coll ? nn() : 1;
  snprintf(e.why, sizeof e.why, "%s", why);
  o.by[ep.get()] = id;
  if (coll and key >= 0) o.coll_key[key] = id;
  if (parent >= 0) o.eps[parent].deps.insert(id);
  if (coll) vsim_probe("collective-epoch"); else vsim_probe(vt::epoch::EpochManip::category(ep) ==
    vt::epoch::eEpochCategory::DijkstraScholtenEpoch ? "rooted-ds-epoch" : "rooted-wave-epoch");
  return id;
}

int newUnit(int ep, int n) {
  auto& o = O();
  if (ep >= 0) {
    if (o.eps[ep].seen_done) {
      // the workload itself must not do this
      vsim_fail("early-termination", "epoch %d was reported terminated but a handler running under it on node %d still creates work",
        ep, me());
    }
    o.eps[ep].outstanding += n;
  }
  o.units.push_back(0);
  o.expect.push_back(n);
  o.live_units += n;
  return (int)o.units.size() - 1;
}
void unitDone(int uid, int ep) {
  auto& o = O();
  if (++o.units[uid] > o.expect[uid]) vsim_fail("duplicate", "work unit %d ran more often than created", uid);
  o.live_units--;
  if (ep >= 0) o.eps[ep].outstanding--;
  vsim_touch();
}

struct WorkMsg : vt::Message {
  int ep, uid, ttl, noblock; uint64_t sd;
};
struct BigMsg : vt::Message {
  int ep, uid, ttl, noblock; uint64_t sd;
  char pad[4000];
};
struct SerMsg : vt::Message {
  using MessageParentType = vt::Message;
  vt_msg_serialize_required();
  int ep, uid, ttl, noblock; uint64_t sd;
  std::vector<int> v;
  template <typename S> void serialize(S& s) {
    MessageParentType::serialize(s);
    s | ep | uid | ttl | noblock | sd | v;
  }
};
struct NoteMsg : vt::Message { int ep, uid, op, from; };

void body(int ep, int uid, int ttl, int noblock, uint64_t sd);
template <class M> void run(M* m) { body(m->ep, m->uid, m->ttl, m->noblock, m->sd); }
void hWork(WorkMsg* m) { run(m); }
void hBig(BigMsg* m) { run(m); }
void hSer(SerMsg* m) {
  if (m->v.size() != (m->sd % 300)) vsim_fail("corrupt", "serialized message lost contents");
  run(m);
}

template <class M> vt::MsgPtr<M> mk(int ep, int uid, int ttl, int nb, uint64_t sd) {
  auto m = vt::makeMessage<M>();
  m->ep = ep; m->uid = uid; m->ttl = ttl; m->noblock = nb; m->sd = sd;
  return m;
}

// Creates one unit of work under the current epoch.
void spawn(Rng& g, int ttl, int noblock) {
  
  auto& o = O();
  if (o.budget <= 0) return;
  int ep = curId();
  auto kind = g.range(0, 9);
  int dest = (int)g.range(0, nn() - 1);
  auto sd = g.next();
  if (kind == 0 and o.budget >= nn()) {
    o.budget -= nn();
    bool self = g.chance(70);
    int uid = newUnit(ep, self ? nn() : nn() - 1);
    vt::theMsg()->broadcastMsg<hWork>(mk<WorkMsg>(ep, uid, 0, noblock, sd), self);
    vsim_probe("work-broadcast");
    return;
  }
  o.budget--;
  int uid = newUnit(ep, 1);
  vsim_log("spawn unit %d kind %d ep %d dest %d", uid, (int)kind, ep, dest);
  if (kind == 1) {
    vt::theMsg()->sendMsg<hBig>(dest, mk<BigMsg>(ep, uid, ttl, noblock, sd));
  } else if (kind == 2) {
    auto m = mk<SerMsg>(ep, uid, ttl, noblock, sd);
    m->v.resize(sd % 300);
    vt::theMsg()->sendMsg<hSer>(dest, m);
    vsim_probe("work-serialized");
  } else if (kind == 3) {
    // local work unit counted by hand
    auto e = vt::theMsg()->getEpoch();
    vt::theTerm()->produce(e);
    vt::theSched()->enqueue([=] {
      vt::theMsg()->pushEpoch(e);
      body(ep, uid, ttl, noblock, sd);
      vt::theMsg()->popEpoch(e);
      vt::theTerm()->consume(e);
    });
    vsim_probe("work-enqueued");
  } else {
    vt::theMsg()->sendMsg<hWork>(dest, mk<WorkMsg>(ep, uid, ttl, noblock, sd));
  }
}

// A release of held work arrives outside of any epoch.
void hNote(NoteMsg* m) {
  auto e = O().eps[m->ep].ep;
  int id = m->ep, uid = m->uid;
  if (m->op == 0) {            // release of a local dependency taken on this node
    unitDone(uid, id);
    vt::theTerm()->releaseLocalDependency(e);
  } else {                     // remote consume of a unit produced on m->from
    unitDone(uid, id);
    vt::theTerm()->consume(e, 1, m->from);
  }
}
void sendNote(int dest, int ep, int uid, int op) {
  auto m = vt::makeMessage<NoteMsg>();
  m->ep = ep; m->uid = uid; m->op = op; m->from = me();
  vt::theMsg()->pushEpoch(vt::term::any_epoch_sentinel);
  vt::theMsg()->sendMsg<hNote>(dest, m);
  vt::theMsg()->popEpoch(vt::term::any_epoch_sentinel);
}
void hBounce(NoteMsg* m) { sendNote(m->from, m->ep, m->uid, 0); }
void heldWork(Rng& g) {
  int id = curId();
  if (id < 0) return;
  auto e = vt::theMsg()->getEpoch();
  int uid = newUnit(id, 1);
  if (g.chance(50)) {
    vsim_probe("local-dependency");
    vt::theTerm()->addLocalDependency(e);
    auto m = vt::makeMessage<NoteMsg>();
    m->ep = id; m->uid = uid; m->op = 0; m->from = me();
    vt::theMsg()->pushEpoch(vt::term::any_epoch_sentinel);
    vt::theMsg()->sendMsg<hBounce>((int)g.range(0, nn() - 1), m);
    vt::theMsg()->popEpoch(vt::term::any_epoch_sentinel);
  } else {
    vsim_probe("explicit-produce");
    int dest = (int)g.range(0, nn() - 1);
    vt::theTerm()->produce(e, 1, dest);
    sendNote(dest, id, uid, 1);
  }
}

void addAct(int id, int encl, Rng& g, int again = 1);
struct ActFn {
  int a, id, encl, again; uint64_t sd;
  std::unique_ptr<int> only_movable;
  void operator()() {
    auto& o = O();
    auto& act = o.acts[a];
    if (act.rank != me()) vsim_fail("action", "a termination action ran on node %d, registered on %d", me(), act.rank);
    if (++act.count > 1) vsim_fail("action-duplicate", "a termination action of epoch %d ran twice", id);
    claimTerminated(id, "an action");
    if (curId() != encl) vsim_fail("action", "a termination action of epoch %d ran under epoch %d, registered under %d", id, curId(), encl);
    Rng g(sd);
    if (g.chance(30)) spawn(g, 1, 1);
    if (again and g.chance(25)) { vsim_probe("action-adds-action"); addAct(id, encl, g, 0); }
    o.acts_left--;
    if (encl >= 0) o.eps[encl].outstanding--;
    vsim_touch();
  }
};
// Registers an action; the current epoch must be `encl`.
void addAct(int id, int encl, Rng& g, int again) {
  auto& o = O();
  int a = (int)o.acts.size();
  o.acts.push_back(Act{id, me(), 0, encl});
  o.acts_left++;
  if (encl >= 0) { o.eps[encl].outstanding++; o.eps[encl].deps.insert(id); }
  auto e = o.eps[id].ep;
  ActFn f{a, id, encl, again, g.next(), nullptr};
  if (g.chance(50)) {
    f.only_movable = std::make_unique<int>(1);
    vt::theTerm()->addActionUnique(e, std::move(f));
    vsim_probe("action-unique");
  } else {
    auto p = std::make_shared<ActFn>(std::move(f));
    vt::theTerm()->addAction(e, [p] { (*p)(); });
  }
}
void addActGlobal(int id, Rng& g) {
  vt::theMsg()->pushEpoch(vt::term::any_epoch_sentinel);
  addAct(id, kGlobal, g);
  vt::theMsg()->popEpoch(vt::term::any_epoch_sentinel);
}

void finishE(int id) {
  auto& e = O().eps[id];
  e.fin.insert(me());
  vt::theTerm()->finishedEpoch(e.ep);
}

// A rooted epoch rooted here, under the current epoch.
int rooted(Rng& g, int ttl, bool with_parent, int noblock) {
  int parent = curId();
  bool ds = g.chance(50);
  EpochType ep;
  if (with_parent) {
    ep = vt::theTerm()->makeEpochRooted(g.chance(30) ? "r" : "", vt::term::UseDS{ds});
  } else {
    ep = vt::theTerm()->makeEpochRooted(vt::term::UseDS{ds}, vt::term::ParentEpochCapture{vt::no_epoch});
    parent = kGlobal;
  }
  int id = registerEpoch(ep, false, vt::epoch::EpochManip::category(ep) == vt::epoch::eEpochCategory::DijkstraScholtenEpoch,
    -1, parent, "rooted");
  if (g.chance(40)) { if (parent == curId()) addAct(id, parent, g); else addActGlobal(id, g); }
  vt::theMsg()->pushEpoch(ep);
  int k = (int)g.range(0, params_fan);
  for (int i = 0; i < k; i++) spawn(g, ttl, noblock);
  if (g.chance(25)) heldWork(g);
  if (g.chance(20) and ttl > 0) rooted(g, ttl - 1, true, noblock);
  vt::theMsg()->popEpoch(ep);
  if (g.chance(40)) addActGlobal(id, g);
  finishE(id);
  return id;
}

void query(Rng& g) {
  auto& o = O();
  if (o.eps.empty()) return;
  int id = (int)g.range(0, (int)o.eps.size() - 1);
  if (g.chance(30) and curId() >= 0) id = curId();
  auto& e = o.eps[id];
  if (e.coll and not e.fin.count(me()) and id != curId()) return;   // not known here yet
  bool t = vt::theTerm()->isEpochTerminated(e.ep);
  static std::set<int> known;
  if (t) {
    claimTerminated(id, "isEpochTerminated");
    known.insert(id);
    vsim_probe("query-true");
  } else {
    if (known.count(id)) vsim_fail("unterminated", "epoch %d was terminated on node %d and no longer is", id, me());
    vsim_probe("query-false");
  }
}

void blockingRooted(Rng& g, char const* what) {
  // work under it never blocks, so nested scheduling cannot deadlock by itself
  nest++;
  vsim_probe(what);
  int id = -1;
  bool ds = g.chance(50);
  int parent = curId();
  auto fn = [&] {
    id = registerEpoch(vt::theMsg()->getEpoch(), false, false, -1, parent, what);
    O().eps[id].ds = vt::epoch::EpochManip::category(O().eps[id].ep) == vt::epoch::eEpochCategory::DijkstraScholtenEpoch;
    int k = (int)g.range(0, params_fan);
    for (int i = 0; i < k; i++) spawn(g, (int)g.range(0, params_ttl), 1);
    O().eps[id].fin.insert(me());
  };
  if (ds) vt::runInEpochRooted("blk", fn);
  else vt::runInEpoch(vt::theTerm()->makeEpochRooted("blk", vt::term::UseDS{false}), fn);
  claimTerminated(id, "runInEpochRooted returning");
  if (not vt::theTerm()->isEpochTerminated(O().eps[id].ep)) {
    vsim_fail("unterminated", "runInEpochRooted returned but its epoch is not terminated");
  }
  nest--;
}

void body(int ep, int uid, int ttl, int noblock, uint64_t sd) {
  if (curId() != ep) vsim_fail("wrong-epoch", "work of epoch %d runs under epoch %d on node %d (unit %d)", ep, curId(), me(), uid);
  if (ep >= 0 and O().eps[ep].seen_done) {
    vsim_fail("early-termination", "epoch %d was reported terminated but work under it still runs on node %d", ep, me());
  }
  if (ep >= 0 and O().eps[ep].after >= 0) claimTerminated(O().eps[ep].after, "the next step of a chain running");
  Rng g(sd);
  if (ttl > 0) {
    int k = (int)g.range(0, params_fan);
    for (int i = 0; i < k; i++) spawn(g, ttl - 1, noblock);
    if (g.chance(12)) rooted(g, ttl - 1, g.chance(80), noblock);
    if (g.chance(10)) heldWork(g);
    if (not noblock and nest < 3 and g.chance(12)) {
      blockingRooted(g, "blocking-wait-in-handler");
      if (curId() != ep) vsim_fail("wrong-epoch", "after a nested wait the handler of epoch %d runs under %d", ep, curId());
      if (g.chance(50)) spawn(g, 0, 1);
    }
  }
  if (g.chance(10)) vsim_advance(g.range(100, 20000));
  if (g.chance(10)) query(g);
  if (ep >= 0 and g.chance(6)) {
    // an epoch made here waits for the one this work belongs to, wherever that is rooted
    auto s = vt::theTerm()->makeEpochRooted(vt::term::UseDS{g.chance(50)}, vt::term::ParentEpochCapture{vt::no_epoch});
    int id = registerEpoch(s, false, false, -1, kGlobal, "follower");
    O().eps[id].ds = vt::epoch::EpochManip::category(s) == vt::epoch::eEpochCategory::DijkstraScholtenEpoch;
    O().eps[id].deps.insert(ep);
    vt::theTerm()->addDependency(O().eps[ep].ep, s);
    vsim_probe(O().eps[ep].coll ? "follows-collective" : O().eps[ep].root == me() ? "follows-local" : "follows-remote");
    if (g.chance(60)) addActGlobal(id, g);
    finishE(id);
  }
  if (g.chance(5)) {
    auto& o = O();
    int id = (int)g.range(0, (int)o.eps.size() - 1);
    if (g.chance(50) and ep >= 0) id = ep;
    if (not o.eps.empty() and (not o.eps[id].coll or o.eps[id].fin.count(me()) or id == ep)) addActGlobal(id, g);
  }
  unitDone(uid, ep);
}

// --- dependent chains -------------------------------------------------------------
void chains(uint64_t base) {
  Rng g("chains", me());
  int nch = (int)vsim_param("chains", 1, 4);
  int steps = (int)vsim_param("steps", 1, 6);
  std::vector<vt::messaging::DependentSendChain> ch(nch);
  std::vector<int> last(nch, -1);
  Rng gc("chains-coll", 0);
  for (int s = 0; s < steps; s++) {
    bool coll = gc.chance(30);       // same decision everywhere
    bool on = vsim_op_on(base + s);
    if (not on) continue;
    if (coll) {
      auto ep = vt::theTerm()->makeEpochCollective("chain", vt::term::ParentEpochCapture{vt::no_epoch});
      int id = registerEpoch(ep, true, false, 1000000 + s, kGlobal, "chain");
      vt::theMsg()->pushEpoch(ep);
      for (int c = 0; c < nch; c++) {
        int uid = newUnit(id, 1);
        if (last[c] >= 0) O().eps[id].deps.insert(last[c]);
        ch[c].add(ep, vt::theMsg()->sendMsg<hWork>((int)g.range(0, nn() - 1), mk<WorkMsg>(id, uid, 1, 1, g.next())));
        last[c] = id;
      }
      vt::theMsg()->popEpoch(ep);
      finishE(id);
      vsim_probe("chain-collective-step");
      continue;
    }
    for (int c = 0; c < nch; c++) {
      bool merge = c + 1 < nch and g.chance(20);
      auto ep = vt::theTerm()->makeEpochRooted("chain", vt::term::UseDS{g.chance(60)}, vt::term::ParentEpochCapture{vt::no_epoch});
      int id = registerEpoch(ep, false, false, -1, kGlobal, "chain");
      vt::theMsg()->pushEpoch(ep);
      int uid = newUnit(id, 1);
      auto send = [&] { return vt::theMsg()->sendMsg<hWork>((int)g.range(0, nn() - 1), mk<WorkMsg>(id, uid, (int)g.range(0, 2), 1, g.next())); };
      if (last[c] >= 0) O().eps[id].deps.insert(last[c]);
      if (merge) {
        if (last[c + 1] >= 0) O().eps[id].deps.insert(last[c + 1]);
        vt::messaging::DependentSendChain::mergeChainStep(ch[c], ch[c + 1], ep, send());
        last[c + 1] = id;
        vsim_probe("chain-merge-step");
      } else {
        ch[c].add(ep, send());
      }
      // the step may only run once the whole previous step has terminated
      O().eps[id].after = last[c];
      last[c] = id;
      vt::theMsg()->popEpoch(ep);
      finishE(id);
      vsim_probe("chain-step");
    }
  }
  for (int c = 0; c < nch; c++) {
    if (last[c] >= 0) addActGlobal(last[c], g);
    ch[c].done();
  }
}

// --- the main program of each node ---------------------------------------------------
void program(std::string const& mode) {
  std::vector<int> open;     // collective epochs this node has open (LIFO)
  std::vector<std::pair<int, int>> late;   // rooted epochs to finish later
  for (int i = 0; i < params_ops; i++) {
    if (not vsim_op_on(i)) continue;
    Rng gc("op", i);                       // same on every node
    Rng g("op-node", (uint64_t)i * 64 + me());
    int k = (int)gc.range(0, 99);
    int who = (int)gc.range(0, nn() - 1);
    if (mode == "coll") k = (int)(k * 0.45);
    if (mode == "rooted" and k < 45) k = 45 + k;
    if (k < 30) {
      // collective epoch, not waited for; maybe left open so that others nest in it
      bool noparent = gc.chance(25);
      int parent = noparent ? kGlobal : curId();
      auto ep = noparent ?
        vt::theTerm()->makeEpochCollective(vt::term::ParentEpochCapture{vt::no_epoch}) : vt::theTerm()->makeEpochCollective("c");
      int id = registerEpoch(ep, true, false, i, parent, "collective");
      if (g.chance(25)) { if (parent == curId()) addAct(id, parent, g); else addActGlobal(id, g); }
      vt::theMsg()->pushEpoch(ep);
      int n = (int)g.range(0, params_fan);
      for (int j = 0; j < n; j++) spawn(g, (int)g.range(0, params_ttl), 0);
      if (g.chance(20)) heldWork(g);
      bool leave = gc.chance(30);
      if (leave) {
        open.push_back(id);
      } else {
        vt::theMsg()->popEpoch(ep);
        if (g.chance(20)) addActGlobal(id, g);
        finishE(id);
        if (g.chance(30)) addActGlobal(id, g);
      }
    } else if (k < 38) {
      // waited for on every node
      int id = -1;
      int parent = curId();
      vt::runInEpochCollective("w", [&] {
        id = registerEpoch(vt::theMsg()->getEpoch(), true, false, i, parent, "waited collective");
        int n = (int)g.range(0, params_fan);
        for (int j = 0; j < n; j++) spawn(g, (int)g.range(0, params_ttl), 0);
        O().eps[id].fin.insert(me());
      });
      claimTerminated(id, "runInEpochCollective returning");
      vsim_probe("run-in-epoch-collective");
    } else if (k < 45) {
      if (not open.empty()) {
        int id = open.back();
        open.pop_back();
        vt::theMsg()->popEpoch(O().eps[id].ep);
        finishE(id);
      }
    } else if (k < 70) {
      if (g.chance(50) or who == me()) rooted(g, (int)g.range(0, params_ttl), g.chance(80), 0);
    } else if (k < 78) {
      if (who == me()) blockingRooted(g, "blocking-wait-in-main");
    } else if (k < 84) {
      query(g);
    } else if (k < 90) {
      // a rooted epoch that stays unfinished for a while, with explicit dependencies
      if (g.chance(35)) {
        // several that stay unfinished, with dependencies between them, added in any order
        vsim_probe("dependency-graph");
        bool nested = g.chance(60);
        int m = (int)g.range(2, 5), up = nested ? curId() : kGlobal;
        std::vector<int> es;
        std::vector<std::pair<int, int>> edges;
        for (int j = 0; j < m; j++) {
          auto ep = nested ? vt::theTerm()->makeEpochRooted("g", vt::term::UseDS{g.chance(50)}) :
            vt::theTerm()->makeEpochRooted(vt::term::UseDS{g.chance(50)}, vt::term::ParentEpochCapture{vt::no_epoch});
          es.push_back(registerEpoch(ep, false, false, -1, up, "graph"));
          if (g.chance(60)) { vt::theMsg()->pushEpoch(ep); spawn(g, (int)g.range(0, params_ttl), 0); vt::theMsg()->popEpoch(ep); }
          for (int a = 0; a < j; a++) if (g.chance(55)) edges.push_back({a, j});
        }
        for (std::size_t j = 1; j < edges.size(); j++) std::swap(edges[j], edges[(std::size_t)g.range(0, (int64_t)j)]);
        for (auto& x : edges) {
          O().eps[es[x.second]].deps.insert(es[x.first]);
          vt::theTerm()->addDependency(O().eps[es[x.first]].ep, O().eps[es[x.second]].ep);
          if (g.chance(20)) vt::theSched()->runSchedulerOnceImpl();
        }
        for (auto e : es) { if (g.chance(50)) addActGlobal(e, g); late.push_back({e, i + (int)g.range(0, 3)}); }
      } else if (g.chance(50)) {
        auto ep = vt::theTerm()->makeEpochRooted(vt::term::UseDS{g.chance(50)}, vt::term::ParentEpochCapture{vt::no_epoch});
        int id = registerEpoch(ep, false, false, -1, kGlobal, "held");
        int n = (int)g.range(1, 3);
        for (int j = 0; j < n; j++) {
          int d = rooted(g, (int)g.range(0, params_ttl), false, 0);
          if (O().eps[d].root == me()) {
            O().eps[id].deps.insert(d);
            vt::theTerm()->addDependency(O().eps[d].ep, ep);
            vsim_probe("explicit-dependency");
          }
        }
        if (g.chance(50)) addActGlobal(id, g);
        late.push_back({id, i + (int)g.range(0, 3)});
      }
    } else {
      // let the scheduler run for a bounded number of polls
      int n = (int)g.range(0, 12);
      while (n-- > 0) vt::theSched()->runSchedulerOnceImpl();
    }
    for (auto it = late.begin(); it != late.end();) {
      if (it->second <= i) { finishE(it->first); it = late.erase(it); } else ++it;
    }
  }
  while (not open.empty()) {
    int id = open.back();
    open.pop_back();
    vt::theMsg()->popEpoch(O().eps[id].ep);
    finishE(id);
  }
  for (auto& l : late) finishE(l.first);
}

#include "chainset.h"
} // namespace

void describe(char* b, uint64_t n) {
  auto& o = O();
  uint64_t k = snprintf(b, n, "mains=%ld live_units=%ld actions_left=%ld;", (long)o.mains, (long)o.live_units, (long)o.acts_left);
  for (auto& e : o.eps) {
    if (e.seen_done or k + 120 > n) continue;
    k += snprintf(b + k, n - k, " ep%d %s%s root=%d out=%ld fin=%zu/%d deps=%zu;", e.id, e.why, e.ds ? " DS" : "", e.root,
      (long)e.outstanding, e.fin.size(), e.fin_needed, e.deps.size());
  }
  for (auto& a : o.acts) if (a.count == 0 and k + 60 < n) k += snprintf(b + k, n - k, " act ep%d(%s root%d ds%d) rank%d encl%d;", a.ep, o.eps[a.ep].why, o.eps[a.ep].root, o.eps[a.ep].ds, a.rank, a.encl);
}

WL_ENTRY {
  std::string mode = mode_c;
  init();
  if (mode == "elements") return cs::run();
  if (me() == 0) vsim_describe(describe);
  params_fan = (int)vsim_param("fan", 1, 4);
  params_ttl = (int)vsim_param("ttl", 0, 3);
  params_ops = (int)vsim_param("ops", 1, 14);
  params_budget = (int)vsim_param("budget", 10, 220);
  auto& o = O();
  if (o.mains == 0 and o.budget == 0) o.budget = params_budget;
  if (mode == "chain") chains(0); else program(mode);
  o.mains++;
  vsim_touch();
  pumpUntil([&] { return o.mains == nn() and o.live_units == 0 and o.acts_left == 0; });
  // every epoch can be told to be terminated now, on every node
  Rng g("final", me());
  auto all = [&] {
    bool ok = true;
    for (auto& e : o.eps) {
      if (not vt::theTerm()->isEpochTerminated(e.ep)) ok = false;
    }
    return ok;
  };
  pumpUntil(all);
  for (auto& e : o.eps) claimTerminated(e.id, "isEpochTerminated at the end");
  meet("end");
  vt::finalize();
  if (me() == 0) {
    for (std::size_t i = 0; i < o.units.size(); i++) {
      if (o.units[i] != o.expect[i]) vsim_fail("lost-work", "work unit %zu ran %d times, created %d", i, o.units[i], o.expect[i]);
    }
  }
  vsim_done();
}
