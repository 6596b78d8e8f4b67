// Callbacks: every kind of target, shipped between nodes and triggered anywhere.
#include "wl.h"
#include <algorithm>
#include <vt/pipe/pipe_headers.h>
#include <vt/pipe/signal/signal_holder.h>
using namespace wl;
using vt::NodeType;

namespace {

constexpr int kElms = 7;
enum Kind { kSend, kFunctor, kBcast, kFunctorBcast, kAnon, kAnonCtx, kAnonOnce, kCounted, kObjSend, kObjBcast, kColSend, kColBcast, kMulti, kKinds };
char const* kName[] = {"send", "functor", "bcast", "functor-bcast", "anon", "anon-ctx", "anon-once", "counted", "objgroup-send", "objgroup-bcast",
                       "collection-send", "collection-bcast", "multi"};
enum Pay { pSmall, pBig, pSer, pParam, pVoid, kPays };
char const* pName[] = {"small", "big", "serialized", "params", "void"};

struct Cb {
  int kind, pay, creator, target;     // target: node or element
  int max = -1;                        // bounded number of signals
  int triggers = 0;
  std::vector<int> listeners;          // of a multi callback: node, or -1 for all
  std::weak_ptr<int> life;             // alive while the runtime holds the function
  std::map<int, int> void_got;         // runs per target, payload void
};
struct Tr { int cb; uint64_t key; int from; std::map<int, int> got; };
struct O {
  std::deque<Cb> cbs;
  std::deque<Tr> trs;
  int64_t left = 0;                    // expected target runs still to come
  std::set<int> moved;                  // elements that moved in this epoch
  int done = 0;
  int nextPlan = 0;
};
O& S() { return shared<O>("callbacks"); }

std::string what(Cb const& c) {
  return std::string(kName[c.kind]) + " callback of node " + std::to_string(c.creator) + " (" + pName[c.pay] + ", target " + std::to_string(c.target) + ")";
}
// How often target `t` has to run per trigger
int want(Cb const& c, int t) {
  switch (c.kind) {
    case kBcast: case kFunctorBcast: case kObjBcast: return t >= 0 and t < nn();
    case kColBcast: return t >= 0 and t < kElms;
    case kMulti: { int n = 0; for (int l : c.listeners) n += l == -1 or l == t; return n; }
    case kAnon: case kAnonCtx: case kAnonOnce: case kCounted: return t == c.creator;
    default: return t == c.target;
  }
}
int total(Cb const& c) {
  int n = 0;
  for (int t = 0; t < std::max(nn(), kElms); t++) n += want(c, t);
  return n;
}
void arrivedVoid(int cbid, int at, char const* by) {
  auto& o = S();
  auto& c = o.cbs.at(cbid);
  vsim_log("cb %d at %d by %s", cbid, at, by);
  if (not want(c, at)) vsim_fail("misdirected", "%s ran at %d", what(c).c_str(), at);
  if (++c.void_got[at] > c.triggers * want(c, at)) vsim_fail("duplicate", "%s ran %d times at %d after %d triggers", what(c).c_str(), c.void_got[at], at, c.triggers);
  o.left--;
  vsim_touch();
}
void arrived(int id, uint64_t key, int at, int kind, int cbid, bool intact, char const* by) {
  auto& o = S();
  if (id < 0 or id >= (int)o.trs.size()) vsim_fail("corrupt", "%s at %d received an unknown trigger %d", by, at, id);
  auto& t = o.trs[id];
  auto& c = o.cbs[t.cb];
  vsim_log("trigger %d of cb %d at %d by %s", id, t.cb, at, by);
  if (t.key != key or not intact) vsim_fail("corrupt", "%s: wrong contents at %d (%s)", what(c).c_str(), at, by);
  if (kind != c.kind) vsim_fail("misdirected", "%s ran the target of a %s callback", what(c).c_str(), kName[kind]);
  if (cbid >= 0 and cbid != t.cb) vsim_fail("misdirected", "%s ran the function of another callback: %s", what(c).c_str(), what(o.cbs[cbid]).c_str());
  if (not want(c, at)) vsim_fail("misdirected", "%s ran at %d", what(c).c_str(), at);
  if (++t.got[at] > want(c, at)) vsim_fail("duplicate", "%s ran %d times at %d for one trigger", what(c).c_str(), t.got[at], at);
  o.left--;
  vsim_probe("target-ran");
  vsim_touch();
}

struct Small : vt::Message { int id = 0; uint64_t key = 0; uint8_t data[24]; };
struct Big : vt::Message { int id = 0; uint64_t key = 0; uint8_t data[3500]; };
struct Ser : vt::Message {
  using MessageParentType = vt::Message;
  vt_msg_serialize_required();
  int id = 0; uint64_t key = 0; std::vector<uint8_t> v;
  template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | id | key | v; }
};
bool ok(Small* m) { return matches(m->data, sizeof m->data, m->key); }
bool ok(Big* m) { return matches(m->data, sizeof m->data, m->key); }
bool ok(Ser* m) { return m->v.size() == m->key % 4096 and matches(m->v.data(), m->v.size(), m->key); }
bool okv(uint64_t key, std::vector<uint8_t> const& v) { return v.size() == key % 3000 and matches(v.data(), v.size(), key); }
void put(Small* m, uint64_t key) { fill(m->data, sizeof m->data, key); }
void put(Big* m, uint64_t key) { fill(m->data, sizeof m->data, key); }
void put(Ser* m, uint64_t key) { m->v.resize(key % 4096); fill(m->v.data(), m->v.size(), key); }

// a multi-target callback has no message type of its own
template <class M> struct MultiCb {
  vt::pipe::callback::cbunion::CallbackRawBaseSingle cb;
  bool operator==(MultiCb const& o) const { return cb == o.cb; }
  bool valid() const { return cb.valid(); }
  template <class S> void serialize(S& s) { s | cb; }
};
using Params = vt::Callback<int, uint64_t, std::vector<uint8_t>>;

template <class M, Kind K> void onMsg(M* m) { arrived(m->id, m->key, me(), K, -1, ok(m), "handler"); }
template <Kind K> void onParam(int id, uint64_t key, std::vector<uint8_t> v) { arrived(id, key, me(), K, -1, okv(key, v), "param handler"); }
template <class M, Kind K> struct Fn { void operator()(M* m) { arrived(m->id, m->key, me(), K, -1, ok(m), "functor"); } };
template <Kind K> struct FnParam { void operator()(int id, uint64_t key, std::vector<uint8_t> v) { arrived(id, key, me(), K, -1, okv(key, v), "param functor"); } };

struct Obj {
  int node = me();
  void chk(int id) { if (node != me()) vsim_fail("misdirected", "trigger %d ran on the instance of node %d", id, node); }
  template <class M, Kind K> void on(M* m) { chk(m->id); arrived(m->id, m->key, node, K, -1, ok(m), "objgroup"); }
  template <Kind K> void onp(int id, uint64_t key, std::vector<uint8_t> v) { chk(id); arrived(id, key, node, K, -1, okv(key, v), "objgroup params"); }
};
struct Elm : vt::Collection<Elm, vt::Index1D> {
  void maybeMove(uint64_t key) {
    // (a broadcast reaches the elements where they are, so none moves while there are any)
    // and an element moves once in an epoch: see DESIGN.md, C12
    if (vsim_param("moves", 0, 1) == 1 and key % 5 == 0 and S().moved.insert(this->getIndex().x()).second) this->migrate((NodeType)((key >> 8) % nn()));
  }
  template <class M, Kind K> void on(M* m) { auto k = m->key; arrived(m->id, k, this->getIndex().x(), K, -1, ok(m), "element"); maybeMove(k); }
  template <Kind K> void onp(int id, uint64_t key, std::vector<uint8_t> v) { arrived(id, key, this->getIndex().x(), K, -1, okv(key, v), "element params"); maybeMove(key); }
};

vt::objgroup::proxy::Proxy<Obj> objs;
vt::CollectionProxy<Elm> elms;
struct Ctx { int cb; };
std::deque<Ctx> ctxs;

// ---- triggering
template <class C> struct PayOf;
template <class M> struct PayOf<vt::Callback<M>> {
  static void fire(vt::Callback<M>& c, int id, uint64_t key, int how) {
    auto m = vt::makeMessage<M>();
    m->id = id; m->key = key; put(m.get(), key);
    if (how & 1) c.sendMsg(m); else c.send(m.get());
  }
};
template <class M> struct PayOf<MultiCb<M>> {
  static void fire(MultiCb<M>& c, int id, uint64_t key, int) {
    auto m = vt::makeMessage<M>();
    m->id = id; m->key = key; put(m.get(), key);
    c.cb.template sendMsg<M>(m.get());
  }
};
template <> struct PayOf<Params> {
  static void fire(Params& c, int id, uint64_t key, int how) {
    std::vector<uint8_t> v(key % 3000);
    fill(v.data(), v.size(), key);
    if (how & 1) c.sendTuple(std::make_tuple(id, key, v)); else c.send(id, key, v);
  }
};
template <> struct PayOf<vt::Callback<>> {
  static void fire(vt::Callback<>& c, int, uint64_t, int) { c.send(); }
};

template <class C> void fire(C& cb, int cbid, Rng& g) {
  auto& o = S();
  auto& c = o.cbs[cbid];
  if (c.max >= 0 and c.triggers >= c.max) return;
  c.triggers++;
  o.left += total(c);
  int id = -1;
  uint64_t key = g.next();
  if (c.pay != pVoid) { id = (int)o.trs.size(); o.trs.push_back(Tr{cbid, key, me(), {}}); }
  vsim_log("fire cb %d trigger %d (%s)", cbid, id, what(c).c_str());
  vsim_probe(kName[c.kind]);
  PayOf<C>::fire(cb, id, key, (int)g.range(0, 1));
}

template <class C> struct Ship : vt::Message { C cb; int id; uint64_t seed; int hops; };
template <class C> void onShip(Ship<C>* m);
template <class C> void shipped(C cb, int id, uint64_t seed, int hops);

template <class C> void handOn(C cb, int id, uint64_t seed, int hops) {
  Rng g(seed);
  auto n = (int)g.range(1, 3);
  for (int i = 0; i < n; i++) fire(cb, id, g);
  if (hops <= 0) return;
  auto to = (NodeType)g.range(0, nn() - 1);
  auto next = g.next();
  if (g.chance(50)) {
    auto m = vt::makeMessage<Ship<C>>();
    m->cb = cb; m->id = id; m->seed = next; m->hops = hops - 1;
    vt::theMsg()->sendMsg<onShip<C>>(to, m);
  } else {
    vt::theMsg()->send<shipped<C>>(vt::Node{to}, cb, id, next, hops - 1);
  }
  if (g.chance(30)) fire(cb, id, g);
}
template <class C> void onShip(Ship<C>* m) { handOn(m->cb, m->id, m->seed, m->hops); }
template <class C> void shipped(C cb, int id, uint64_t seed, int hops) { handOn(cb, id, seed, hops); }

// ---- making
template <class C> void keep(int id, C cb);
struct Held { int id; std::function<void(uint64_t)> go; };
std::deque<Held> held;
template <class C> void keep(int id, C cb) {
  C copy = cb;
  if (not(copy == cb) or not cb.valid()) vsim_fail("identity", "a copy of a %s callback is not equal to it", kName[S().cbs[id].kind]);
  held.push_back(Held{id, [cb, id](uint64_t seed) { handOn(cb, id, seed, (int)(seed % 4)); }});
}

template <class M> void makeMsg(int id, Rng& g) {
  auto& c = S().cbs[id];
  auto* cm = vt::theCB();
  auto token = std::make_shared<int>(id);
  auto to = (NodeType)c.target;
  using CbM = vt::Callback<M>;
  switch (c.kind) {
    case kSend: keep<CbM>(id, cm->makeSend<onMsg<M, kSend>>(to)); break;
    case kFunctor: keep<CbM>(id, cm->makeSend<Fn<M, kFunctor>>(to)); break;
    case kBcast: keep<CbM>(id, cm->makeBcast<onMsg<M, kBcast>>()); break;
    case kFunctorBcast: keep<CbM>(id, cm->makeBcast<Fn<M, kFunctorBcast>>()); break;
    case kAnon: case kAnonOnce:
      if (c.kind == kAnonOnce) { c.max = 1; c.life = token; }
      keep<CbM>(id, cm->makeFunc<M>(c.kind == kAnon ? vt::pipe::LifetimeEnum::Indefinite : vt::pipe::LifetimeEnum::Once,
        [id, token, k = c.kind](M* m) { arrived(m->id, m->key, me(), k, id, ok(m), "function"); }));
      break;
    case kAnonCtx:
      ctxs.push_back(Ctx{id});
      keep<CbM>(id, cm->makeFunc<M, Ctx>(vt::pipe::LifetimeEnum::Indefinite, &ctxs.back(),
        [](M* m, Ctx* x) { arrived(m->id, m->key, me(), kAnonCtx, x->cb, ok(m), "function with context"); }));
      break;
    case kCounted: {
      c.max = (int)g.range(1, 5);
      c.life = token;
      auto pipe = cm->makeCallbackFunc<M>(false, [id, token](M* m) { arrived(m->id, m->key, me(), kCounted, id, ok(m), "counted function"); }, true, c.max, 1);
      keep<CbM>(id, CbM{vt::pipe::callback::cbunion::RawAnonTag, pipe});
      break;
    }
    case kObjSend: keep<CbM>(id, cm->makeSend<&Obj::template on<M, kObjSend>>(objs[to])); break;
    case kObjBcast: keep<CbM>(id, cm->makeBcast<&Obj::template on<M, kObjBcast>>(objs)); break;
    case kColSend: keep<CbM>(id, cm->makeSend<&Elm::template on<M, kColSend>>(elms[c.target])); break;
    case kColBcast: keep<CbM>(id, cm->makeBcast<&Elm::template on<M, kColBcast>>(elms)); break;
    default: vsim_fail("harness", "kind");
  }
}
void makeParam(int id) {
  auto& c = S().cbs[id];
  auto* cm = vt::theCB();
  auto to = (NodeType)c.target;
  switch (c.kind) {
    case kSend: keep<Params>(id, cm->makeSend<onParam<kSend>>(to)); break;
    case kFunctor: keep<Params>(id, cm->makeSend<FnParam<kFunctor>>(to)); break;
    case kBcast: keep<Params>(id, cm->makeBcast<onParam<kBcast>>()); break;
    case kFunctorBcast: keep<Params>(id, cm->makeBcast<FnParam<kFunctorBcast>>()); break;
    case kObjSend: keep<Params>(id, cm->makeSend<&Obj::onp<kObjSend>>(objs[to])); break;
    case kObjBcast: keep<Params>(id, cm->makeBcast<&Obj::onp<kObjBcast>>(objs)); break;
    case kColSend: keep<Params>(id, cm->makeSend<&Elm::onp<kColSend>>(elms[c.target])); break;
    case kColBcast: keep<Params>(id, cm->makeBcast<&Elm::onp<kColBcast>>(elms)); break;
    default: vsim_fail("harness", "kind");
  }
}
void makeVoid(int id) {
  auto& c = S().cbs[id];
  auto token = std::make_shared<int>(id);
  if (c.kind == kAnonOnce) {
    c.max = 1; c.life = token;
    keep<vt::Callback<>>(id, vt::theCB()->makeFunc(vt::pipe::LifetimeEnum::Once, [id, token] { arrivedVoid(id, me(), "function"); }));
  } else if (c.kind == kAnon) {
    keep<vt::Callback<>>(id, vt::theCB()->makeFunc(vt::pipe::LifetimeEnum::Indefinite, [id, token] { arrivedVoid(id, me(), "function"); }));
  } else {
    ctxs.push_back(Ctx{id});
    keep<vt::Callback<>>(id, vt::theCB()->makeFunc<Ctx>(vt::pipe::LifetimeEnum::Indefinite, &ctxs.back(), [](Ctx* x) { arrivedVoid(x->cb, me(), "function with context"); }));
  }
}
template <class M> void makeMulti(int id, Rng& g) {
  auto& c = S().cbs[id];
  MultiCb<M> cb;
  cb.cb = vt::theCB()->makeCallback();
  auto n = (int)g.range(1, 4);
  for (int i = 0; i < n; i++) {
    auto to = (int)g.range(0, nn() - 1);
    switch (g.range(0, 1)) {
      case 0: vt::theCB()->addListener<M, onMsg<M, kMulti>>(cb.cb, (NodeType)to); break;
      case 1: vt::theCB()->addListenerFunctor<Fn<M, kMulti>>(cb.cb, (NodeType)to); break;
    }
    c.listeners.push_back(to);
  }
  keep<MultiCb<M>>(id, cb);
}

void create(Rng& g) {
  auto& o = S();
  int id = (int)o.cbs.size();
  o.cbs.emplace_back();
  auto& c = o.cbs.back();
  c.creator = me();
  c.kind = (int)g.range(0, kKinds - 1);
  if (c.kind == kColBcast and vsim_param("moves", 0, 1) == 1) c.kind = kColSend;
  c.target = c.kind == kColSend ? (int)g.range(0, kElms - 1) : (int)g.range(0, nn() - 1);
  if (c.kind == kMulti) c.pay = (int)g.range(pSmall, pSer);
  else if (c.kind == kAnon or c.kind == kAnonCtx or c.kind == kAnonOnce) { c.pay = (int)g.range(0, kPays - 1); if (c.pay == pParam) c.pay = pVoid; }
  else if (c.kind == kCounted) c.pay = (int)g.range(pSmall, pSer);
  else c.pay = (int)g.range(pSmall, pParam);
  vsim_log("make cb %d: %s", id, what(c).c_str());
  if (c.kind == kMulti) {
    if (c.pay == pSmall) makeMulti<Small>(id, g); else if (c.pay == pBig) makeMulti<Big>(id, g); else makeMulti<Ser>(id, g);
  }
  else if (c.pay == pSmall) makeMsg<Small>(id, g);
  else if (c.pay == pBig) makeMsg<Big>(id, g);
  else if (c.pay == pSer) makeMsg<Ser>(id, g);
  else if (c.pay == pParam) makeParam(id);
  else makeVoid(id);
}

void checkAll(char const* when) {
  auto& o = S();
  for (auto& t : o.trs) {
    auto& c = o.cbs[t.cb];
    for (int at = 0; at < std::max(nn(), kElms); at++)
      if (t.got[at] != want(c, at)) vsim_fail("lost", "%s: trigger from node %d ran %d times at %d, not %d (%s)", what(c).c_str(), t.from, t.got[at], at, want(c, at), when);
  }
  for (auto& c : o.cbs) {
    if (c.pay == pVoid)
      for (int at = 0; at < nn(); at++)
        if (c.void_got[at] != c.triggers * want(c, at)) vsim_fail("lost", "%s: %d triggers, ran %d times at %d (%s)", what(c).c_str(), c.triggers, c.void_got[at], at, when);
    if (c.max >= 0 and c.triggers == c.max and not c.life.expired())
      vsim_fail("not-released", "%s: its function is kept after its last signal (%s)", what(c).c_str(), when);
    if (c.max >= 0 and c.triggers < c.max and c.life.expired())
      vsim_fail("released-early", "%s: its function is gone after %d of %d signals", what(c).c_str(), c.triggers, c.max);
  }
}

void system() {
  init(kNoSplit * 0);
  objs = vt::theObjGroup()->makeCollective<Obj>("callback objgroup");
  elms = vt::makeCollection<Elm>("callback elements").bounds(vt::Index1D(kElms)).bulkInsert().wait();
  auto rounds = (int)vsim_param("rounds", 1, 3);
  vsim_describe([](char* b, uint64_t n) { snprintf(b, n, "%ld target runs outstanding", (long)S().left); });
  for (int r = 0; r < rounds; r++) {
    vt::runInEpochCollective([&] {
      auto ops = (int)vsim_param("callbacks", 1, 5);
      for (int i = 0; i < ops; i++) {
        uint64_t op = (uint64_t)(r * 100 + me() * 10 + i);
        if (not vsim_op_on(op)) continue;
        Rng g("op", op);
        if (r == 0 or g.chance(50) or held.empty()) create(g);
        auto& h = g.chance(70) ? held.back() : held[(std::size_t)g.range(0, (int64_t)held.size() - 1)];
        h.go(g.next());
        if (g.chance(30)) vt::theSched()->runSchedulerOnceImpl();
      }
    });
    wl::meet(("round " + std::to_string(r)).c_str());
    if (S().left != 0) checkAll("the epoch is over");
    checkAll("round");
    wl::meet(("round done " + std::to_string(r)).c_str());
    S().moved.clear();
    wl::meet(("checked " + std::to_string(r)).c_str());
  }
  vt::finalize();
  for (auto& c : S().cbs) if (c.creator == me() and not c.life.expired()) vsim_fail("not-released", "%s: its function outlives the runtime", what(c).c_str());
}

// ---------------------------------------------------------------- the signal holder and identifiers
void component() {
  namespace P = vt::pipe;
  auto n = (int)vsim_param("cases", 50, 400);
  Rng g("component", 0);
  using Sig = P::signal::Signal<Small>;
  using Holder = P::signal::SignalHolder<Sig>;
  struct L { int id, refs; bool persist; P::callback::CallbackBase<Sig>* raw; };
  Holder h;
  std::map<vt::PipeType, std::list<L>> model;
  std::vector<int> ran;
  std::vector<std::weak_ptr<int>> life;
  std::vector<vt::PipeType> pipes;
  int next = 0;
  std::function<void(vt::PipeType)> add = [&](vt::PipeType p) {
    auto tok = std::make_shared<int>(next);
    life.push_back(tok);
    bool persist = g.chance(30);
    int refs = persist ? -1 : (int)g.range(1, 3);
    auto a = std::make_unique<P::callback::AnonListener<Sig>>([&, tok](Small*) { ran.push_back(*tok); }, persist, refs);
    model[p].push_back(L{next++, refs, persist, a.get()});
    h.addListener(p, std::move(a));
  };
  for (int i = 0; i < n; i++) {
    // identifiers: what is put in comes out, whatever else is set
    auto id = (P::PipeIDType)(g.chance(30) ? 0xFFFFFFFFull - g.range(0, 3) : g.next());
    auto node = (NodeType)g.range(0, g.chance(50) ? 7 : 32767);
    bool sb = g.chance(50), pe = g.chance(50);
    auto pid = P::PipeIDBuilder::createPipeID(id, node, sb, pe);
    if (P::PipeIDBuilder::getNode(pid) != node or P::PipeIDBuilder::getPipeID(pid) != id or P::PipeIDBuilder::isSendback(pid) != sb or P::PipeIDBuilder::isPersist(pid) != pe)
      vsim_fail("pipe-id", "identifier made of (%u,%d,%d,%d) reads back (%u,%d,%d,%d)", id, node, sb, pe, P::PipeIDBuilder::getPipeID(pid), P::PipeIDBuilder::getNode(pid),
                P::PipeIDBuilder::isSendback(pid), P::PipeIDBuilder::isPersist(pid));
    auto node2 = (NodeType)g.range(0, 32767);
    auto again = pid;
    P::PipeIDBuilder::setNode(again, node2);
    if (P::PipeIDBuilder::getNode(again) != node2 or P::PipeIDBuilder::getPipeID(again) != id) vsim_fail("pipe-id", "setting node %d over %d gives node %d id %u (was %u)", node2, node, P::PipeIDBuilder::getNode(again), P::PipeIDBuilder::getPipeID(again), id);
    // listeners
    if (pipes.empty() or g.chance(30)) pipes.push_back(pid);
    auto p = pipes[(std::size_t)g.range(0, (int64_t)pipes.size() - 1)];
    auto it = model.find(p);
    bool have = it != model.end();
    if (h.exists(p) != have) vsim_fail("holder", "the holder %s listeners for a pipe with %zu", have ? "has no" : "has", have ? it->second.size() : 0);
    switch (g.range(0, 3)) {
      case 0: case 1: add(p); break;
      case 2:
        if (have) {
          Small m;
          std::vector<int> expect;
          for (auto& l : it->second) expect.push_back(l.id);
          ran.clear();
          h.deliverAll(p, &m);
          if (ran != expect) vsim_fail("holder", "a signal ran %zu of %zu listeners (or in another order)", ran.size(), expect.size());
          for (auto l = it->second.begin(); l != it->second.end();) {
            bool gone = not l->persist and --l->refs == 0;
            if (gone != life[l->id].expired()) vsim_fail("holder", "listener with %d signals left is %s", l->refs, gone ? "kept" : "gone");
            if (gone) l = it->second.erase(l); else ++l;
          }
          if (it->second.empty()) model.erase(it);
          vsim_probe("delivered");
        }
        break;
      default: break;
    }
    if (g.chance(1)) { h.clearAll(); model.clear(); for (auto& w : life) if (not w.expired()) vsim_fail("holder", "a listener survives clearAll"); }
    // the state of a pipe: finished after exactly its signals
    auto sigs = (int)g.range(1, 6);
    P::PipeState st(pid, sigs, 1, true);
    st.listenerReg();
    for (int k = 0; k < sigs; k++) {
      if (st.finished()) vsim_fail("pipe-state", "finished after %d of %d signals", k, sigs);
      st.signalRecv();
    }
    if (not st.finished() or not st.isAutomatic() or st.isPersist() or not st.isTypeless() or st.getPipe() != pid or st.refsPerListener() != sigs) vsim_fail("pipe-state", "not finished after %d signals, or lost its attributes", sigs);
    P::PipeState pst(pid);
    pst.signalRecv(); pst.listenerReg();
    if (pst.finished() or pst.isAutomatic() or not pst.isPersist() or pst.isTypeless() or pst.hasDispatch()) vsim_fail("pipe-state", "a persistent pipe finishes or has wrong attributes");
    vsim_log("%d %lx", i, (long)pid);
    vsim_probe("case");
  }
}

} // namespace

WL_ENTRY {
  if (std::string(mode_c) == "component") { if (me() == 0) component(); }
  else system();
  vsim_done();
}
