// C11, C12: collections. Random collections (dimensions, bounds, mappings, ways
// to insert, construction) are used by all nodes at once: messages of all kinds
// to elements from nodes and elements, broadcasts, reductions, migrations,
// insertion and removal, destruction. Oracle: one record per element, shared by
// the simulated nodes.
#include "wl.h"
#include <functional>
#include <tuple>
using namespace wl;
using vt::NodeType;

namespace {

enum Pay { pPlain, pBig, pSer, pFn, pParam, pPays };
char const* payName[] = {"plain", "big", "serialized", "function", "params"};

struct Rec {                    // an element
  bool expected = false;        // should exist (after the epoch)
  int live = 0;                 // elements that exist, on all nodes
  int flying = 0;               // serialized elements under way
  int where = -1;
  int made = 0;
  uint64_t sum = 0;             // its state
  std::map<int, int> bcasts;    // broadcast -> times received
};
struct Sent { int col, idx; int got = 0; bool bcast = false; };
struct Red { int col; int64_t want = 0; int done = 0; int contrib = 0; bool all = false; int target = 0; };
struct Col {
  int dims = 1, ways = 0, mapper = 0;
  int n[3] = {1, 1, 1};
  bool dynamic = false, rooted = false, migratable = true;
  int maker = 0;
  uint64_t proxy = 0;
  bool destroyed = false;
  int at(int x, int y, int z) const { return (x * n[1] + y) * n[2] + z; }
  int size() const { return n[0] * n[1] * n[2]; }
  std::map<int, Rec> elms;
};
struct State {
  std::deque<Col> cols;
  std::map<uint64_t, int> by_proxy;
  std::vector<Sent> sent;
  std::vector<Red> reds;
  std::set<std::pair<int, int>> moved;   // in this epoch
  int64_t outstanding = 0;
  bool moving = false;                   // elements move in this epoch
  bool churn = false;                    // as often as they like
};
State& S() { static State* s = &shared<State>("coll"); return *s; }

int nlive = 0;                           // element objects of this node

// ---- messages
template <class E> struct Plain : vt::CollectionMessage<E> { int id = 0; uint64_t key = 0; uint8_t d[40]; void load(uint64_t k) { fill(d, sizeof d, k); } };
template <class E> struct Big : vt::CollectionMessage<E> { int id = 0; uint64_t key = 0; uint8_t d[9000]; void load(uint64_t k) { fill(d, sizeof d, k); } };
template <class E> struct Ser : vt::CollectionMessage<E> {
  using MessageParentType = vt::CollectionMessage<E>;
  vt_msg_serialize_required();
  int id = 0; uint64_t key = 0; std::vector<uint8_t> v;
  void load(uint64_t k) { v.resize(k % 5000); fill(v.data(), v.size(), k); }
  template <class Z> void serialize(Z& s) { MessageParentType::serialize(s); s | id | key | v; }
};

template <class I> struct Dim;
template <> struct Dim<vt::Index1D> { static constexpr int n = 1; static vt::Index1D mk(Col const& c, int i) { (void)c; return vt::Index1D(i); } static int lin(Col const&, vt::Index1D const& x) { return x.x(); } static vt::Index1D bounds(Col const& c) { return vt::Index1D(c.n[0]); } };
template <> struct Dim<vt::Index2D> { static constexpr int n = 2; static vt::Index2D mk(Col const& c, int i) { return vt::Index2D(i / c.n[1], i % c.n[1]); } static int lin(Col const& c, vt::Index2D const& x) { return c.at(x.x(), x.y(), 0); } static vt::Index2D bounds(Col const& c) { return vt::Index2D(c.n[0], c.n[1]); } };
template <> struct Dim<vt::Index3D> { static constexpr int n = 3; static vt::Index3D mk(Col const& c, int i) { return vt::Index3D(i / (c.n[1] * c.n[2]), i / c.n[2] % c.n[1], i % c.n[2]); } static int lin(Col const& c, vt::Index3D const& x) { return c.at(x.x(), x.y(), x.z()); } static vt::Index3D bounds(Col const& c) { return vt::Index3D(c.n[0], c.n[1], c.n[2]); } };

std::string name(int col, int idx) { return "element " + std::to_string(idx) + " of collection " + std::to_string(col); }

template <class I> struct Elm;
template <class I> void onward(Elm<I>* e, uint64_t key);

template <class I> void redDone(int64_t v, int id) { (void)v; (void)id; }

template <class I>
struct Elm : vt::Collection<Elm<I>, I> {
  using Base = vt::Collection<Elm<I>, I>;
  uint64_t sum = 0;
  std::vector<uint8_t> state;
  bool known = false;       // counted in the oracle
  int col = -1, idx = -1;

  Elm() { nlive++; }
  explicit Elm(int) { nlive++; }
  struct InMsg : vt::CollectionMessage<Elm<I>> {
    using MessageParentType = vt::CollectionMessage<Elm<I>>;
    vt_msg_serialize_required();
    uint64_t key = 0;
    template <class Z> void serialize(Z& s) { MessageParentType::serialize(s); s | key; }
  };
  explicit Elm(InMsg* m) { nlive++; if (m->key != 77) vsim_fail("contents", "insertion message carries %llu", (unsigned long long)m->key); }
  Elm(Elm&&) = delete;
  virtual ~Elm() {
    nlive--;
    if (known) {
      auto& r = rec();
      r.live--;
      if (r.live < 0) vsim_fail("destroyed-twice", "%s is destroyed more often than made", name(col, idx).c_str());
    }
  }
  Col& c() { return S().cols[(std::size_t)col]; }
  Rec& rec() { return c().elms[idx]; }
  // first time the oracle sees the element
  void meetOracle() {
    if (known) return;
    auto p = (uint64_t)this->getProxy();
    auto it = S().by_proxy.find(p);
    if (it == S().by_proxy.end()) vsim_fail("identity", "an element has the unknown proxy %llx", (unsigned long long)p);
    col = it->second;
    idx = Dim<I>::lin(c(), this->getIndex());
    known = true;
    auto& r = rec();
    r.live++; r.made++; r.where = me();
    if (r.live > 1) vsim_fail("duplicate-element", "%s exists %d times", name(col, idx).c_str(), r.live);
    if (not r.expected) vsim_fail("unexpected-element", "%s was not asked for", name(col, idx).c_str());
  }
  void check(char const* when) {
    meetOracle();
    auto& r = rec();
    if (r.where != me()) vsim_fail("two-places", "%s runs (%s) on node %d while it lives on %d", name(col, idx).c_str(), when, me(), r.where);
    if (r.sum != sum) vsim_fail("state", "%s has lost its state (%s)", name(col, idx).c_str(), when);
    if (state.size() != sum % 700 or not matches(state.data(), state.size(), sum)) vsim_fail("state", "%s has lost its data (%s)", name(col, idx).c_str(), when);
    auto q = vt::theCollection()->template queryIndexContext<I>();
    if (q == nullptr or not(*q == this->getIndex())) vsim_fail("context", "%s runs with another index in its context", name(col, idx).c_str());
    if (vt::theCollection()->template queryProxyContext<I>() != this->getProxy()) vsim_fail("context", "%s runs with another proxy in its context", name(col, idx).c_str());
  }
  void change(uint64_t key) {
    sum = vsim_hash("state", sum ^ key);
    state.resize(sum % 700);
    fill(state.data(), state.size(), sum);
    rec().sum = sum;
  }
  void arrive(int id, uint64_t key, bool ok, char const* how) {
    check(how);
    auto& o = S();
    if (id < 0 or (std::size_t)id >= o.sent.size()) vsim_fail("contents", "%s got message %d", name(col, idx).c_str(), id);
    auto& t = o.sent[(std::size_t)id];
    vsim_log("message %d at %s", id, name(col, idx).c_str());
    if (t.col != col or (not t.bcast and t.idx != idx)) vsim_fail("misdirected", "message %d for %s arrived at %s", id, name(t.col, t.idx).c_str(), name(col, idx).c_str());
    if (not ok) vsim_fail("contents", "message %d (%s) at %s has other contents than sent", id, how, name(col, idx).c_str());
    if (t.bcast) {
      if (++rec().bcasts[id] > 1) vsim_fail("duplicate", "broadcast %d arrived twice at %s", id, name(col, idx).c_str());
    } else if (++t.got > 1) vsim_fail("duplicate", "message %d arrived %d times at %s", id, t.got, name(col, idx).c_str());
    o.outstanding--;
    change(key);
    vsim_touch();
    vsim_probe(how);
    if (S().moving and key % 3 == 0) move((NodeType)((key >> 8) % (uint64_t)nn()));
    if (key % 4 == 1) onward<I>(this, key);
  }
  void move(NodeType to) {
    auto& o = S();
    meetOracle();
    if (not c().migratable) return;
    if (not o.moved.insert({col, idx}).second and not o.churn) return;
    vsim_log("%s moves from %d to %d", name(col, idx).c_str(), me(), to);
    vsim_probe("move");
    this->migrate(to);
  }
  void plain(Plain<Elm>* m) { arrive(m->id, m->key, matches(m->d, sizeof m->d, m->key), "plain"); }
  void big(Big<Elm>* m) { arrive(m->id, m->key, matches(m->d, sizeof m->d, m->key), "big"); }
  void ser(Ser<Elm>* m) { arrive(m->id, m->key, m->v.size() == m->key % 5000 and matches(m->v.data(), m->v.size(), m->key), "serialized"); }
  void param(int id, uint64_t key, std::vector<uint8_t> v) { arrive(id, key, v.size() == key % 2000 and matches(v.data(), v.size(), key), "params"); }
  // a reduction over all elements, started by a broadcast
  int64_t share(int id) { return (int64_t)(vsim_hash("share", (uint64_t)id * 1000 + (uint64_t)idx) % 100000); }
  void contribute(int base, int n) {
    check("contribute");
    for (int k = 0; k < n; k++) contributeOne(base + k);
  }
  void contributeOne(int id) {
    auto& o = S();
    auto& r = o.reds[(std::size_t)id];
    r.contrib++;
    auto p = this->getCollectionProxy();
    auto v = share(id);
    if (r.all) p.template allreduce<&Elm::gotAll, vt::collective::PlusOp>(v, (int64_t)id * 1000000);
    else if (r.target < 0) p.template reduce<Elm::gotNode, vt::collective::PlusOp>((NodeType)(-1 - r.target), v, (int64_t)id * 1000000);
    else p.template reduce<&Elm::gotOne, vt::collective::PlusOp>(p(Dim<I>::mk(c(), r.target)), v, (int64_t)id * 1000000);
  }
  static void result(int64_t v, int64_t tag, int col_, int at) {
    auto& o = S();
    int n = 0;
    for (auto& kv : o.cols[(std::size_t)col_].elms) n += kv.second.expected;
    auto id = tag / 1000000 / n;
    if (tag % 1000000 or tag / 1000000 % n or id < 0 or (std::size_t)id >= o.reds.size()) vsim_fail("reduction", "collection %d: a reduction over %d elements combines the tags to %lld", col_, n, (long long)tag);
    auto& r = o.reds[(std::size_t)id];
    if (v != r.want) vsim_fail("reduction", "reduction %lld over collection %d gives %lld, not %lld", (long long)id, col_, (long long)v, (long long)r.want);
    if (r.contrib != n) vsim_fail("reduction", "reduction %lld over collection %d is complete after %d of %d contributions", (long long)id, col_, r.contrib, n);
    if (at != r.target and not r.all) vsim_fail("reduction", "the result of reduction %lld is at %d, not %d", (long long)id, at, r.target);
    r.done++;
    o.outstanding--;
    vsim_probe("reduced");
    vsim_touch();
  }
  void gotAll(int64_t v, int64_t tag) { check("allreduce"); result(v, tag, col, idx); }
  void gotOne(int64_t v, int64_t tag) { check("reduce"); result(v, tag, col, idx); }
  static void gotNode(int64_t v, int64_t tag) {
    auto id = -1;
    for (std::size_t i = 0; i < S().reds.size(); i++) {
      int n = 0;
      for (auto& kv : S().cols[(std::size_t)S().reds[i].col].elms) n += kv.second.expected;
      if (tag == (int64_t)i * 1000000 * n and S().reds[i].target == -1 - me()) id = (int)i;
    }
    if (id < 0) vsim_fail("reduction", "a result with the tag %lld arrives on node %d", (long long)tag, me());
    result(v, tag, S().reds[(std::size_t)id].col, -1 - me());
  }
  int local(int x) { check("invoke"); return x + idx; }

  template <class Z> void serialize(Z& s) { Base::serialize(s); s | sum | state; }

  void preMigrateOut() override {
    meetOracle();
    auto& r = rec();
    if (r.where != me()) vsim_fail("two-places", "%s leaves node %d while it lives on %d", name(col, idx).c_str(), me(), r.where);
    r.flying++; r.live--; r.where = -2;
    known = false;
  }
  void epiMigrateIn() override {
    auto p = (uint64_t)this->getProxy();
    auto it = S().by_proxy.find(p);
    if (it == S().by_proxy.end()) vsim_fail("identity", "an element with the unknown proxy %llx migrates", (unsigned long long)p);
    col = it->second; idx = Dim<I>::lin(c(), this->getIndex());
    auto& r = rec();
    if (not known) {
      if (r.flying != 1) vsim_fail("two-places", "%s arrives on node %d %d times", name(col, idx).c_str(), me(), 2 - r.flying);
      known = true;
      r.flying--; r.live++; r.where = me();
    }
    if (r.sum != sum) vsim_fail("state", "%s has lost its state on the way", name(col, idx).c_str());
  }
  void preMigrateIn() override { epiMigrateIn(); }
};
template <class I> void fnHandler(Elm<I>* e, Plain<Elm<I>>* m) { e->arrive(m->id, m->key, matches(m->d, sizeof m->d, m->key), "function"); }

int newSent(int col, int idx, bool bcast) {
  auto& o = S();
  o.sent.push_back(Sent{col, idx, 0, bcast});
  return (int)o.sent.size() - 1;
}
std::vector<int> expected(int col) {
  std::vector<int> v;
  for (auto& kv : S().cols[(std::size_t)col].elms) if (kv.second.expected) v.push_back(kv.first);
  return v;
}

template <class M> auto mk(int id, uint64_t key) {
  auto m = vt::makeMessage<M>();
  m->id = id; m->key = key;
  m->load(key);
  return m;
}
template <class I> void sendTo(int col, int idx, uint64_t key, int pay) {
  using E = Elm<I>;
  auto& c = S().cols[(std::size_t)col];
  auto id = newSent(col, idx, false);
  S().outstanding++;
  vt::CollectionProxy<E> p{(vt::VirtualProxyType)c.proxy};
  auto e = p(Dim<I>::mk(c, idx));
  vsim_log("send %d (%s) to %s", id, payName[pay], name(col, idx).c_str());
  switch (pay) {
    case pPlain: e.template sendMsg<&E::plain>(mk<Plain<E>>(id, key)); break;
    case pBig: e.template sendMsg<&E::big>(mk<Big<E>>(id, key)); break;
    case pSer: e.template sendMsg<&E::ser>(mk<Ser<E>>(id, key)); break;
    case pFn: e.template sendMsg<Plain<E>, fnHandler<I>>(mk<Plain<E>>(id, key)); break;
    case pParam: { std::vector<uint8_t> v(key % 2000); fill(v.data(), v.size(), key); e.template send<&E::param>(id, key, v); break; }
  }
}
template <class I> void bcast(int col, uint64_t key, int pay) {
  using E = Elm<I>;
  auto& c = S().cols[(std::size_t)col];
  auto id = newSent(col, -1, true);
  S().outstanding += (int64_t)expected(col).size();
  vt::CollectionProxy<E> p{(vt::VirtualProxyType)c.proxy};
  vsim_log("broadcast %d (%s) to collection %d", id, payName[pay], col);
  vsim_probe("broadcast");
  switch (pay) {
    case pPlain: p.template broadcastMsg<&E::plain>(mk<Plain<E>>(id, key)); break;
    case pBig: p.template broadcastMsg<&E::big>(mk<Big<E>>(id, key)); break;
    case pSer: p.template broadcastMsg<&E::ser>(mk<Ser<E>>(id, key)); break;
    case pFn: p.template broadcastMsg<Plain<E>, fnHandler<I>>(mk<Plain<E>>(id, key)); break;
    case pParam: { std::vector<uint8_t> v(key % 2000); fill(v.data(), v.size(), key); p.template broadcast<&E::param>(id, key, v); break; }
  }
}
// from an element: to another element, seldom to all
template <class I> void onward(Elm<I>* e, uint64_t key) {
  auto to = expected(e->col);
  Rng g(vsim_hash("onward", key));
  if (g.chance(60)) sendTo<I>(e->col, to[(std::size_t)g.range(0, (int64_t)to.size() - 1)], g.next(), (int)g.range(0, pPays - 1));
}

// ---- making collections
template <class I> NodeType cyclicMap(I* idx, I* bounds, NodeType n) {
  int v = 0;
  for (int d = 0; d < Dim<I>::n; d++) { v = v * 7 + (int)(*idx)[d]; (void)bounds; }
  return (NodeType)(v % n);
}
template <class I> NodeType oneMap(I*, I*, NodeType n) { return (NodeType)(n - 1); }
template <class I> struct ObjMap : vt::mapping::BaseMapper<I> {
  static vt::ObjGroupProxyType construct() { return vt::theObjGroup()->makeCollective<ObjMap<I>>("ObjMap").getProxy(); }
  NodeType map(I* idx, int ndim, NodeType n) override {
    int v = 3;
    for (int d = 0; d < ndim; d++) v = v * 5 + (int)idx->get(d);
    return (NodeType)(v % n);
  }
};

template <class I> vt::CollectionProxy<Elm<I>> proxyOf(int col) { return vt::CollectionProxy<Elm<I>>{(vt::VirtualProxyType)S().cols[(std::size_t)col].proxy}; }

// what is asked for is decided alike on every node
template <class I> void make(int col) {
  using E = Elm<I>;
  auto& o = S();
  Rng g("collection", (uint64_t)col);
  Col d;
  d.dims = Dim<I>::n;
  for (int i = 0; i < d.dims; i++) d.n[i] = (int)g.range(1, d.dims == 1 ? 12 : d.dims == 2 ? 5 : 3);
  d.dynamic = g.chance(25);
  d.rooted = not d.dynamic and g.chance(25);
  d.maker = (int)g.range(0, nn() - 1);
  d.ways = d.dynamic ? 4 : d.rooted ? (int)g.range(0, 1) : (int)g.range(0, 3);
  d.mapper = (int)g.range(0, d.rooted ? 2 : 3);
  (void)g.chance(90);
  bool cons = not d.rooted and g.chance(30) and d.ways != 3 and d.ways != 4;
  bool defer = g.chance(40);
  auto total = d.size();
  std::vector<int> want;
  int lo = 0;
  if (d.ways <= 1) for (int i = 0; i < total; i++) want.push_back(i);
  if (d.ways == 2 or d.ways == 3) for (int i = 0; i < total; i++) if (g.chance(60)) want.push_back(i);
  if ((d.ways == 2 or d.ways == 3) and want.empty()) want.push_back(0);
  (void)lo;
  if (o.cols.size() <= (std::size_t)col) {          // the first node to get here
    o.cols.push_back(d);
    for (int i : want) o.cols.back().elms[i].expected = true;
  }
  meet(("make " + std::to_string(col)).c_str());
  if (me() == 0)
    vsim_log("collection %d: %dx%dx%d, way %d, mapper %d%s%s%s", col, d.n[0], d.n[1], d.n[2], d.ways, d.mapper, d.dynamic ? ", dynamic" : "", d.rooted ? ", rooted" : "", cons ? ", constructor" : "");
  if (d.rooted and me() != d.maker) {
    pumpUntil([&] { return S().cols[(std::size_t)col].proxy != 0; });
    return;
  }
  // the proxy must be known before elements are seen
  auto build = [&](auto&& p) {
    if (d.ways == 0) p.bounds(Dim<I>::bounds(d)).bulkInsert();
    if (d.ways == 1) p.bulkInsert(Dim<I>::bounds(d));
    if (d.ways == 2 or d.ways == 3 or d.ways == 4) p.bounds(Dim<I>::bounds(d));
    if (d.ways == 4) p.dynamicMembership(true);
    if (d.mapper == 1) p.template mapperFunc<cyclicMap<I>>();
    if (d.mapper == 2) p.template mapperFunc<oneMap<I>>();
    if (d.mapper == 3) p.template mapperObjGroupConstruct<ObjMap<I>>();
    static std::deque<std::vector<I>> lists;
    if (d.ways == 2) {
      lists.emplace_back();
      for (int i : want) lists.back().push_back(Dim<I>::mk(d, i));
      p.listInsert(lists.back());
    }
    if (d.ways == 3) {
      std::vector<std::tuple<I, std::unique_ptr<E>>> elms;
      for (int i : want) if ((int)(vsim_hash("here", (uint64_t)i) % (uint64_t)nn()) == me()) elms.emplace_back(Dim<I>::mk(d, i), std::make_unique<E>());
      p.listInsertHere(std::move(elms));
    }
    if (cons) p.elementConstructor([](I) { return std::make_unique<E>(3); });
    if (defer) {
      bool ready = false;
      uint64_t got = 0;
      auto ep = p.deferWithEpoch([&](vt::CollectionProxy<E> x) { ready = true; got = (uint64_t)x.getProxy(); });
      vt::runSchedulerThrough(ep);
      pumpUntil([&] { return ready; });
      return got;
    }
    return (uint64_t)p.wait().getProxy();
  };
  uint64_t bits;
  if (d.rooted) bits = build(vt::makeCollectionRooted<E>("rooted"));
  else bits = build(vt::makeCollection<E>("collective"));
  auto& c = o.cols[(std::size_t)col];
  if (c.proxy and c.proxy != bits) vsim_fail("identity", "collection %d has the proxies %llx and %llx", col, (unsigned long long)c.proxy, (unsigned long long)bits);
  if (not c.proxy) {
    if (o.by_proxy.count(bits)) vsim_fail("identity", "collection %d has the proxy of collection %d", col, o.by_proxy[bits]);
    c.proxy = bits;
    o.by_proxy[bits] = col;
  }
}

// when nothing is under way: every element in one place, on the node that knows it
template <class I> void settle(int col, char const* when) {
  auto& c = S().cols[(std::size_t)col];
  auto p = proxyOf<I>(col);
  meet((std::string("settle ") + when + std::to_string(col)).c_str());
  if (not c.destroyed) {
    for (int i = 0; i < c.size(); i++) {
      auto x = Dim<I>::mk(c, i);
      auto e = vt::theCollection()->tryGetLocalPtr<Elm<I>, I>(p, x);
      auto& r = c.elms[i];
      if (e) {
        if (not r.expected) vsim_fail("unexpected-element", "%s exists on node %d (%s)", name(col, i).c_str(), me(), when);
        e->meetOracle();
        if (r.where != me()) vsim_fail("two-places", "%s is on node %d and on node %d (%s)", name(col, i).c_str(), me(), r.where, when);
        if (e->sum != r.sum) vsim_fail("state", "%s has lost its state (%s)", name(col, i).c_str(), when);
        int y = p(x).template invoke<&Elm<I>::local>(5);
        if (y != i + 5) vsim_fail("invoke", "a direct call on %s returns %d", name(col, i).c_str(), y);
      } else if (r.expected and r.where == me()) vsim_fail("lost-element", "%s is not on node %d where it was (%s)", name(col, i).c_str(), me(), when);
    }
  }
  meet((std::string("settled ") + when + std::to_string(col)).c_str());
  int n = 0;
  for (auto& kv : c.elms) {
    auto& r = kv.second;
    if (r.flying) vsim_fail("lost-element", "%s left and never arrived (%s)", name(col, kv.first).c_str(), when);
    if (r.live != (r.expected ? 1 : 0)) vsim_fail(r.live ? "unexpected-element" : "lost-element", "%s exists %d times (%s)", name(col, kv.first).c_str(), r.live, when);
    if (r.live and r.where == me()) n++;
  }
  meet((std::string("counted ") + when + std::to_string(col)).c_str());
}
void objects(char const* when) {
  int n = 0;
  for (auto& c : S().cols) for (auto& kv : c.elms) if (kv.second.live and kv.second.where == me()) n++;
  if (n != nlive) vsim_fail("objects", "node %d holds %d element objects for %d elements (%s)", me(), nlive, n, when);
}
// a fresh element is where its mapping says, and all nodes agree on that
template <class I> void mapped(int col) {
  auto& c = S().cols[(std::size_t)col];
  auto p = proxyOf<I>(col);
  auto& first = shared<std::map<int, int>>(("map of " + std::to_string(col)).c_str());
  for (int i : expected(col)) {
    auto x = Dim<I>::mk(c, i);
    auto at = (int)vt::theCollection()->getMappedNode<Elm<I>>(p, x);
    auto it = first.emplace(i, at).first;
    if (it->second != at) vsim_fail("mapping", "%s maps to node %d on node %d and to %d elsewhere", name(col, i).c_str(), at, me(), it->second);
    auto b = Dim<I>::bounds(c);
    int want = c.mapper == 1 ? cyclicMap<I>(&x, &b, (NodeType)nn()) : c.mapper == 2 ? nn() - 1 : -1;
    if (c.mapper == 3) { ObjMap<I> m; want = m.map(&x, Dim<I>::n, (NodeType)nn()); }
    if (want >= 0 and want != at) vsim_fail("mapping", "%s maps to node %d, its map says %d", name(col, i).c_str(), at, want);
    if (at < 0 or at >= nn()) vsim_fail("mapping", "%s maps to node %d of %d", name(col, i).c_str(), at, nn());
    if (c.ways == 3) at = (int)(vsim_hash("here", (uint64_t)i) % (uint64_t)nn());
    bool here = vt::theCollection()->tryGetLocalPtr<Elm<I>, I>(p, x) != nullptr;
    if (here != (at == me())) vsim_fail("placement", "%s %s node %d, it should be on %d", name(col, i).c_str(), here ? "is on" : "is not on", me(), at);
  }
}

template <class I> void modify(int col, uint64_t round) {
  auto& o = S();
  auto& c = o.cols[(std::size_t)col];
  auto p = proxyOf<I>(col);
  Rng g(vsim_hash("modify", round * 100 + (uint64_t)col));
  // decided alike everywhere: element -> (inserting nodes, node, message) or removal
  struct M { int idx; uint64_t by; int at; bool msg, del; };
  std::vector<M> plan;
  for (int i = 0; i < c.size(); i++) {
    bool has = c.elms[i].expected, fresh = c.elms[i].made == 0;
    uint64_t by = 1ull << g.range(0, nn() - 1);
    int at = g.chance(40) ? (int)g.range(0, nn() - 1) : -1;
    bool msg = g.chance(30), take = g.chance(50), race = g.chance(25);
    auto second = 1ull << g.range(0, nn() - 1);
    bool del = has and g.chance(20);
    if (race and not del) by |= second;            // (removing an element twice is an error)
    if (not has and fresh and take) plan.push_back(M{i, by, at, msg, false});
    if (del) plan.push_back(M{i, by, -1, false, true});
  }
  meet(("plan " + std::to_string(round) + " " + std::to_string(col)).c_str());
  for (auto& m : plan) c.elms[m.idx].expected = true;      // (also those that are about to go)
  auto token = p.beginModification();
  for (auto& m : plan) {
    if (not((m.by >> me()) & 1)) continue;
    auto e = p(Dim<I>::mk(c, m.idx));
    vsim_log("%s %s at %d", m.del ? "remove" : "insert", name(col, m.idx).c_str(), m.at);
    vsim_probe(m.del ? "remove" : "insert");
    if (m.del) { e.destroy(token); }
    else if (m.msg) {
      auto im = vt::makeMessage<typename Elm<I>::InMsg>();
      im->key = 77;
      if (m.at >= 0) e.template insertAtMsg<typename Elm<I>::InMsg>(token, (NodeType)m.at, im); else e.template insertMsg<typename Elm<I>::InMsg>(token, im);
    } else if (m.at >= 0) e.insertAt(token, (NodeType)m.at);
    else e.insert(token);
    if (g.chance(20)) vt::theSched()->runSchedulerOnceImpl();
  }
  p.finishModification(std::move(token));
  meet(("modified " + std::to_string(round) + " " + std::to_string(col)).c_str());
  for (auto& m : plan) if (m.del) c.elms[m.idx].expected = false;
  meet(("modified2 " + std::to_string(round) + " " + std::to_string(col)).c_str());
  for (auto& m : plan) if (not m.del) {
    auto at = m.at >= 0 ? m.at : (int)vt::theCollection()->getMappedNode<Elm<I>>(p, Dim<I>::mk(c, m.idx));
    bool here = vt::theCollection()->tryGetLocalPtr<Elm<I>, I>(p, Dim<I>::mk(c, m.idx)) != nullptr;
    if (here != (at == me())) vsim_fail("placement", "%s %s node %d after its insertion at %d", name(col, m.idx).c_str(), here ? "is on" : "is not on", me(), at);
  }
}

template <class F> void byDims(int d, F f) {
  if (d == 1) f(vt::Index1D{}); else if (d == 2) f(vt::Index2D{}); else f(vt::Index3D{});
}

void checkSent(char const* when) {
  auto& o = S();
  for (std::size_t i = 0; i < o.sent.size(); i++) {
    auto& t = o.sent[i];
    if (o.cols[(std::size_t)t.col].destroyed) continue;
    if (t.bcast) {
      for (auto& kv : o.cols[(std::size_t)t.col].elms)
        if (kv.second.expected and t.got == 0 and kv.second.bcasts[(int)i] != 1) vsim_fail("lost", "broadcast %zu did not reach %s (%s)", i, name(t.col, kv.first).c_str(), when);
    } else if (t.got != 1) vsim_fail("lost", "message %zu did not reach %s (%s)", i, name(t.col, t.idx).c_str(), when);
  }
  for (std::size_t i = 0; i < o.reds.size(); i++) {
    auto& r = o.reds[i];
    int n = 0;
    for (auto& kv : o.cols[(std::size_t)r.col].elms) n += kv.second.expected;
    if (r.done != -1 and r.done != (r.all ? n : 1)) vsim_fail("lost", "reduction %zu over collection %d: %d results, %d contributions (%s)", i, r.col, r.done, r.contrib, when);
  }
}

void system(bool migrate) {
  init();
  auto& o = S();
  auto ncols = (int)vsim_param("collections", 1, 3);
  auto rounds = (int)vsim_param("rounds", 1, 4);
  vsim_describe([](char* b, uint64_t n) { snprintf(b, n, "%ld handlers outstanding", (long)S().outstanding); });
  std::vector<int> dims;
  for (int c = 0; c < ncols; c++) {
    Rng g("dims", (uint64_t)c);
    dims.push_back((int)g.range(1, 3));
    byDims(dims[(std::size_t)c], [&](auto i) { using I = decltype(i); make<I>(c); });
    meet(("made " + std::to_string(c)).c_str());
    byDims(dims[(std::size_t)c], [&](auto i) { using I = decltype(i); settle<I>(c, "construction"); mapped<I>(c); });
    if (o.cols[(std::size_t)c].dynamic) byDims(dims[(std::size_t)c], [&](auto i) { using I = decltype(i); modify<I>(c, 1000); settle<I>(c, "first insertion"); });
  }
  objects("construction");
  for (int r = 0; r < rounds; r++) {
    auto R = std::to_string(r);
    Rng plan("round", (uint64_t)r);
    // decided alike everywhere
    bool moving = migrate ? plan.chance(85) : false;
    bool moves_only = not migrate and plan.chance(35);
    bool churn = vsim_param("churn", 0, 0) != 0;
    std::vector<int> alive;
    for (int c = 0; c < ncols; c++) if (not o.cols[(std::size_t)c].destroyed and not expected(c).empty()) alive.push_back(c);
    o.moving = moving; o.churn = churn;
    meet(("go " + R).c_str());
    vt::runInEpochCollective([&] {
      auto ops = (int)vsim_param("ops", 1, 6);
      for (int i = 0; i < ops; i++) {
        uint64_t op = (uint64_t)(r * 100 + me() * 10 + i);
        if (not vsim_op_on(op) or alive.empty()) continue;
        Rng g("op", op);
        auto c = alive[(std::size_t)g.range(0, (int64_t)alive.size() - 1)];
        auto el = expected(c);
        auto x = el[(std::size_t)g.range(0, (int64_t)el.size() - 1)];
        auto kind = g.range(0, 9);
        auto key = g.next();
        auto pay = (int)g.range(0, pPays - 1);
        byDims(dims[(std::size_t)c], [&](auto d) {
          using I = decltype(d);
          auto p = proxyOf<I>(c);
          if (moves_only or (moving and kind < 4)) {
            for (int y : el) {
              auto e = vt::theCollection()->tryGetLocalPtr<Elm<I>, I>(p, Dim<I>::mk(o.cols[(std::size_t)c], y));
              if (e and (y + i) % 2 == 0) { e->move((NodeType)(key % (uint64_t)nn())); break; }
            }
          }
          if (not moves_only) {
            if (moving or kind < 6) sendTo<I>(c, x, key, pay);
            else if (kind < 8 or r % 2) bcast<I>(c, key, pay);
          }
        });
        // what a node knows of elements whose home is elsewhere may be forgotten at any time
        if (g.chance(20)) {
          auto y = alive[(std::size_t)g.range(0, (int64_t)alive.size() - 1)];
          byDims(dims[(std::size_t)y], [&](auto d) { vt::theLocMan()->getCollectionLM<decltype(d)>(o.cols[(std::size_t)y].proxy)->clearCache(); });
          vsim_probe("location cache dropped");
        }
        if (g.chance(30)) vt::theSched()->runSchedulerOnceImpl();
      }
    });
    meet(("over " + R).c_str());
    if (o.outstanding != 0) checkSent("the epoch is over");
    checkSent("round");
    meet(("checked " + R).c_str());
    o.moved.clear();
    for (auto& t : o.sent) t.got = 1;
    for (auto& x : o.reds) x.done = -1;
    meet(("cleared " + R).c_str());
    for (int c = 0; c < ncols; c++) byDims(dims[(std::size_t)c], [&](auto d) { using I = decltype(d); settle<I>(c, ("round " + R).c_str()); });
    objects("round");
    // what the load balancing manager does after migrations: the groups of nodes
    // that broadcasts and reductions use follow the elements
    if (moving or moves_only) vt::theCollection()->getTypelessHolder().invokeAllGroupConstructors();
    meet(("groups " + R).c_str());
    if (not migrate) {
      // reductions: one epoch, any number at once
      for (int c : alive) {
        Rng g("reduce", (uint64_t)(r * 10 + c));
        if (not g.chance(60)) continue;
        auto n = (int)g.range(1, 3);
        auto el = expected(c);
        auto base = (int)o.reds.size();
        meet(("red base " + R + std::to_string(c)).c_str());
        if ((int)o.reds.size() == base) {}
        if (me() == 0) {
          for (int k = 0; k < n; k++) {
            Red x;
            x.col = c;
            auto t = g.range(0, 2);
            x.all = t == 0;
            if (t == 1) x.target = el[(std::size_t)g.range(0, (int64_t)el.size() - 1)];
            if (t == 2) x.target = -1 - (int)g.range(0, nn() - 1);
            for (int e : el) x.want += (int64_t)(vsim_hash("share", (uint64_t)(base + k) * 1000 + (uint64_t)e) % 100000);
            o.outstanding += x.all ? (int64_t)el.size() : 1;
            o.reds.push_back(x);
          }
        }
        meet(("red plan " + R + std::to_string(c)).c_str());
        vt::runInEpochCollective([&] {
          byDims(dims[(std::size_t)c], [&](auto d) {
            using I = decltype(d);
            if (vsim_hash("red-bcast", (uint64_t)base) % 2) { if (me() == 0) proxyOf<I>(c).template broadcast<&Elm<I>::contribute>(base, n); }
            else proxyOf<I>(c).template broadcastCollective<&Elm<I>::contribute>(base, n);
          });
        });
        meet(("red done " + R + std::to_string(c)).c_str());
        checkSent("reduction");
        meet(("red checked " + R + std::to_string(c)).c_str());
        for (auto& x : o.reds) x.done = -1;
        meet(("red cleared " + R + std::to_string(c)).c_str());
      }
      for (int c = 0; c < ncols; c++) {
        Rng g("after", (uint64_t)(r * 10 + c));
        auto& C = o.cols[(std::size_t)c];
        if (C.destroyed) continue;
        if (C.dynamic and g.chance(60)) byDims(dims[(std::size_t)c], [&](auto d) { using I = decltype(d); modify<I>(c, (uint64_t)r); settle<I>(c, ("modification " + R).c_str()); });
        else if (g.chance(15)) {
          meet(("destroy " + R + std::to_string(c)).c_str());
          for (auto& kv : C.elms) kv.second.expected = false;
          C.destroyed = true;
          vsim_probe("destroy");
          auto by = (int)g.range(0, nn() - 1);
          vt::runInEpochCollective([&] { if (me() == by) byDims(dims[(std::size_t)c], [&](auto d) { using I = decltype(d); proxyOf<I>(c).destroy(); }); });
          byDims(dims[(std::size_t)c], [&](auto d) { using I = decltype(d); settle<I>(c, ("destruction " + R).c_str()); });
        }
      }
      objects("changes");
    }
  }
  vt::finalize();
}

} // namespace

WL_ENTRY {
  system(std::string(mode_c) == "migrate");
  vsim_done();
}
