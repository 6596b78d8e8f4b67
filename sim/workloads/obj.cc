// C10: object groups.  Nodes create the same groups in the same order, but at
// their own time; proxies are known (through the simulator's shared memory)
// as soon as the first node has one, and messages go out from then on.
#include "wl.h"
#include <algorithm>
#include <functional>
#include <memory>
using namespace wl;
using vt::NodeType;

namespace {

enum Kind { kArgs, kMsg, kPar, kBig, kBcastPar, kBcastMsg, kMultiPar, kMultiMsg, kInvokePar, kInvokeMsg, kBase, kBaseBcast, kKinds };
char const* kindName[] = {"message", "serialized message", "parameters", "byte-wise message", "broadcast of parameters", "broadcast of a message",
  "multicast of parameters", "multicast of a message", "invocation", "invocation with a message", "send through the base class", "broadcast through the base class"};
enum { maxGroups = 6 };

struct Sent { int grp, kind, from, to; uint64_t key; std::size_t size; std::vector<int> want, got; int held; };
struct Grp { uint64_t proxy; bool known; std::vector<int> made, destroyed, built, gone; };
struct State {
  std::vector<Sent> sent;
  Grp grp[maxGroups];
  int64_t outstanding = 0; int budget = 0;
};
State& S() { static State* s = &shared<State>("obj"); return *s; }

std::string name(int i) {
  auto& t = S().sent[(std::size_t)i];
  return std::string(kindName[t.kind]) + " " + std::to_string(i) + " from " + std::to_string(t.from) + " to " + (t.to < 0 ? "several" : std::to_string(t.to)) + " of group " + std::to_string(t.grp);
}
void act(uint64_t key);

int g_depth = 0;
void got(int grp, int id, int kind, uint64_t key, uint8_t const* p, std::size_t n) {
  auto& o = S();
  if (id < 0 or (std::size_t)id >= o.sent.size()) vsim_fail("value", "group %d receives something unknown (%d)", grp, id);
  auto& t = o.sent[(std::size_t)id];
  auto m = (std::size_t)me();
  vsim_log("%s arrives", name(id).c_str());
  if (t.grp != grp) vsim_fail("group", "%s is delivered to group %d", name(id).c_str(), grp);
  if (not t.want[m]) vsim_fail("node", "%s is delivered at %d", name(id).c_str(), me());
  if (t.held) vsim_fail("held", "%s is delivered before it was released", name(id).c_str());
  if (t.kind != kind) vsim_fail("handler", "%s runs the handler of %s", name(id).c_str(), kindName[kind]);
  if (++t.got[m] > 1) vsim_fail("twice", "%s is delivered %d times at %d", name(id).c_str(), t.got[m], me());
  if (t.key != key or t.size != n or not matches(p, n, key)) vsim_fail("value", "%s has other contents", name(id).c_str());
  if ((kind <= kBig or kind == kBase) and vt::theContext()->getFromNodeCurrentTask() != t.from) vsim_fail("from", "%s appears to be from %d", name(id).c_str(), (int)vt::theContext()->getFromNodeCurrentTask());
  o.outstanding--;
  vsim_probe(kindName[kind]);
  vsim_touch();
  if (g_depth < 3) { g_depth++; act(vsim_hash("act", (uint64_t)(id * 64 + me()))); g_depth--; }
}

using Bytes = std::vector<uint8_t>;
struct Args : vt::Message {
  int id; uint64_t key; uint8_t d[24]; std::size_t n;
  Args(int i, uint64_t k, std::size_t sz) : id(i), key(k), n(sz) { fill(d, n, k); }
};
template <int K> struct Ser : vt::Message {
  using MessageParentType = vt::Message;
  vt_msg_serialize_required();
  int id = -1; uint64_t key = 0; Bytes d;
  Ser() = default;
  Ser(int i, uint64_t k, std::size_t n) : id(i), key(k), d(n) { fill(d.data(), n, k); }
  template <class Z> void serialize(Z& z) { MessageParentType::serialize(z); z | id | key | d; }
};
struct Big : vt::Message { int id; uint64_t key; std::size_t n; uint8_t d[3000]; };

struct Common {
  int grp = -1; uint64_t canary = 0;
  std::string extra = "a string long enough to live on the heap";
  void check(char const* what);
  void hBase(int id, uint64_t key, Bytes d) { check("base handler"); got(grp, id, kBase, key, d.data(), d.size()); }
  void hBaseB(int id, uint64_t key, Bytes d) { check("base handler"); got(grp, id, kBaseBcast, key, d.data(), d.size()); }
};
template <int T> struct Obj : Common {
  int pad[T * 5 + 1] = {};
  explicit Obj(int g) {
    grp = g; canary = 0xC0FFEE00u + (uint64_t)g * 131 + (uint64_t)me();
    S().grp[g].built[(std::size_t)me()]++;
  }
  Obj(Obj const&) = delete;
  ~Obj() {
    check("destructor");
    auto& r = S().grp[grp];
    r.gone[(std::size_t)me()]++;
    canary = 0xDEADDEAD;
  }
  void hArgs(Args* m) { check("handler"); got(grp, m->id, kArgs, m->key, m->d, m->n); }
  void hMsg(Ser<kMsg>* m) { check("handler"); got(grp, m->id, kMsg, m->key, m->d.data(), m->d.size()); }
  void hPar(int id, uint64_t key, Bytes d) { check("handler"); got(grp, id, kPar, key, d.data(), d.size()); }
  void hBig(Big* m) { check("handler"); got(grp, m->id, kBig, m->key, m->d, m->n); }
  void hBcast(int id, uint64_t key, Bytes d) { check("handler"); got(grp, id, kBcastPar, key, d.data(), d.size()); }
  void hBcastMsg(Ser<kBcastMsg>* m) { check("handler"); got(grp, m->id, kBcastMsg, m->key, m->d.data(), m->d.size()); }
  void hMulti(int id, uint64_t key, Bytes d) { check("handler"); got(grp, id, kMultiPar, key, d.data(), d.size()); }
  void hMultiMsg(Ser<kMultiMsg>* m) { check("handler"); got(grp, m->id, kMultiMsg, m->key, m->d.data(), m->d.size()); }
  int hInvoke(int id, uint64_t key, std::unique_ptr<Bytes> d) { check("handler"); got(grp, id, kInvokePar, key, d->data(), d->size()); return id * 2 + grp; }
  void hInvokeMsg(Ser<kInvokeMsg>* m) { check("handler"); got(grp, m->id, kInvokeMsg, m->key, m->d.data(), m->d.size()); }
};
using A = Obj<0>;
using B = Obj<3>;
template <class O> vt::objgroup::proxy::Proxy<O> prox(int g) { return vt::objgroup::proxy::Proxy<O>{(vt::ObjGroupProxyType)S().grp[g].proxy}; }
bool isA(int g) { return g % 2 == 0; }

void Common::check(char const* what) {
  if (grp < 0 or grp >= maxGroups or canary != 0xC0FFEE00u + (uint64_t)grp * 131 + (uint64_t)me()) vsim_fail("instance", "a %s runs on an object that is not (or no longer) one of node %d's instances", what, me());
  if (strcmp(what, "destructor") == 0) return;
  Common* cur = isA(grp) ? static_cast<Common*>(prox<A>(grp).get()) : static_cast<Common*>(prox<B>(grp).get());
  if (cur != this) vsim_fail("instance", "a %s runs on another object than the group's instance at %d", what, me());
}

template <class O> bool doSend(int id, std::unique_ptr<vt::messaging::PendingSend>& out) {
  using PS = vt::messaging::PendingSend;
  auto& t = S().sent[(std::size_t)id];
  auto p = prox<O>(t.grp);
  auto to = (NodeType)(t.to < 0 ? me() : t.to);
  auto key = t.key; auto n = t.size;
  Bytes d(n); fill(d.data(), n, key);
  auto put = [&](PS&& x) { out = std::make_unique<PS>(std::move(x)); };
  auto region = [&]() -> std::unique_ptr<vt::group::region::Region> {
    // the same members, given as a range where possible
    int lo = nn(), hi = -1, cnt = 0;
    std::vector<NodeType> v;
    for (int i = 0; i < nn(); i++) if (t.want[(std::size_t)i]) { lo = std::min(lo, i); hi = i; cnt++; v.push_back((NodeType)i); }
    if (hi - lo + 1 == cnt and (key & 1)) return std::make_unique<vt::group::region::Range>((NodeType)lo, (NodeType)(hi + 1));
    if (key & 2) std::reverse(v.begin(), v.end());
    return std::make_unique<vt::group::region::List>(v);
  };
  switch (t.kind) {
    case kArgs: put(p[to].template send<&O::hArgs>(id, key, n)); break;
    case kMsg: { auto m = vt::makeMessage<Ser<kMsg>>(id, key, n); put(p[to].template sendMsg<&O::hMsg>(m)); break; }
    case kPar: put(p(to).template send<&O::hPar>(id, key, d)); break;
    case kBig: { auto m = vt::makeMessage<Big>(); m->id = id; m->key = key; m->n = n; fill(m->d, n, key); put(p[to].template sendMsg<&O::hBig>(m)); break; }
    case kBcastPar: put(p.template broadcast<&O::hBcast>(id, key, d)); break;
    case kBcastMsg: { auto m = vt::makeMessage<Ser<kBcastMsg>>(id, key, n); put(p.template broadcastMsg<&O::hBcastMsg>(m)); break; }
    case kMultiPar: put(p.template multicast<&O::hMulti>(region(), id, key, d)); break;
    case kMultiMsg: put(p.template multicast<&O::hMultiMsg>(region(), id, key, n)); break;
    case kBase: put(p.template castToBase<Common>()[to].template send<&Common::hBase>(id, key, d)); break;
    case kBaseBcast: put(p.template castToBase<Common>().template broadcast<&Common::hBaseB>(id, key, d)); break;
    case kInvokePar: {
      auto u = std::make_unique<Bytes>(d);
      int r = p[to].template invoke<&O::hInvoke>(id, key, std::move(u));
      if (r != id * 2 + S().sent[(std::size_t)id].grp) vsim_fail("value", "%s returns %d", name(id).c_str(), r);
      if (not S().sent[(std::size_t)id].got[(std::size_t)me()]) vsim_fail("lost", "%s returned without running", name(id).c_str());
      return false;
    }
    case kInvokeMsg: {
      p[to].template invoke<Ser<kInvokeMsg>, &O::hInvokeMsg>(id, key, n);
      if (not S().sent[(std::size_t)id].got[(std::size_t)me()]) vsim_fail("lost", "%s returned without running", name(id).c_str());
      return false;
    }
  }
  return true;
}

struct Held { std::unique_ptr<vt::messaging::PendingSend> p; int id; };
std::vector<Held>& held() { static std::vector<Held> h; return h; }

void post(Rng& g, bool hold) {
  auto& o = S();
  std::vector<int> c;
  for (int i = 0; i < maxGroups; i++) if (o.grp[i].known) {
    bool dead = false;
    for (auto x : o.grp[i].destroyed) dead = dead or x;
    if (not dead) c.push_back(i);
  }
  if (c.empty()) return;
  Sent t;
  t.grp = c[(std::size_t)g.range(0, (int64_t)c.size() - 1)];
  t.kind = (int)g.range(0, kKinds - 1);
  t.from = me();
  t.key = g.next() >> 1;
  t.want.assign((std::size_t)nn(), 0); t.got = t.want;
  t.held = 0;
  bool mine = o.grp[t.grp].made[(std::size_t)me()] > 0;
  if (t.kind == kInvokePar or t.kind == kInvokeMsg) {
    if (not mine) return;                     // can only be invoked where it exists
    t.to = me(); t.want[(std::size_t)me()] = 1; hold = false;
  } else if (t.kind == kBcastPar or t.kind == kBcastMsg or t.kind == kBaseBcast) {
    t.to = -1; t.want.assign((std::size_t)nn(), 1);
  } else if (t.kind == kMultiPar or t.kind == kMultiMsg) {
    t.to = -1;
    if (g.chance(40)) {
      auto lo = g.range(0, nn() - 1), hi = g.range(lo, nn() - 1);
      for (auto i = lo; i <= hi; i++) t.want[(std::size_t)i] = 1;
    } else {
      do for (auto& x : t.want) x = g.chance(50); while (std::count(t.want.begin(), t.want.end(), 1) == 0);
    }
    if (g.chance(60)) {
      // again a set that was used before: its group is reused
      for (auto& s : o.sent) if (s.from == me() and (s.kind == kMultiPar or s.kind == kMultiMsg)) { t.want = s.want; vsim_probe("multicast to a set used before"); break; }
    }
    hold = false;
  } else {
    t.to = (int)g.range(0, nn() - 1); t.want[(std::size_t)t.to] = 1;
  }
  t.size = t.kind == kArgs ? (std::size_t)g.range(0, 24) : (std::size_t)(g.chance(15) ? g.range(1000, 3000) : g.range(0, 60));
  for (int i = 0; i < nn(); i++) if (t.want[(std::size_t)i] and not o.grp[t.grp].made[(std::size_t)i]) { vsim_probe("sent before the receiver made its instance"); break; }
  if (not mine) vsim_probe("sent by a node without an instance");
  hold = hold and g.chance(25);
  t.held = hold;
  auto id = (int)o.sent.size();
  for (auto x : t.want) o.outstanding += x;
  o.sent.push_back(t);
  vsim_log("send %s%s", name(id).c_str(), hold ? ", held" : "");
  std::unique_ptr<vt::messaging::PendingSend> p;
  bool any = isA(t.grp) ? doSend<A>(id, p) : doSend<B>(id, p);
  if (any) { if (hold) held().push_back({std::move(p), id}); else p.reset(); }
}
void act(uint64_t key) {
  auto& o = S();
  Rng g(key);
  auto n = g.range(0, 5);
  if (n > 2) n = 0;
  for (int i = 0; i < n and o.budget > 0; i++) { o.budget--; post(g, false); }
}

std::map<int, std::shared_ptr<void>>& raw() { static std::map<int, std::shared_ptr<void>> v; return v; }
template <class O> void makeAs(int g) {
  auto& o = S();
  Rng how("made", (uint64_t)(g * 16 + me()));    // each node may make it in its own way
  vt::objgroup::proxy::Proxy<O> p;
  auto label = "group " + std::to_string(g);
  switch (how.range(0, 2)) {
    case 0: p = vt::theObjGroup()->makeCollective<O>(label, g); break;
    case 1: p = vt::theObjGroup()->makeCollective<O>(std::make_unique<O>(g), label); break;
    case 2: { auto s = std::make_shared<O>(g); raw()[g] = s; p = vt::theObjGroup()->makeCollective<O>(s.get(), label); vsim_probe("instance owned by the program"); break; }
  }
  auto& r = o.grp[g];
  if (r.known and r.proxy != (uint64_t)p.getProxy()) vsim_fail("proxy", "group %d has different proxies on different nodes", g);
  for (int i = 0; i < maxGroups; i++) if (i != g and o.grp[i].known and o.grp[i].proxy == (uint64_t)p.getProxy()) vsim_fail("proxy", "the groups %d and %d have the same proxy", i, g);
  r.proxy = (uint64_t)p.getProxy(); r.known = true;
  r.made[(std::size_t)me()] = 1;
  if (raw().count(g) and static_cast<void*>(p.get()) != raw()[g].get()) vsim_fail("instance", "the instance of group %d is another object than was given", g);
  p.get()->check("get");
  if (vt::theObjGroup()->getProxy(p.get()).getProxy() != p.getProxy()) vsim_fail("proxy", "the instance of group %d belongs to another proxy", g);
  if (vt::theObjGroup()->getLabel(p) != label) vsim_fail("label", "group %d has the label %s", g, vt::theObjGroup()->getLabel(p).c_str());
  vsim_log("made group %d", g);
}
int g_next = 0;
void makeNext() { auto g = g_next++; if (isA(g)) makeAs<A>(g); else makeAs<B>(g); }
struct Go : vt::Message {};
void goHandler(Go*) { makeNext(); }

template <class O> void destroyAs(int g) {
  auto& r = S().grp[g];
  auto before = r.gone[(std::size_t)me()];
  prox<O>(g).destroyCollective();
  auto want = before + (raw().count(g) ? 0 : 1);
  if (r.gone[(std::size_t)me()] != want) vsim_fail("released", "destroying group %d destroyed %d instances at %d", g, r.gone[(std::size_t)me()] - before, me());
  raw().erase(g);
}
void checkAll() {
  auto& o = S();
  for (std::size_t i = 0; i < o.sent.size(); i++) for (int n = 0; n < nn(); n++) if (o.sent[i].want[(std::size_t)n] != o.sent[i].got[(std::size_t)n]) vsim_fail("lost", "%s was not delivered at %d", name((int)i).c_str(), n);
}

void system() {
  init();
  vt::theTerm()->produce();
  auto& o = S();
  if (o.grp[0].made.empty()) for (auto& r : o.grp) { r.made.assign((std::size_t)nn(), 0); r.destroyed = r.built = r.gone = r.made; }
  vsim_describe([](char* b, uint64_t n) {
    std::string s;
    for (std::size_t i = 0; i < S().sent.size(); i++) for (int k = 0; k < nn(); k++) if (S().sent[i].want[(std::size_t)k] and not S().sent[i].got[(std::size_t)k]) s += name((int)i) + " not at " + std::to_string(k) + "; ";
    snprintf(b, n, "%ld deliveries outstanding: %s", (long)S().outstanding, s.c_str());
  });
  auto groups = (int)vsim_param("groups", 1, maxGroups);
  auto rounds = (int)vsim_param("rounds", 1, 3);
  Rng w("what", (uint64_t)me());
  int asked = 0;
  for (int r = 0; r < rounds; r++) {
    auto R = std::to_string(r);
    o.budget = (int)vsim_param("chain", 0, 50);
    meet(("go " + R).c_str());
    // the groups that all nodes have by the end of this round
    int upto = r + 1 == rounds ? groups : (int)Rng("upto", (uint64_t)r).range(asked, groups);
    auto body = [&] {
      auto ops = (int)vsim_param("ops", 1, 10);
      for (int i = 0; i < ops; i++) {
        uint64_t op = (uint64_t)(r * 1000 + me() * 100 + i);
        if (asked < upto and w.chance(40)) {
          asked++;
          if (w.chance(40)) { auto m = vt::makeMessage<Go>(); vt::theMsg()->sendMsg<goHandler>((NodeType)me(), m); vsim_probe("made in a handler"); }
          else if (asked == g_next + 1) makeNext();
          else { auto m = vt::makeMessage<Go>(); vt::theMsg()->sendMsg<goHandler>((NodeType)me(), m); }
        }
        if (w.chance(25)) vsim_advance((uint64_t)w.range(1, 50000));
        if (w.chance(35)) vt::theSched()->runSchedulerOnceImpl();
        if (not vsim_op_on(op)) continue;
        Rng g("op", op);
        post(g, true);
        if (g.chance(40)) while (not held().empty()) {
          auto k = (std::size_t)g.range(0, (int64_t)held().size() - 1);
          auto h = std::move(held()[k]);
          held().erase(held().begin() + (std::ptrdiff_t)k);
          o.sent[(std::size_t)h.id].held = 0;
          h.p->release();
        }
      }
      for (auto& h : held()) { o.sent[(std::size_t)h.id].held = 0; h.p->release(); }
      held().clear();
      while (asked < upto) { asked++; if (w.chance(50)) vt::theSched()->runSchedulerOnceImpl(); auto m = vt::makeMessage<Go>(); vt::theMsg()->sendMsg<goHandler>((NodeType)me(), m); }
    };
    vt::runInEpochCollective(body);
    meet(("over " + R).c_str());
    checkAll();
    if (o.outstanding != 0) vsim_fail("twice", "%ld deliveries outstanding", (long)o.outstanding);
    if (g_next != upto) vsim_fail("harness", "groups made: %d", g_next);
    meet(("checked " + R).c_str());
    // instances are replaced, groups destroyed
    for (int g = 0; g < upto; g++) {
      auto& q = o.grp[g];
      if (q.destroyed[(std::size_t)me()]) continue;
      if (Rng("gone", (uint64_t)(r * 16 + g)).chance(25)) {
        q.destroyed[(std::size_t)me()] = 1;
        if (isA(g)) destroyAs<A>(g); else destroyAs<B>(g);
        vsim_probe("destroyed");
      } else if (not raw().count(g) and w.chance(15)) {
        auto before = q.gone[(std::size_t)me()];
        if (isA(g)) prox<A>(g)[(NodeType)me()].update(vt::objgroup::proxy::ObjGroupReconstructTag, g);
        else prox<B>(g)[(NodeType)me()].update(vt::objgroup::proxy::ObjGroupReconstructTag, g);
        if (q.gone[(std::size_t)me()] != before + 1) vsim_fail("released", "replacing the instance of group %d destroyed %d", g, q.gone[(std::size_t)me()] - before);
        if (isA(g)) prox<A>(g).get()->check("get"); else prox<B>(g).get()->check("get");
        if (isA(g) and vt::theObjGroup()->getProxy(prox<A>(g).get()).getProxy() != prox<A>(g).getProxy()) vsim_fail("proxy", "the new instance of group %d belongs to another proxy", g);
        vsim_probe("instance replaced");
      }
    }
    meet(("between " + R).c_str());
  }
  vt::theTerm()->consume();
  vt::finalize();
  if (o.outstanding != 0) vsim_fail("twice", "%ld deliveries outstanding at the end", (long)o.outstanding);
  raw().clear();
  for (int g = 0; g < groups; g++) if (o.grp[g].gone[(std::size_t)me()] != o.grp[g].built[(std::size_t)me()]) vsim_fail("released", "%d of %d instances of group %d destroyed at %d", o.grp[g].gone[(std::size_t)me()], o.grp[g].built[(std::size_t)me()], g, me());
}

} // namespace

WL_ENTRY {
  (void)mode_c;
  system();
  vsim_done();
}
