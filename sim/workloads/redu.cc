// C07: reductions over all scopes (mode reduce), barriers and scatters (mode
// sync).  Oracle: one record per collective operation, shared by the simulated
// nodes: who contributed what, who got a result.
#include "wl.h"
#include <algorithm>
#include <array>
using namespace wl;
using vt::NodeType;

namespace {

// --------------------------------------------------------------- reductions
enum Scope { sGlobal, sObj, sUser };
enum Form { fBag, fPlus, fMax, fMin, fXor, fOr, fLogic, fNone, fMsg, fForms };
char const* formName[] = {"bag", "plus", "max", "min", "xor", "or", "logic", "empty", "message"};
enum Target { tRoot, tAll, tObjElm, tCb, tCbAll, tTargets };

struct Inst {
  int scope, which, form, target, root, round, num;
  bool stamped; int stampKind;
  std::vector<int> contrib;                 // expected contributions of each node
  std::vector<int> made;
  std::vector<int> got;                     // results received at each node
  int nmade = 0, total = 0;
  std::vector<int64_t> key;                 // of each node
};
struct State {
  std::vector<Inst> inst;
  int entered[4096] = {}, left[4096] = {};
  struct Sc { int from; std::size_t size; uint64_t key; std::vector<int> got; };
  std::vector<Sc> sc;
  int64_t pend = 0;
};
State& S() { static State* s = &shared<State>("redu"); return *s; }

std::string name(int i) {
  auto& t = S().inst[(std::size_t)i];
  char const* sc[] = {"all nodes", "object group ", "reducer "};
  return std::string(formName[t.form]) + " reduction " + std::to_string(i) + " over " + sc[t.scope] + (t.scope ? std::to_string(t.which) : "");
}

// everything that was combined: every contribution with its data
struct Bag {
  int inst = -1;
  std::vector<std::pair<int, int>> who;     // node, number
  std::vector<std::vector<uint8_t>> data;
  Bag operator+(Bag const& o) const {
    Bag r = *this;
    if (r.inst != o.inst) vsim_fail("mixed", "contributions of the reductions %d and %d are combined", inst, o.inst);
    r.who.insert(r.who.end(), o.who.begin(), o.who.end());
    r.data.insert(r.data.end(), o.data.begin(), o.data.end());
    return r;
  }
  template <class Z> void serialize(Z& z) { z | inst | who | data; }
};
struct BagMsg : vt::collective::ReduceTMsg<Bag> {
  using MessageParentType = vt::collective::ReduceTMsg<Bag>;
  vt_msg_serialize_required();
  BagMsg() = default;
  explicit BagMsg(Bag b) : MessageParentType(std::move(b)) {}
  template <class Z> void serialize(Z& z) { MessageParentType::serialize(z); }
};
using Arr = std::array<int64_t, 3>;
using Vec = std::vector<int64_t>;
using Bits = std::vector<bool>;

std::size_t bagSize(int i, int n, int c) {
  Rng g("size", (uint64_t)(i * 100 + n * 10 + c));
  return (std::size_t)(g.chance(15) ? g.range(1000, 9000) : g.range(0, 60));
}
uint64_t bagKey(int i, int n, int c) { return vsim_hash("bag", (uint64_t)(i * 100 + n * 10 + c)); }

void result(int i) {
  auto& o = S();
  if (i < 0 or (std::size_t)i >= o.inst.size()) vsim_fail("value", "a result of the unknown reduction %d arrives at %d", i, me());
  auto& t = o.inst[(std::size_t)i];
  bool all = t.target == tAll or t.target == tCbAll;
  vsim_log("result of %s at %d", name(i).c_str(), me());
  if (not all and me() != t.root) vsim_fail("target", "the result of %s is at %d, not %d", name(i).c_str(), me(), t.root);
  if (t.nmade != t.total) vsim_fail("early", "%s is complete after %d of %d contributions", name(i).c_str(), t.nmade, t.total);
  if (++t.got[(std::size_t)me()] > 1) vsim_fail("twice", "the result of %s arrives %d times at %d", name(i).c_str(), t.got[(std::size_t)me()], me());
  o.pend--;
  vsim_touch();
  vsim_probe(formName[t.form]);
}
void gotBag(Bag b, int64_t sum) {
  auto i = b.inst;
  result(i);
  auto& t = S().inst[(std::size_t)i];
  std::set<std::pair<int, int>> seen;
  if (b.who.size() != b.data.size()) vsim_fail("value", "the result of %s is inconsistent", name(i).c_str());
  for (std::size_t k = 0; k < b.who.size(); k++) {
    auto [n, c] = b.who[k];
    if (n < 0 or n >= nn() or c < 0 or c >= t.contrib[(std::size_t)n]) vsim_fail("value", "the result of %s holds a contribution nobody made", name(i).c_str());
    if (not seen.insert(b.who[k]).second) vsim_fail("value", "the result of %s holds a contribution of %d twice", name(i).c_str(), n);
    if (b.data[k].size() != bagSize(i, n, c) or not matches(b.data[k].data(), b.data[k].size(), bagKey(i, n, c))) vsim_fail("value", "the contribution of %d to %s has other contents", n, name(i).c_str());
  }
  if ((int)seen.size() != t.total) vsim_fail("value", "the result of %s holds %zu of %d contributions", name(i).c_str(), seen.size(), t.total);
  if (sum != t.total) vsim_fail("value", "%s sums to %ld, not %d", name(i).c_str(), (long)sum, t.total);
}
void expect(int i, int form, int64_t v, char const* what) {
  auto& t = S().inst[(std::size_t)i];
  if (t.form != form) vsim_fail("value", "%s gets the result of a %s reduction", name(i).c_str(), formName[form]);
  int64_t w = t.key[0];
  for (int n = 1; n < nn(); n++) {
    auto k = t.key[(std::size_t)n];
    w = form == fPlus ? w + k : form == fMax ? std::max(w, k) : form == fMin ? std::min(w, k) : form == fXor ? w ^ k : w | k;
  }
  if (v != w) vsim_fail("value", "the %s of %s is %ld, not %ld", what, name(i).c_str(), (long)v, (long)w);
}
template <int F> void gotNum(int i, int64_t v, Vec x, Arr a) {
  result(i);
  expect(i, F, v, "number");
  if (x.size() != 2) vsim_fail("value", "the vector of %s has %zu elements", name(i).c_str(), x.size());
  for (auto& q : x) expect(i, F, q, "vector");
  for (auto& q : a) expect(i, F, q, "array");
}
template <int F> void gotBit(int i, int64_t v) { result(i); expect(i, F, v, "number"); }
void gotLogic(int, bool, Bits) {}
void gotAnd(bool v, Bits b) {
  // there is one of them in a round: find it
  auto& o = S();
  int i = (int)o.inst.size() - 1;
  while (i >= 0 and o.inst[(std::size_t)i].form != fLogic) i--;
  result(i);
  auto& t = o.inst[(std::size_t)i];
  bool w = true, w1 = true;
  for (int n = 0; n < nn(); n++) { w = w and t.key[(std::size_t)n] % 7 != 0; w1 = w1 and t.key[(std::size_t)n] % 5 != 0; }
  if (v != w or b.size() != 2 or b[0] != w or b[1] != w1) vsim_fail("value", "%s gives another result", name(i).c_str());
}
void gotNone() {
  auto& o = S();
  int i = (int)o.inst.size() - 1;
  while (i >= 0 and o.inst[(std::size_t)i].form != fNone) i--;
  result(i);
}
void bagMsgDone(Bag const& b) { gotBag(b, S().inst[(std::size_t)b.inst].total); }
struct BagFn { void operator()(BagMsg* m) { bagMsgDone(m->getVal()); } };

struct Obj {
  int which = 0;
  void bag(Bag b, int64_t s) { here(b.inst); gotBag(b, s); }
  template <int F> void num(int i, int64_t v, Vec x, Arr a) { here(i); gotNum<F>(i, v, x, a); }
  template <int F> void bit(int i, int64_t v) { here(i); gotBit<F>(i, v); }
  void logic(bool v, Bits b) { gotAnd(v, b); }
  void none() { gotNone(); }
  void here(int i) {
    auto& o = S();
    if (i < 0 or (std::size_t)i >= o.inst.size() or o.inst[(std::size_t)i].which != which or o.inst[(std::size_t)i].scope != sObj) vsim_fail("target", "a result of reduction %d is delivered to object group %d", i, which);
  }
};
struct Go : vt::Message { int i; };

std::vector<vt::objgroup::proxy::Proxy<Obj>>& objs() { static std::vector<vt::objgroup::proxy::Proxy<Obj>> v; return v; }
std::vector<vt::collective::reduce::Reduce*>& users() { static std::vector<vt::collective::reduce::Reduce*> v; return v; }

using Stamp = vt::collective::reduce::ReduceStamp;
Stamp stampOf(int i) {
  using namespace vt::collective::reduce::detail;
  auto& t = S().inst[(std::size_t)i];
  Stamp s{};
  if (not t.stamped) return s;
  switch (t.stampKind) {
    // numbers are used again in every round, and by all kinds of stamp
    case 0: s = StrongTag{vt::TagType(t.num + 1)}; break;
    case 1: {
      static int const pr[][2] = {{1, 2}, {2, 1}, {3, 4}, {4, 3}, {1, 5}, {5, 1}, {2, 3}, {3, 2}, {5, 6}, {6, 5}};
      s = TagPair{pr[t.num][0], pr[t.num][1]};
      break;
    }
    default: s = StrongUserID{(uint64_t)t.num + 1}; break;
  }
  return s;
}
Bag bagOf(int i, int c) {
  Bag b;
  b.inst = i;
  b.who.emplace_back(me(), c);
  b.data.emplace_back(bagSize(i, me(), c));
  fill(b.data[0].data(), b.data[0].size(), bagKey(i, me(), c));
  return b;
}
using Pending = vt::messaging::PendingSend;
using namespace vt::collective;
using Red = vt::collective::reduce::Reduce;

template <template <typename> class Op, int F, class Args> Pending objNums(Inst& t, int i, Args st) {
  auto p = objs()[(std::size_t)t.which];
  auto k = t.key[(std::size_t)me()];
  int id = (F == fPlus and me() != 0) ? 0 : i;
  Vec x{k, k}; Arr a{k, k, k};
  if (t.target == tAll) return p.template allreduce<&Obj::template num<F>, Op>(id, k, x, a, st);
  if (t.target == tCb) return p.template reduce<Op>(vt::theCB()->makeSend<gotNum<F>>((NodeType)t.root), id, k, x, a, st);
  if (t.target == tCbAll) return p.template reduce<Op>(vt::theCB()->makeBcast<&Obj::template num<F>>(p), id, k, x, a, st);
  return p.template reduce<&Obj::template num<F>, Op>(p[(NodeType)t.root], id, k, x, a, st);
}
template <template <typename> class Op, int F> Pending objBits(Inst& t, int i, Stamp st) {
  auto p = objs()[(std::size_t)t.which];
  auto k = t.key[(std::size_t)me()];
  int id = (F == fXor and me() != 0) ? 0 : i;
  if (t.target == tAll) return p.template allreduce<&Obj::template bit<F>, Op>(id, k, st);
  if (t.target == tCb) return p.template reduce<Op>(vt::theCB()->makeSend<gotBit<F>>((NodeType)t.root), id, k, st);
  if (t.target == tCbAll) return p.template reduce<Op>(vt::theCB()->makeBcast<&Obj::template bit<F>>(p), id, k, st);
  return p.template reduce<&Obj::template bit<F>, Op>(p[(NodeType)t.root], id, k, st);
}
Pending objReduce(Inst& t, int i, int c) {
  auto st = stampOf(i);
  auto p = objs()[(std::size_t)t.which];
  auto k = t.key[(std::size_t)me()];
  switch (t.form) {
    case fPlus: return objNums<PlusOp, fPlus>(t, i, st);
    case fMax: return objNums<MaxOp, fMax>(t, i, st);
    case fMin: return objNums<MinOp, fMin>(t, i, st);
    case fXor: return objBits<BitXorOp, fXor>(t, i, st);
    case fOr: return objBits<BitOrOp, fOr>(t, i, st);
    case fLogic: {
      Bits b{k % 7 != 0, k % 5 != 0};
      bool v = k % 7 != 0;
      if (t.target == tAll or t.target == tCbAll) return p.template allreduce<&Obj::logic, AndOp>(v, b, st);
      if (t.target == tCb) return p.template reduce<AndOp>(vt::theCB()->makeSend<gotAnd>((NodeType)t.root), v, b, st);
      return p.template reduce<&Obj::logic, AndOp>(p[(NodeType)t.root], v, b, st);
    }
    case fNone:
      if (t.target == tAll or t.target == tCbAll) return p.template allreduce<&Obj::none>(st);
      return p.template reduce<&Obj::none>(p[(NodeType)t.root], st);
    default: {
      auto b = bagOf(i, c);
      if (t.target == tAll) return p.template allreduce<&Obj::bag, PlusOp>(b, (int64_t)1, st);
      if (t.target == tCb) return p.template reduce<PlusOp>(vt::theCB()->makeSend<gotBag>((NodeType)t.root), b, (int64_t)1, st);
      if (t.target == tCbAll) return p.template reduce<PlusOp>(vt::theCB()->makeBcast<&Obj::bag>(p), b, (int64_t)1, st);
      return p.template reduce<&Obj::bag, PlusOp>(p[(NodeType)t.root], b, (int64_t)1, st);
    }
  }
}
template <template <typename> class Op, int F> Pending nodeNums(Red* r, Inst& t, int i, Stamp st) {
  auto k = t.key[(std::size_t)me()];
  int id = (F == fPlus and me() != 0) ? 0 : i;
  return r->template reduce<gotNum<F>, Op>(vt::Node{(NodeType)t.root}, id, k, Vec{k, k}, Arr{k, k, k}, st);
}
Pending nodeReduce(Inst& t, int i, int c) {
  auto st = stampOf(i);
  auto r = t.scope == sGlobal ? vt::theCollective()->global() : users()[(std::size_t)t.which];
  auto k = t.key[(std::size_t)me()];
  auto root = vt::Node{(NodeType)t.root};
  switch (t.form) {
    case fPlus: return nodeNums<PlusOp, fPlus>(r, t, i, st);
    case fMax: return nodeNums<MaxOp, fMax>(r, t, i, st);
    case fMin: return nodeNums<MinOp, fMin>(r, t, i, st);
    case fXor: return r->template reduce<gotBit<fXor>, BitXorOp>(root, me() ? 0 : i, k, st);
    case fOr: return r->template reduce<gotBit<fOr>, BitOrOp>(root, i, k, st);
    case fLogic: return r->template reduce<gotAnd, AndOp>(root, k % 7 != 0, Bits{k % 7 != 0, k % 5 != 0}, st);
    case fNone: return r->template reduce<gotNone>(root, st);
    case fMsg: {
      auto m = vt::makeMessage<BagMsg>(bagOf(i, c));
      return r->template reduce<PlusOp<Bag>, BagFn>((NodeType)t.root, m.get(), st, t.contrib[(std::size_t)me()]);
    }
    default: return r->template reduce<gotBag, PlusOp>(root, bagOf(i, c), (int64_t)1, st);
  }
}
std::unique_ptr<Pending> contribute(int i) {
  auto& t = S().inst[(std::size_t)i];
  auto c = t.made[(std::size_t)me()]++;
  vsim_log("node %d contributes %d to %s", me(), c, name(i).c_str());
  auto p = std::make_unique<Pending>(t.scope == sObj ? objReduce(t, i, c) : nodeReduce(t, i, c));
  t.nmade++;
  return p;
}
void goHandler(Go* m) { contribute(m->i)->release(); }

void plan(int r, int base) {
  auto& o = S();
  auto k = (int)vsim_param("reductions", 1, 10);
  bool logic = false, none = false;
  Rng f("favour", (uint64_t)r);
  auto fav_scope = (int)f.range(0, 4), fav_kind = (int)f.range(0, 4);
  for (int q = 0; q < k; q++) {
    Rng g("inst", (uint64_t)(r * 100 + q));
    Inst t;
    t.round = r;
    t.num = q;
    t.scope = fav_scope < 3 and g.chance(60) ? fav_scope : (int)g.range(0, 2);
    if (t.scope == sUser and users().empty()) t.scope = sGlobal;
    t.which = t.scope == sObj ? (int)g.range(0, (int64_t)objs().size() - 1) : t.scope == sUser ? (int)g.range(0, (int64_t)users().size() - 1) : 0;
    t.form = (int)g.range(0, fForms - 1);
    if (t.form == fMsg and t.scope == sObj) t.form = fBag;
    if (t.form == fLogic) { if (logic) t.form = fBag; logic = true; }
    if (t.form == fNone) { if (none) t.form = fBag; none = true; }
    t.target = t.scope == sObj ? (int)g.range(tAll, tTargets - 1) : tRoot;
    if (t.form == fNone and t.target == tCb) t.target = tAll;
    t.root = (int)g.range(0, nn() - 1);
    t.stamped = g.chance(50);
    t.stampKind = fav_kind < 3 and g.chance(70) ? fav_kind : (int)g.range(0, 2);
    t.made.assign((std::size_t)nn(), 0);
    t.got = t.made;
    for (int n = 0; n < nn(); n++) {
      t.contrib.push_back(t.form == fMsg and t.stamped ? (int)g.range(1, 3) : 1);
      t.key.push_back((int64_t)(g.next() >> 20) - (g.chance(50) ? (1ll << 42) : 0));
      t.total += t.contrib.back();
    }
    (void)base;
    o.pend += t.target == tAll or t.target == tCbAll ? nn() : 1;
    o.inst.push_back(t);
  }
}

void reduceMode() {
  init();
  vt::theTerm()->produce();
  auto& o = S();
  vsim_describe([](char* b, uint64_t n) {
    std::string s;
    for (std::size_t i = 0; i < S().inst.size(); i++) {
      auto& t = S().inst[i];
      int got = 0; for (auto x : t.got) got += x;
      if (got != (t.target == tAll or t.target == tCbAll ? nn() : 1)) s += name((int)i) + ": " + std::to_string(t.nmade) + "/" + std::to_string(t.total) + " contributions, " + std::to_string(got) + " results; ";
    }
    snprintf(b, n, "%s", s.c_str());
  });
  auto ng = (int)vsim_param("groups", 1, 3), nu = (int)vsim_param("reducers", 0, 2);
  for (int i = 0; i < ng; i++) { auto p = vt::theObjGroup()->makeCollective<Obj>("obj"); p.get()->which = i; objs().push_back(p); }
  for (int i = 0; i < nu; i++) users().push_back(vt::theCollective()->makeReducerCollective());
  meet("made");
  auto rounds = (int)vsim_param("rounds", 1, 3);
  for (int r = 0; r < rounds; r++) {
    auto R = std::to_string(r);
    static int base = 0;
    if (me() == 0) plan(r, base);
    meet(("plan " + R).c_str());
    auto last = (int)o.inst.size();
    Rng how("how", (uint64_t)(r * 50 + me()));
    bool whole = Rng("whole", (uint64_t)r).chance(80);
    auto work = [&] {
      // the order here: unstamped ones of one scope in order, all others anywhere
      std::vector<int> todo;
      std::map<std::pair<int, int>, std::deque<int>> seq;
      std::vector<std::pair<int, int>> lanes;
      for (int i = base; i < last; i++) {
        auto& t = o.inst[(std::size_t)i];
        if (t.stamped) for (int c = 0; c < t.contrib[(std::size_t)me()]; c++) todo.push_back(i);
        else { seq[{t.scope, t.which}].push_back(i); lanes.push_back({t.scope, t.which}); }
      }
      for (auto& l : lanes) todo.push_back(-1 - (int)(&l - lanes.data()));
      for (std::size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[(std::size_t)how.range(0, (int64_t)i - 1)]);
      std::vector<std::unique_ptr<Pending>> held;
      for (auto i : todo) {
        if (how.chance(40)) for (auto k = how.range(1, 6); k > 0; k--) vt::theSched()->runSchedulerOnceImpl();
        if (how.chance(20)) vsim_advance((uint64_t)how.range(1, 20000));
        if (i < 0) {
          auto& q = seq[lanes[(std::size_t)(-1 - i)]];
          auto id = q.front();
          q.pop_front();
          contribute(id)->release();
          continue;
        }
        auto w = how.range(0, 3);
        if (w == 0) held.push_back(contribute(i));
        else if (w == 1) { auto m = vt::makeMessage<Go>(); m->i = i; vt::theMsg()->sendMsg<goHandler>((NodeType)me(), m); }
        else contribute(i)->release();
      }
      for (auto& h : held) h->release();
    };
    if (whole) vt::runInEpochCollective(work);
    else {
      work();
      pumpUntil([&] { return o.pend == 0; });
    }
    meet(("over " + R).c_str());
    for (int i = base; i < last; i++) {
      auto& t = o.inst[(std::size_t)i];
      bool all = t.target == tAll or t.target == tCbAll;
      for (int n = 0; n < nn(); n++) if (t.got[(std::size_t)n] != (all or n == t.root)) vsim_fail("lost", "%s: %d of %d contributions, %d results at %d", name(i).c_str(), t.nmade, t.total, t.got[(std::size_t)n], n);
    }
    base = last;
    meet(("checked " + R).c_str());
  }
  vt::theTerm()->consume();
  vt::finalize();
  if (o.pend) vsim_fail("lost", "%ld results are outstanding at the end", (long)o.pend);
}

// ------------------------------------------------------ barriers and scatters
struct Blk { int64_t id, node, len; };
void gotScatter(Blk* p) {
  auto& o = S();
  Blk b;
  memcpy(&b, (void*)p, sizeof b);
  if (b.id < 0 or (std::size_t)b.id >= o.sc.size()) vsim_fail("scatter", "node %d gets a block of the unknown scatter %ld", me(), (long)b.id);
  auto& t = o.sc[(std::size_t)b.id];
  vsim_log("node %d gets its block of scatter %ld from %d", me(), (long)b.id, t.from);
  if (b.node != me()) vsim_fail("scatter", "node %d gets the block of %ld of scatter %ld", me(), (long)b.node, (long)b.id);
  if ((std::size_t)b.len + sizeof b > t.size or not matches((uint8_t*)p + sizeof b, (std::size_t)b.len, t.key + (uint64_t)me())) vsim_fail("scatter", "the block of %d of scatter %ld has other contents", me(), (long)b.id);
  if (++t.got[(std::size_t)me()] > 1) vsim_fail("scatter", "node %d gets its block of scatter %ld %d times", me(), (long)b.id, t.got[(std::size_t)me()]);
  vsim_touch();
  vsim_probe("scattered");
}
void scatterHere(Rng& g) {
  auto& o = S();
  auto id = (int64_t)o.sc.size();
  State::Sc t;
  t.from = me();
  t.size = sizeof(Blk) + (std::size_t)(g.chance(20) ? g.range(500, 3000) : g.range(0, 100));
  t.key = g.next();
  t.got.assign((std::size_t)nn(), 0);
  o.sc.push_back(t);
  vsim_log("node %d scatters %ld, blocks of %zu", me(), (long)id, t.size);
  vt::theCollective()->scatter<gotScatter>(t.size * (std::size_t)nn(), t.size, nullptr, [=](NodeType n, std::byte* p) {
    Blk b{id, n, (int64_t)(t.size - sizeof(Blk))};
    memcpy(p, &b, sizeof b);
    fill(reinterpret_cast<uint8_t*>(p) + sizeof b, (std::size_t)b.len, t.key + (uint64_t)n);
  });
}
struct ScGo : vt::Message { uint64_t k; };
void scHandler(ScGo* m) { Rng g(m->k); scatterHere(g); }

int g_conts = 0;
void leave(int b, char const* how) {
  auto& o = S();
  vsim_log("node %d leaves barrier %d", me(), b);
  if (o.entered[b] != nn()) vsim_fail("barrier", "barrier %d (%s) releases node %d after %d of %d nodes entered", b, how, me(), o.entered[b], nn());
  if (++o.left[b] > nn()) vsim_fail("barrier", "barrier %d (%s) releases %d times", b, how, o.left[b]);
  vsim_touch();
  vsim_probe(how);
}
void enter(int b) {
  vsim_log("node %d enters barrier %d", me(), b);
  if (++S().entered[b] > nn()) vsim_fail("harness", "barrier %d", b);
}
void then(int b, vt::BarrierType id, int chain) {
  auto& o = S();
  (void)o;
  static std::set<int> done;
  auto fn = [=] {
    if (not done.insert(b).second) vsim_fail("barrier", "the action of barrier %d runs twice on %d", b, me());
    leave(b, "continued");
    g_conts--;
    if (chain > 0) {
      // all nodes make the same chain
      then(b + 1000, id + 100000, chain - 1);
    }
  };
  g_conts++;
  enter(b);
  if (id == vt::no_barrier) vt::theCollective()->barrierThen(fn);
  else vt::theCollective()->barrierThen(id, fn);
}

struct Noise : vt::Message { int ttl; };
void noise(Noise* m) {
  vsim_advance((uint64_t)m->ttl * 500);
  if (m->ttl > 0) {
    auto n = vt::makeMessage<Noise>();
    n->ttl = m->ttl - 1;
    vt::theMsg()->sendMsg<noise>((NodeType)((me() + m->ttl) % nn()), n);
  }
}

void syncMode() {
  init();
  vt::theTerm()->produce();
  auto& o = S();
  vsim_describe([](char* b, uint64_t n) {
    std::string s;
    for (int i = 0; i < 4096; i++) if (S().entered[i] and S().left[i] != nn()) s += "barrier " + std::to_string(i) + ": " + std::to_string(S().entered[i]) + " entered, " + std::to_string(S().left[i]) + " left; ";
    snprintf(b, n, "%s", s.c_str());
  });
  auto steps = (int)vsim_param("steps", 2, 14);
  Rng w("what", (uint64_t)me());              // differs between nodes
  std::deque<std::pair<int, vt::BarrierType>> later;   // named ones with an action, any order
  auto flush = [&](bool all) {
    while (not later.empty() and (all or w.chance(50))) {
      auto k = w.range(0, (int64_t)later.size() - 1);
      auto [b, id] = later[(std::size_t)k];
      later.erase(later.begin() + k);
      then(b, id, (int)Rng("chain", (uint64_t)b).range(0, 2));
    }
  };
  auto body = [&] {
    for (int s = 0; s < steps; s++) {
      Rng g("step", (uint64_t)s);             // the same on all nodes
      if (not vsim_op_on((uint64_t)s)) continue;
      if (w.chance(30)) { auto m = vt::makeMessage<Noise>(); m->ttl = (int)w.range(0, 5); vt::theMsg()->sendMsg<noise>((NodeType)w.range(0, nn() - 1), m); }
      if (w.chance(30)) vsim_advance((uint64_t)w.range(1, 60000));
      if (w.chance(30)) vt::theSched()->runSchedulerOnceImpl();
      if (w.chance(25)) { Rng q(w.next()); scatterHere(q); }
      if (w.chance(15)) { auto m = vt::makeMessage<ScGo>(); m->k = w.next(); vt::theMsg()->sendMsg<scHandler>((NodeType)w.range(0, nn() - 1), m); }
      flush(false);
      int b = s + 1;
      switch (g.range(0, 5)) {
        case 0: enter(b); vt::theCollective()->barrier(); leave(b, "waited"); break;
        case 1: then(b, vt::no_barrier, 0); break;
        case 2: enter(b); vt::theCollective()->barrier([&] { if (w.chance(3)) vsim_advance(100); }); leave(b, "waited, polling"); break;
        case 3: { auto id = vt::theCollective()->newNamedCollectiveBarrier(); flush(true); enter(b); vt::theCollective()->barrier(nullptr, id); leave(b, "waited, named"); break; }
        case 4: { auto id = vt::theCollective()->newNamedCollectiveBarrier(); later.emplace_back(b, id); break; }
        case 5: {
          // named by one node, sent to the others through shared memory
          auto& slot = shared<std::vector<vt::BarrierType>>(("bar " + std::to_string(b)).c_str());
          if (slot.empty()) slot.push_back(vt::theCollective()->newNamedBarrier());
          later.emplace_back(b, slot[0]);
          break;
        }
      }
    }
    flush(true);
    vt::theSched()->runSchedulerWhile([&] { return g_conts > 0; });
  };
  if (Rng("in epoch", 0).chance(50)) vt::runInEpochCollective(body); else body();
  auto all = [&] { for (auto& t : o.sc) for (auto x : t.got) if (not x) return false; return true; };
  meet("posted");
  pumpUntil([&] { return g_conts == 0 and all(); });
  meet("over");
  for (int i = 0; i < 4096; i++) if (o.left[i] != o.entered[i]) vsim_fail("barrier", "barrier %d: %d entered, %d left", i, o.entered[i], o.left[i]);
  meet("checked");
  vt::theTerm()->consume();
  vt::finalize();
}

} // namespace

WL_ENTRY {
  if (!strcmp(mode_c, "sync")) syncMode(); else reduceMode();
  vsim_done();
}
