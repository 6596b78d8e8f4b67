// C13, C14 (and input for C15): phases and load balancing.  Collections do work
// of random cost in every phase; the phases end with a randomly chosen and
// configured balancer.  Mode balance: elements and their state are conserved, the
// hooks run in order on all nodes. Mode loads: what is recorded equals what ran.
// Mode record: see lbdata.cc.
#include "wl.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <vt/vrt/collection/balance/model/linear_model.h>
#include <vt/vrt/collection/balance/model/naive_persistence.h>
#include <vt/vrt/collection/balance/model/norm.h>
#include <vt/vrt/collection/balance/model/persistence_median_last_n.h>
#include <vt/vrt/collection/balance/model/raw_data.h>
#include <vt/vrt/collection/balance/model/comm_overhead.h>
#include <vt/vrt/collection/balance/model/per_collection.h>
#include <vt/vrt/collection/balance/lb_invoke/lb_manager.h>
#include <vt/elm/elm_lb_data.h>
#undef WL_ENTRY
#define WL_ENTRY inline void recordEntry(char const* mode_c)
namespace component {
#include "lbdata.cc"
}
#undef WL_ENTRY
#define WL_ENTRY extern "C" __attribute__((visibility("default"))) \
  void vsim_rank_entry(int, int, char const* mode_c)

using namespace wl;
using vt::NodeType;
using vt::phase::PhaseHook;
namespace bal = vt::vrt::collection::balance;

namespace {

bool loads = false, memory = false;
using Edge = std::tuple<int, uint64_t, uint64_t, int, int>;  // category, from, to (elements), from node, to node
struct Vol { double bytes = 0; int n = 0; };
struct PhRec { double load = 0; int runs = 0; std::map<int, double> sub; std::map<Edge, Vol> comm; };
struct Rec {
  int live = 0, flying = 0, where = -1, made = 0, moves = 0;
  uint64_t sum = 0, id = 0;
  std::map<uint64_t, PhRec> ph;
};
struct Sent { int col, idx; int got = 0; };
struct Col { int n = 0; uint64_t proxy = 0; bool two = false; std::map<int, Rec> elms; };
struct Hook { int id = 0, kind = 0, node = 0; PhaseHook type = PhaseHook::Start; int order = 0; bool on = true; std::map<int, std::set<int>> ran; std::map<int, int> open; };
std::map<int, vt::phase::PhaseHookID> hid;   // of this node
struct Seen { int node; double load; std::vector<double> sub; };
struct State {
  std::deque<Col> cols; std::map<uint64_t, int> by_proxy; std::vector<Sent> sent;
  int64_t outstanding = 0; std::map<int, int> phase_of;                 // node -> phase
  std::deque<Hook> hooks;
  std::map<int, std::set<int>> returned;                                // phase -> nodes
  bool balanced = false; std::map<int, std::map<std::pair<int, int>, std::pair<int, int>>> before; // phase -> element -> node and moves
  std::map<std::tuple<int, int, int>, int> found;                        // phase, collection, element -> nodes that have it
  std::map<std::pair<uint64_t, uint64_t>, std::vector<Seen>> seen;     // phase, id
  std::map<uint64_t, std::map<int, double>> total;                     // phase -> node -> all recorded load
  std::map<int, PhRec> bare; std::map<uint64_t, std::map<uint64_t, PhRec>> obj;
};
State& S() { static State* s = &shared<State>("lb"); return *s; }
uint64_t phaseNow() { return (uint64_t)S().phase_of[me()]; }
std::string name(int col, int idx) { return "element " + std::to_string(idx) + " of collection " + std::to_string(col); }
bool near(double a, double b, double eps) { return std::fabs(a - b) <= eps; }

template <class E> struct Work : vt::CollectionMessage<E> { int id = 0; uint64_t key = 0; int hops = 0; uint64_t from = 0; int fromNode = -1; bool quiet = false; uint8_t d[64]; };
template <class E> struct Ser : vt::CollectionMessage<E> {
  using MessageParentType = vt::CollectionMessage<E>;
  vt_msg_serialize_required();
  int id = 0; uint64_t key = 0; int hops = 0; uint64_t from = 0; int fromNode = -1; bool quiet = false; std::vector<uint8_t> v;
  template <class Z> void serialize(Z& s) { MessageParentType::serialize(s); s | id | key | hops | from | fromNode | quiet | v; }
};
template <class E> struct SubMsg : vt::CollectionMessage<E> { int sub = 0; };

template <class I> struct Ix;
template <> struct Ix<vt::Index1D> { static vt::Index1D mk(int i) { return vt::Index1D(i); } static int lin(vt::Index1D const& x) { return (int)x.x(); } static vt::Index1D bounds(int n) { return vt::Index1D(n); } };
template <> struct Ix<vt::Index2D> { static vt::Index2D mk(int i) { return vt::Index2D(i / 3, i % 3); } static int lin(vt::Index2D const& x) { return (int)(x.x() * 3 + x.y()); } static vt::Index2D bounds(int n) { return vt::Index2D(n / 3, 3); } };

template <class I> struct Elm;
template <class I> void sendTo(int col, int idx, uint64_t key, int hops, uint64_t from, bool quiet);
void sendAny(int col, int idx, uint64_t key, int hops, uint64_t from, bool quiet);

template <class I>
struct Elm : vt::Collection<Elm<I>, I> {
  using Base = vt::Collection<Elm<I>, I>;
  uint64_t sum = 0;
  std::vector<uint8_t> state;
  bool known = false;
  int col = -1, idx = -1, sub = 0;

  Elm() = default;
  virtual ~Elm() {
    if (known) { auto& r = rec(); if (--r.live < 0) vsim_fail("destroyed-twice", "%s is destroyed more often than made", name(col, idx).c_str()); }
  }
  Rec& rec() { return S().cols[(std::size_t)col].elms[idx]; }
  void meetOracle() {
    if (known) return;
    auto it = S().by_proxy.find((uint64_t)this->getProxy());
    if (it == S().by_proxy.end()) vsim_fail("identity", "an element has an unknown proxy");
    col = it->second; idx = Ix<I>::lin(this->getIndex());
    known = true;
    auto& r = rec();
    r.live++; r.made++; r.where = me(); r.id = this->getElmID().id;
    if (r.live > 1 or r.made > 1) vsim_fail("duplicate-element", "%s exists twice", name(col, idx).c_str());
    if (memory) {
      // elements that share a block of memory form the clusters that are swapped
      int block = col * 8 + idx / 3;
      this->valInsert("shared_id", (double)block, false, true, false);
      this->valInsert("home_rank", (double)(block % nn()), false, true, false);
      this->valInsert("shared_bytes", 1000. + block, false, true, false);
      this->valInsert("task_working_bytes", 10. + idx, false, true, false);
      this->valInsert("task_footprint_bytes", 100. + idx, false, true, false);
      this->valInsert("task_serialized_bytes", 50. + idx, false, true, false);
      this->valInsert("rank_working_bytes", 500., false, true, false);
    }
    if (idx < 0 or idx >= S().cols[(std::size_t)col].n) vsim_fail("unexpected-element", "%s was not asked for", name(col, idx).c_str());
  }
  void check(char const* when) {
    meetOracle();
    auto& r = rec();
    if (r.where != me()) vsim_fail("two-places", "%s runs (%s) on node %d while it lives on %d", name(col, idx).c_str(), when, me(), r.where);
    if (r.sum != sum or state.size() != sum % 500 or not matches(state.data(), state.size(), sum)) vsim_fail("state", "%s has lost its state (%s)", name(col, idx).c_str(), when);
    if (r.id != this->getElmID().id) vsim_fail("identity", "%s has changed its identifier", name(col, idx).c_str());
  }
  // The work of one message; what a handler takes is measured by the clock the
  // runtime uses
  template <class M> void work(M* m, double bytes) {
    auto t0 = vt::timing::getCurrentTime().seconds();
    check("work");
    auto& o = S();
    if (m->id < 0 or (std::size_t)m->id >= o.sent.size()) vsim_fail("contents", "%s got message %d", name(col, idx).c_str(), m->id);
    auto& t = o.sent[(std::size_t)m->id];
    if (t.col != col or t.idx != idx) vsim_fail("misdirected", "message %d for %s arrived at %s", m->id, name(t.col, t.idx).c_str(), name(col, idx).c_str());
    if (++t.got > 1) vsim_fail("duplicate", "message %d arrived %d times at %s", m->id, t.got, name(col, idx).c_str());
    vsim_log("message %d at %s", m->id, name(col, idx).c_str());
    sum = vsim_hash("state", sum ^ m->key);
    state.resize(sum % 500);
    fill(state.data(), state.size(), sum);
    rec().sum = sum;
    Rng g(m->key);
    auto cost = (uint64_t)g.range(1, 20) * (uint64_t)(1 + (idx * 7 + col) % 11) * 10000;
    vsim_advance(cost);
    if (m->hops > 0) {
      auto c = (int)g.range(0, (int64_t)o.cols.size() - 1);
      sendAny(c, (int)g.range(0, o.cols[(std::size_t)c].n - 1), g.next(), m->hops - 1, rec().id, m->quiet);
    }
    auto phase = this->getLBData().getPhase();
    if (phase != phaseNow() and (m->quiet or phase != phaseNow() + 1)) vsim_fail("phase", "%s counts phase %llu in phase %llu", name(col, idx).c_str(), (unsigned long long)phase, (unsigned long long)phaseNow());
    auto& p = rec().ph[phase];
    // sent by another element, or by a node's main program or message handlers
    if (m->from) { auto& v = p.comm[Edge{(int)vt::elm::CommCategory::SendRecv, m->from, rec().id, -1, -1}]; v.n++; v.bytes += bytes; }
    o.outstanding--;
    vsim_touch();
    p.runs++;
    auto t1 = vt::timing::getCurrentTime().seconds();
    p.load += t1 - t0;
    p.sub[sub] += t1 - t0;
    check("after work");
  }
  void plain(Work<Elm>* m) { if (not matches(m->d, sizeof m->d, m->key)) vsim_fail("contents", "a message has other contents than sent"); work(m, (double)sizeof(*m)); }
  void ser(Ser<Elm>* m) { if (m->v.size() != m->key % 3000 or not matches(m->v.data(), m->v.size(), m->key)) vsim_fail("contents", "a message has other contents than sent"); work(m, (double)m->v.size()); }
  void subphase(SubMsg<Elm>* m) { check("subphase"); sub = m->sub; this->getLBData().setSubPhase((vt::SubphaseType)m->sub); S().outstanding--; vsim_touch(); }

  template <class Z> void serialize(Z& s) { Base::serialize(s); s | sum | state | sub; }
  void preMigrateOut() override {
    meetOracle();
    auto& r = rec();
    if (r.where != me()) vsim_fail("two-places", "%s leaves node %d while it lives on %d", name(col, idx).c_str(), me(), r.where);
    if (not S().balanced) vsim_fail("unasked", "%s migrates although no balancer runs", name(col, idx).c_str());
    vsim_log("%s leaves", name(col, idx).c_str());
    r.flying++; r.live--; r.where = -2; r.moves++;
    known = false;
  }
  void preMigrateIn() override { epiMigrateIn(); }
  void epiMigrateIn() override {
    auto it = S().by_proxy.find((uint64_t)this->getProxy());
    if (it == S().by_proxy.end()) vsim_fail("identity", "an element with an unknown proxy migrates");
    col = it->second; idx = Ix<I>::lin(this->getIndex());
    auto& r = rec();
    if (not known) {
      if (r.flying != 1) vsim_fail("two-places", "%s arrives on node %d %d times", name(col, idx).c_str(), me(), 2 - r.flying);
      known = true;
      r.flying--; r.live++; r.where = me();
      vsim_log("%s arrives", name(col, idx).c_str());
      vsim_probe("move");
    }
    if (r.sum != sum) vsim_fail("state", "%s has lost its state on the way", name(col, idx).c_str());
  }
};

template <class I> void sendTo(int col, int idx, uint64_t key, int hops, uint64_t from, bool quiet) {
  using E = Elm<I>;
  auto& o = S();
  auto id = (int)o.sent.size();
  o.sent.push_back({col, idx});
  o.outstanding++;
  vt::CollectionProxy<E, I> p{(vt::VirtualProxyType)o.cols[(std::size_t)col].proxy};
  auto e = p(Ix<I>::mk(idx));
  vsim_log("send %d to %s", id, name(col, idx).c_str());
  if (key % 3) {
    auto m = vt::makeMessage<Work<E>>();
    m->id = id; m->key = key; m->hops = hops; m->from = from; m->fromNode = me(); m->quiet = quiet;
    fill(m->d, sizeof m->d, key);
    e.template sendMsg<&E::plain>(m);
  } else {
    auto m = vt::makeMessage<Ser<E>>();
    m->id = id; m->key = key; m->hops = hops; m->from = from; m->fromNode = me(); m->quiet = quiet;
    m->v.resize(key % 3000);
    fill(m->v.data(), m->v.size(), key);
    e.template sendMsg<&E::ser>(m);
  }
}
void sendAny(int col, int idx, uint64_t key, int hops, uint64_t from, bool quiet) {
  if (S().cols[(std::size_t)col].two) sendTo<vt::Index2D>(col, idx, key, hops, from, quiet); else sendTo<vt::Index1D>(col, idx, key, hops, from, quiet);
}

// An object group that works as well
struct Obj {
  struct Msg : vt::Message { uint64_t key = 0; int hops = 0; bool quiet = false; };
  void work(Msg* m) {
    auto t0 = vt::timing::getCurrentTime().seconds();
    Rng g(m->key);
    vsim_advance((uint64_t)g.range(1, 20) * 10000);
    S().outstanding--;
    auto ph = phaseNow();
    if (m->hops > 0) { auto& o = S(); auto c = (int)g.range(0, (int64_t)o.cols.size() - 1); sendAny(c, (int)g.range(0, o.cols[(std::size_t)c].n - 1), g.next(), m->hops - 1, id, m->quiet); }
    vsim_touch();
    auto& p = S().obj[id][m->quiet ? ph : 99999];
    p.runs++;
    p.load += vt::timing::getCurrentTime().seconds() - t0;
  }
  uint64_t id = 0;
};

// ---- making collections
template <class I> NodeType cyclic(I* idx, I*, NodeType n) { return (NodeType)(Ix<I>::lin(*idx) % n); }
template <class I> NodeType oneMap(I*, I*, NodeType n) { return (NodeType)(n - 1); }
template <class I> void makeCol(int c) {
  using E = Elm<I>;
  auto& o = S();
  Rng g("collection", (uint64_t)c);
  Col d;
  d.two = not std::is_same_v<I, vt::Index1D>;
  d.n = d.two ? 3 * (int)g.range(1, 5) : (int)g.range(1, 16);
  bool rooted = g.chance(30);
  auto mapper = g.range(0, 2);
  auto maker = (int)g.range(0, nn() - 1);
  vt::CollectionProxy<E, I> p;
  if (o.cols.size() <= (std::size_t)c) { o.cols.resize((std::size_t)c + 1); }
  if (o.cols[(std::size_t)c].n == 0) o.cols[(std::size_t)c] = d;
  auto reg = [&](uint64_t proxy) { o.by_proxy[proxy] = c; o.cols[(std::size_t)c].proxy = proxy; };
  if (rooted) {
    vsim_probe("rooted");
    vt::runInEpochCollective([&] {
      if (me() != maker) return;
      auto q = vt::makeCollectionRooted<E>("col");
      q.bounds(Ix<I>::bounds(d.n)).bulkInsert();
      if (mapper == 1) q.template mapperFunc<cyclic<I>>(); else if (mapper == 2) q.template mapperFunc<oneMap<I>>();
      p = q.wait();
      reg((uint64_t)p.getProxy());
    });
  } else {
    auto q = vt::makeCollection<E>("col");
    q.bounds(Ix<I>::bounds(d.n)).bulkInsert();
    if (mapper == 1) q.template mapperFunc<cyclic<I>>(); else if (mapper == 2) q.template mapperFunc<oneMap<I>>();
    p = q.wait();
    reg((uint64_t)p.getProxy());
  }
  meet(("made" + std::to_string(c)).c_str());
}
template <class I> void localOf(int c, std::set<int>& got) {
  vt::CollectionProxy<Elm<I>, I> p{(vt::VirtualProxyType)S().cols[(std::size_t)c].proxy};
  for (auto& i : vt::theCollection()->getLocalIndices<Elm<I>>(p)) got.insert(Ix<I>::lin(i));
}

// ---- hooks
struct HookMsg : vt::Message { int hook, phase; };
char const* tn(PhaseHook t) { return t == PhaseHook::Start ? "start" : t == PhaseHook::DataCollection ? "data collection" : t == PhaseHook::End ? "end" : "end post-migration"; }
int phaseOf(Hook& h) { return (int)phaseNow() + (h.type == PhaseHook::Start ? 1 : 0); }
void hookMsg(HookMsg* m) {
  S().hooks[(std::size_t)m->hook].open[m->phase]--;
  vsim_touch();
}
void runHook(int id) {
  auto& o = S();
  auto& h = o.hooks[(std::size_t)id];
  auto ph = phaseOf(h);
  vsim_log("hook %d (%s %s) of phase %d", id, h.kind == 0 ? "collective" : h.kind == 1 ? "rooted" : "unsynchronized", tn(h.type), ph);
  vsim_probe(h.kind == 0 ? "hook-collective" : h.kind == 1 ? "hook-rooted" : "hook-unsync");
  if (not h.on) vsim_fail("hook-removed", "hook %d runs although it was removed", id);
  if (h.kind == 1 and me() != h.node) vsim_fail("hook-node", "hook %d of node %d runs on %d", id, h.node, me());
  if ((int)vt::thePhase()->getCurrentPhase() != ph) vsim_fail("phase", "the phase is %d in hook %d of phase %d", (int)vt::thePhase()->getCurrentPhase(), id, ph);
  if (not h.ran[ph].insert(me()).second) vsim_fail("hook-twice", "hook %d runs twice in phase %d", id, ph);
  for (auto& x : o.hooks) {
    if (x.id == id or not x.on or x.type != h.type) continue;
    bool before = x.kind == h.kind and (x.kind == 0 or x.node == me()) and x.order < h.order;
    // rooted hooks before collective hooks before unsynchronized ones
    if (x.kind != h.kind and (x.kind == 1 ? x.node == me() : x.kind == 0)) before = x.kind == 1 or h.kind == 2;
    if (not before) continue;
    if (not x.ran[ph].count(me())) vsim_fail("hook-order", "hook %d runs before hook %d, registered earlier", id, x.id);
    if (h.type == PhaseHook::DataCollection) continue;              // run together
    if (x.kind == 0) {
      if ((int)x.ran[ph].size() != nn()) vsim_fail("hook-order", "hook %d runs while hook %d has not run everywhere", id, x.id);
      if (x.open[ph] != 0) vsim_fail("hook-order", "hook %d runs while messages of the collective hook %d are under way", id, x.id);
    }
    if (x.kind == 1 and x.open[ph] != 0) vsim_fail("hook-order", "hook %d runs while messages of the rooted hook %d are under way", id, x.id);
  }
  Rng g("hook", (uint64_t)(id * 1000 + ph * 20 + me()));
  for (auto k = g.range(0, 2); k > 0; k--) {
    if (h.kind == 2) break;
    h.open[ph]++;
    auto m = vt::makeMessage<HookMsg>();
    m->hook = id; m->phase = ph;
    vt::theMsg()->sendMsg<hookMsg>((NodeType)g.range(0, nn() - 1), m);
  }
}
void addHooks(int round) {
  auto& o = S();
  Rng g("hooks", (uint64_t)round);
  PhaseHook types[] = {PhaseHook::Start, PhaseHook::DataCollection, PhaseHook::End, PhaseHook::EndPostMigration};
  auto cnt = g.range(0, 4);
  for (int i = 0; i < cnt; i++) {
    auto id = round * 10 + i;
    auto type = types[g.range(0, 3)];
    auto kind = (int)g.range(0, 5);
    kind = kind < 3 ? 0 : kind - 3;
    auto node = (int)g.range(0, nn() - 1);
    while (o.hooks.size() <= (std::size_t)id) { o.hooks.emplace_back(); o.hooks.back().id = (int)o.hooks.size() - 1; o.hooks.back().on = false; }
    auto& h = o.hooks[(std::size_t)id];
    h.kind = kind; h.node = node; h.type = type; h.order = id; h.on = true;
    if (kind == 0) hid.emplace(id, vt::thePhase()->registerHookCollective(type, [id] { runHook(id); }));
    else if (me() == node) hid.emplace(id, kind == 1 ? vt::thePhase()->registerHookRooted(type, [id] { runHook(id); }) : vt::thePhase()->registerHookUnsynchronized(type, [id] { runHook(id); }));
  }
}
void dropHook(int round) {
  auto& o = S();
  Rng g("drop", (uint64_t)round);
  if (not g.chance(30)) return;
  auto id = g.range(0, (int64_t)round * 10 + 9);
  meet(("drop" + std::to_string(round)).c_str());
  bool was = (std::size_t)id < o.hooks.size() and o.hooks[(std::size_t)id].on;
  meet(("dropped" + std::to_string(round)).c_str());
  if (not was) return;
  auto& h = o.hooks[(std::size_t)id];
  h.on = false;
  vsim_probe("hook-removed");
  if (h.kind == 0 or h.node == me()) vt::thePhase()->unregisterHook(hid.at((int)id));
}

// ---- options
int kindOf = -1, every = 1; bool first = false, selfMove = false;         // the balancer
bool balances(int phase) { return kindOf >= 0 and (phase % every == (first ? 0 : 1) or (every == 1 and phase != 0)); }
std::vector<std::string> lbOptions() {
  Rng g("lb", 0);
  std::vector<std::string> a;
  if (g.chance(5)) return a;
  a.push_back("--vt_lb");
  a.push_back("--vt_lb_quiet");
  std::string args;
  auto k = vsim_param("balancer", 0, 9);
  char const* nm;
  auto b = [&](char const* key) { if (g.chance(40)) args += std::string(key) + (g.chance(50) ? "=true " : "=false "); };
  auto thresholds = [&] {
    if (g.chance(50)) args += std::string("min=") + (g.chance(50) ? "0.0 " : "0.5 ");
    if (g.chance(50)) args += std::string("max=") + (g.chance(50) ? "0.9 " : "0.0 ");
    b("auto");
  };
  if (k == 0) nm = "RotateLB";
  else if (k == 1) nm = "TestSerializationLB";
  else if (k == 2) { nm = "RandomLB"; if (g.chance(50)) args += "seed=" + std::to_string(g.range(0, 1000)) + " "; b("randomize_seed"); }
  else if (k <= 4) { nm = "GreedyLB"; thresholds(); if (g.chance(70)) args += std::string("strategy=") + (char const*[]){"scatter", "pt2pt", "bcast"}[g.range(0, 2)] + " "; }
  else if (k <= 6) { nm = "HierarchicalLB"; thresholds(); if (g.chance(70)) args += std::string("strategy=") + (char const*[]){"LoadOverLessThan", "LoadOverGreaterThan", "LoadOverOneEach"}[g.range(0, 2)] + " "; }
  else {
    nm = k == 9 ? "TemperedWMin" : "TemperedLB";
    auto kn = g.range(0, 3);
    if (kn == 1 and nn() > 1) args += "knowledge=Complete ";
    if (kn == 2) args += "knowledge=UserDefined fanout=" + std::to_string(g.range(1, 3)) + " rounds=" + std::to_string(g.range(1, 3)) + " ";
    if (kn == 3) args += "knowledge=Log ";
    args += "iters=" + std::to_string(g.range(1, 3)) + " trials=" + std::to_string(g.range(1, 2)) + " ";
    if (g.chance(50)) args += std::string("criterion=") + (g.chance(50) ? "Grapevine " : "ModifiedGrapevine ");
    bool async = g.chance(50);
    args += async ? "inform=AsyncInform " : "inform=SyncInform ";
    auto tr = vsim_param("transfer", 0, 2);
    if (tr < 2) args += std::string("transfer=") + (char const*[]){"Original", "SwapClusters"}[tr] + " ";
    memory = tr == 1;
    if (memory) args += "memory_threshold=100000000 ";
    auto od = g.range(0, 4);
    args += std::string("ordering=") + (char const*[]){"Arbitrary", "ElmID", "FewestMigrations", "SmallObjects", "LargestObjects"}[od] + " ";
    if (g.chance(50)) args += std::string("cmf=") + (char const*[]){"Original", "NormByMax", "NormByMaxExcludeIneligible"}[g.range(0, 2)] + " ";
    args += async or od == 0 ? "deterministic=false " : g.chance(50) ? "deterministic=true " : "deterministic=false ";
    b("rollback"); b("targetpole");
    if (nm == std::string("TemperedWMin") or g.chance(30)) args += "beta=0.0001 gamma=0.5 ";
  }
  a.push_back(std::string("--vt_lb_name=") + nm);
  vsim_probe(nm);
  vsim_log("balancer %s %s", nm, args.c_str());
  while (not args.empty() and args.back() == ' ') args.pop_back();
  if (not args.empty()) a.push_back("--vt_lb_args=" + args);
  kindOf = (int)k;
  every = (int)g.range(1, 3);
  if (every == 1 and not g.chance(50)) every = 2;
  first = g.chance(40);
  selfMove = k == 1 or g.chance(20);
  a.push_back("--vt_lb_interval=" + std::to_string(every));
  if (first) a.push_back("--vt_lb_run_lb_first_phase");
  if (selfMove) a.push_back("--vt_lb_self_migration");
  return a;
}
void setModel() {
  auto base = vt::theLBManager()->getBaseLoadModel();
  auto k = vsim_param("model", 0, 6);
  if (k == 1) vt::theLBManager()->setLoadModel(std::make_shared<bal::PersistenceMedianLastN>(base, 3));
  if (k == 2) vt::theLBManager()->setLoadModel(std::make_shared<bal::LinearModel>(base, 2));
  if (k == 3) vt::theLBManager()->setLoadModel(std::make_shared<bal::NaivePersistence>(std::make_shared<bal::CommOverhead>(std::make_shared<bal::RawData>(), 1e-6, 1e-9)));
  if (k == 4) vt::theLBManager()->setLoadModel(std::make_shared<bal::Norm>(base, 2.0));
  if (k != 0) vsim_probe("model");
}

// ---- what was recorded
void readLoads(uint64_t phase) {
  auto& o = S();
  auto all = vt::theNodeLBData()->getNodeLoad();
  auto it = all->find(phase);
  if (it == all->end()) vsim_fail("load-phase", "no loads of phase %llu", (unsigned long long)phase);
  for (auto& kv : it->second) {
    std::vector<double> sub(kv.second.subphase_loads.begin(), kv.second.subphase_loads.end());
    o.total[phase][me()] += kv.second.whole_phase_load;
    auto& v = o.seen[{phase, kv.first.id}];
    v.push_back({me(), kv.second.whole_phase_load, sub});
  }
  // communication, where the receiver was
  auto comms = vt::theNodeLBData()->getNodeComm();
  auto ct = comms->find(phase);
  for (auto& c : o.cols) for (auto& kv : c.elms) {
    auto& r = kv.second;
    bool here = false;
    for (auto& x : it->second) if (x.first.id == r.id) here = true;
    if (not here) continue;
    auto p = r.ph.find(phase);
    std::map<Edge, Vol> got;
    if (ct != comms->end()) for (auto& x : ct->second) {
      if (x.first.commCategory() != vt::elm::CommCategory::SendRecv or x.first.toObj().id != r.id) continue;
      auto& v = got[Edge{(int)vt::elm::CommCategory::SendRecv, x.first.fromObj().id, r.id, -1, -1}];
      v.n += (int)x.second.messages; v.bytes += x.second.bytes;
    }
    std::map<Edge, Vol> none;
    auto& want = p == r.ph.end() ? none : p->second.comm;
    auto nm = name((int)(&c - &o.cols[0]), kv.first);
    for (auto& w : want) {
      auto g = got.find(w.first);
      if (g == got.end()) vsim_fail("comm-lost", "phase %llu: %d messages from %llx to %s are not recorded", (unsigned long long)phase, w.second.n, (unsigned long long)std::get<1>(w.first), nm.c_str());
      if (g->second.n != w.second.n) vsim_fail("comm-count", "phase %llu: %d messages from %llx to %s, recorded are %d", (unsigned long long)phase, w.second.n, (unsigned long long)std::get<1>(w.first), nm.c_str(), g->second.n);
      if (g->second.bytes < w.second.bytes) vsim_fail("comm-volume", "phase %llu: %.0f bytes from %llx to %s, recorded are %.0f", (unsigned long long)phase, w.second.bytes, (unsigned long long)std::get<1>(w.first), nm.c_str(), g->second.bytes);
      got.erase(g);
      vsim_probe("edge");
    }
    std::set<uint64_t> known;
    for (auto& cc : o.cols) for (auto& e : cc.elms) known.insert(e.second.id);
    for (auto& g : got) if (known.count(std::get<1>(g.first))) vsim_fail("comm-extra", "phase %llu: %d messages from %llx to %s are recorded, but none were sent", (unsigned long long)phase, g.second.n, (unsigned long long)std::get<1>(g.first), nm.c_str());
  }
}
void judgeLoads(uint64_t phase) {
  auto& o = S();
  for (auto& c : o.cols) for (auto& kv : c.elms) {
    auto& r = kv.second;
    if (not r.made) continue;
    auto nm = name((int)(&c - &o.cols[0]), kv.first);
    auto s = o.seen.find({phase, r.id});
    if (s == o.seen.end()) vsim_fail("load-lost", "no load of %s in phase %llu", nm.c_str(), (unsigned long long)phase);
    if (s->second.size() != 1) vsim_fail("load-twice", "the load of %s in phase %llu is recorded on %zu nodes", nm.c_str(), (unsigned long long)phase, s->second.size());
    auto& got = s->second[0];
    auto p = r.ph.find(phase);
    double want = p == r.ph.end() ? 0 : p->second.load, eps = 2e-6 * (p == r.ph.end() ? 1 : p->second.runs + 1);
    if (not near(got.load, want, eps)) vsim_fail("load", "load of %s in phase %llu is %.9f, its handlers took %.9f", nm.c_str(), (unsigned long long)phase, got.load, want);
    double sum = 0;
    for (std::size_t i = 0; i < got.sub.size(); i++) {
      sum += got.sub[i];
      double w = 0;
      if (p != r.ph.end()) { auto it = p->second.sub.find((int)i); if (it != p->second.sub.end()) w = it->second; }
      if (not near(got.sub[i], w, eps)) vsim_fail("load-subphase", "load of %s in phase %llu, subphase %zu is %.9f, its handlers took %.9f", nm.c_str(), (unsigned long long)phase, i, got.sub[i], w);
    }
    if (not near(sum, got.load, 1e-9)) vsim_fail("load-sum", "load of %s in phase %llu is %.9f, its subphases sum to %.9f", nm.c_str(), (unsigned long long)phase, got.load, sum);
    vsim_probe("load");
  }
  // the statistics are those of the recorded loads, before and after balancing
  auto info = vt::theLBManager()->getPhaseInfo();
  auto stat = [&](char const* when, double max, double avg) {
    double sum = 0, big = 0;
    for (auto& kv : o.total[phase]) { sum += kv.second; big = std::max(big, kv.second); }
    if (not near(max, big, 1e-9 + big * 1e-9) or not near(avg, sum / nn(), 1e-9 + sum * 1e-9)) vsim_fail("load-statistics", "phase %llu %s balancing: largest load %.9f and mean %.9f, reported are %.9f and %.9f", (unsigned long long)phase, when, big, sum / nn(), max, avg);
    vsim_probe("statistics");
  };
  stat("before", info->max_load, info->avg_load);
  if (info->ran_lb) {
    for (auto& kv : o.before[(int)phase]) {
      auto& r = o.cols[(std::size_t)kv.first.first].elms[kv.first.second];
      auto s = o.seen.find({phase, r.id});
      if (s == o.seen.end()) continue;
      o.total[phase][kv.second.first] -= s->second[0].load;
      o.total[phase][r.where] += s->second[0].load;
    }
    bool all = true;
    for (auto& c : o.cols) if ((int)c.elms.size() != c.n) all = false;
    if (all) stat("after", info->max_load_post_lb, info->avg_load_post_lb);
  }
  for (auto& kv : o.obj) {
    auto p = kv.second.find(phase);
    auto s = o.seen.find({phase, kv.first});
    if (p == kv.second.end() or p->second.runs == 0) continue;
    if (s == o.seen.end()) vsim_fail("load-lost", "no load of object group %llx in phase %llu", (unsigned long long)kv.first, (unsigned long long)phase);
    if (not near(s->second[0].load, p->second.load, 2e-6 * (p->second.runs + 1))) vsim_fail("load", "load of an object in phase %llu is %.9f, its handlers took %.9f", (unsigned long long)phase, s->second[0].load, p->second.load);
    vsim_probe("load-object");
  }
}

void rank() {
  init(0, lbOptions());
  vt::theTerm()->produce();
  auto& o = S();
  o.phase_of[me()] = 0;
  setModel();
  if (loads) vt::thePhase()->registerHookCollective(PhaseHook::EndPostMigration, [] { readLoads(vt::thePhase()->getCurrentPhase()); });
  int ncols = (int)vsim_param("collections", 1, 3), phases = (int)vsim_param("phases", 1, 5), msgs = (int)vsim_param("messages", 0, 20);
  std::vector<vt::objgroup::proxy::Proxy<Obj>> objs;
  auto makeObj = [&] {
    auto p = vt::theObjGroup()->makeCollective<Obj>("obj");
    p.get()->id = vt::elm::ElmIDBits::createObjGroup(p.getProxy(), (NodeType)me()).id;
    o.obj[p.get()->id];
    objs.push_back(p);
  };
  int made = 0;
  for (int ph = 0; ph < phases; ph++) {
    Rng c("grow", (uint64_t)ph);
    while (made < ncols and (ph == 0 ? made == 0 or c.chance(70) : c.chance(50))) {
      if (c.chance(30)) makeCol<vt::Index2D>(made); else makeCol<vt::Index1D>(made);
      made++;
      if (ph > 0) vsim_probe("made-later");
    }
    if (c.chance(40)) { makeObj(); meet(("obj" + std::to_string(ph)).c_str()); }
    addHooks(ph);
    dropHook(ph);
    meet(("begin" + std::to_string(ph)).c_str());
    o.balanced = false;
    // work; sometimes it is still under way when the phase ends
    bool quiet = c.chance(loads ? 100 : 60);
    bool subs = c.chance(50);
    for (int sp = 0; sp < (subs ? 3 : 1); sp++) {
      if (quiet ? subs or ph > 0 or memory : memory and sp == 0) {
        for (int k = 0; k < made; k++) for (int i = 0; i < o.cols[(std::size_t)k].n; i++) {
          if ((i + k) % nn() != me()) continue;
          o.outstanding++;
          auto set = [&](auto ix) {
            using I = decltype(ix);
            vt::CollectionProxy<Elm<I>, I> p{(vt::VirtualProxyType)o.cols[(std::size_t)k].proxy};
            auto m = vt::makeMessage<SubMsg<Elm<I>>>();
            m->sub = sp;
            p(Ix<I>::mk(i)).template sendMsg<&Elm<I>::subphase>(m);
          };
          if (o.cols[(std::size_t)k].two) set(vt::Index2D{}); else set(vt::Index1D{});
        }
        meet(("sub" + std::to_string(ph * 10 + sp)).c_str());
        pumpUntil([&] { return o.outstanding == 0; });
        meet(("subbed" + std::to_string(ph * 10 + sp)).c_str());
      }
      for (int i = 0; i < msgs; i++) {
        auto op = (uint64_t)(((ph * 3 + sp) * 40 + i) * 10 + me());
        if (not vsim_op_on(op)) continue;
        Rng g("work", op);
        auto k = (int)g.range(0, made - 1);
        auto idx = (int)g.range(0, o.cols[(std::size_t)k].n - 1);
        auto hops = (int)g.range(0, 4);
        if (not objs.empty() and g.chance(25)) {
          auto m = vt::makeMessage<Obj::Msg>();
          m->key = g.next(); m->hops = hops; m->quiet = quiet;
          o.outstanding++;
          objs[(std::size_t)g.range(0, (int64_t)objs.size() - 1)][(NodeType)g.range(0, nn() - 1)].send<Obj::Msg, &Obj::work>(m);
        } else {
          sendAny(k, idx, g.next(), hops, 0, quiet);
        }
        if (g.chance(10)) vt::theSched()->runSchedulerOnceImpl();
      }
      if (quiet) {
        meet(("sent" + std::to_string(ph * 10 + sp)).c_str());
        pumpUntil([&] { return o.outstanding == 0; });
        meet(("done" + std::to_string(ph * 10 + sp)).c_str());
      }
    }
    if (not quiet) vsim_probe("busy-phase-change");
    if (loads and c.chance(30)) vt::thePhase()->addUserDefinedData((vt::PhaseType)ph, "phase", ph);
    meet(("worked" + std::to_string(ph)).c_str());
    for (int k = 0; k < made; k++) for (auto& kv : o.cols[(std::size_t)k].elms) if (kv.second.made) o.before[ph].emplace(std::make_pair(k, kv.first), std::make_pair(kv.second.where, kv.second.moves));
    meet(("noted" + std::to_string(ph)).c_str());
    o.balanced = true;
    vt::thePhase()->nextPhaseCollective();
    // all nodes have run all hooks of this phase
    for (auto& h : o.hooks) {
      if (not h.on) continue;
      int hp = h.type == PhaseHook::Start ? ph + 1 : ph;
      auto& ran = h.ran[hp];
      if (h.kind == 0 ? (int)ran.size() != nn() : not ran.count(h.node)) vsim_fail("hook-lost", "hook %d (%s) did not run in phase %d on %s", h.id, tn(h.type), hp, h.kind == 0 ? "all nodes" : "its node");
    }
    o.phase_of[me()] = ph + 1;
    if ((int)vt::thePhase()->getCurrentPhase() != ph + 1) vsim_fail("phase", "the phase is %d after phase %d", (int)vt::thePhase()->getCurrentPhase(), ph);
    meet(("after" + std::to_string(ph)).c_str());
    pumpUntil([&] { return o.outstanding == 0; });
    meet(("empty" + std::to_string(ph)).c_str());
    // every element is in one place
    for (int k = 0; k < made; k++) {
      std::set<int> got;
      if (o.cols[(std::size_t)k].two) localOf<vt::Index2D>(k, got); else localOf<vt::Index1D>(k, got);
      for (int i = 0; i < o.cols[(std::size_t)k].n; i++) {
        auto& r = o.cols[(std::size_t)k].elms[i];
        o.found[{ph, k, i}] += (int)got.count(i);
        if (r.flying != 0) vsim_fail("lost-element", "%s is still moving after phase %d", name(k, i).c_str(), ph);
        if (r.made and (r.where == me()) != (got.count(i) == 1)) vsim_fail("two-places", "%s is on node %d, but node %d %s it after phase %d", name(k, i).c_str(), r.where, me(), got.count(i) ? "has" : "lacks", ph);
      }
    }
    meet(("found" + std::to_string(ph)).c_str());
    for (int k = 0; k < made; k++) for (int i = 0; i < o.cols[(std::size_t)k].n; i++) {
      auto f = o.found[{ph, k, i}];
      if (f != 1) vsim_fail(f ? "duplicate-element" : "lost-element", "%s is on %d nodes after phase %d", name(k, i).c_str(), f, ph);
    }
    // what the runtime reports is what happened
    auto info = vt::theLBManager()->getPhaseInfo();
    int moved = 0;
    for (auto& kv : o.before[ph]) moved += o.cols[(std::size_t)kv.first.first].elms[kv.first.second].moves - kv.second.second;
    bool all = true;                                 // of all elements it is known where they were
    for (int k = 0; k < made; k++) for (auto& kv : o.cols[(std::size_t)k].elms) if (not o.before[ph].count({k, kv.first})) all = false;
    for (int k = 0; k < made; k++) if ((int)o.cols[(std::size_t)k].elms.size() != o.cols[(std::size_t)k].n) all = false;
    if (info->ran_lb != balances(ph)) vsim_fail("balancer-run", "a balancer %s in phase %d", info->ran_lb ? "ran" : "did not run", ph);
    if (all and info->migration_count != moved) vsim_fail("migration-count", "%d migrations are reported in phase %d, %d elements moved", (int)info->migration_count, ph, moved);
    if (all) vsim_probe("count");
    // the balancer ran in the phases it was configured for, and those with a
    // fixed rule did what they promise
    if (me() == 0) for (auto& kv : o.before[ph]) {
      auto& r = o.cols[(std::size_t)kv.first.first].elms[kv.first.second];
      auto nm = name(kv.first.first, kv.first.second);
      int was = kv.second.first, moves = r.moves - kv.second.second;
      if (not balances(ph)) { if (moves) vsim_fail("unasked", "%s migrates in phase %d, in which no balancer was to run", nm.c_str(), ph); continue; }
      if (moves > 1) vsim_fail("moved-twice", "%s migrates %d times in phase %d", nm.c_str(), moves, ph);
      if (was == r.where and moves and not selfMove) vsim_fail("moved-home", "%s migrates to where it is in phase %d", nm.c_str(), ph);
      if (kindOf == 0 and r.where != (was + 1) % nn()) vsim_fail("placement", "RotateLB leaves %s of node %d on %d in phase %d", nm.c_str(), was, r.where, ph);
      if (kindOf == 1 and (r.where != was or moves != 1)) vsim_fail("placement", "TestSerializationLB moves %s of node %d to %d in phase %d (%d moves)", nm.c_str(), was, r.where, ph, moves);
      vsim_probe("balanced");
    }
    if (loads) {
      // what the load model looks back at is kept, what is older is released
      int keep = (int[]){1, 3, 2, 1, 1, 1, 1}[vsim_param("model", 0, 6)];
      auto d = vt::theNodeLBData()->getLBData();
      auto kept = [&](char const* what, auto const& m, bool mustHave) {
        for (auto& kv : m) if ((int)kv.first + keep <= ph) vsim_fail("retention", "after phase %d, the %s of phase %d is still there (the model needs %d phases)", ph, what, (int)kv.first, keep);
        if (mustHave) for (int p = std::max(0, ph - keep + 1); p <= ph; p++) if (not m.count((vt::PhaseType)p)) vsim_fail("retention", "after phase %d, the %s of phase %d is gone (the model needs %d phases)", ph, what, p, keep);
      };
      kept("load", d->node_data_, true);
      kept("communication", d->node_comm_, false);
      kept("communication per subphase", d->node_subphase_comm_, false);
      kept("element's own data", d->user_defined_json_, false);
      kept("phase's own data", d->user_per_phase_json_, false);
      kept("data for the balancer", d->user_defined_lb_info_, false);
      vsim_probe("retention");
    }
    if (loads and me() == 0) judgeLoads((uint64_t)ph);
    meet(("judged" + std::to_string(ph)).c_str());
  }
  // all elements still answer
  for (int k = 0; k < made; k++) for (int i = 0; i < o.cols[(std::size_t)k].n; i++) if ((i + k) % nn() == me()) sendAny(k, i, (uint64_t)(k * 100 + i) * 7919, 0, 0, false);
  meet("last");
  pumpUntil([&] { return o.outstanding == 0; });
  meet("answered");
  vt::theTerm()->consume();
  vt::finalize();
  for (int k = 0; k < made; k++) for (auto& kv : o.cols[(std::size_t)k].elms) if (kv.second.made != 1) vsim_fail("lost-element", "%s was made %d times", name(k, kv.first).c_str(), kv.second.made);
}

} // namespace

WL_ENTRY {
  if (std::string(mode_c) == "record") return component::recordEntry(mode_c);   // one component only
  loads = std::string(mode_c) == "loads";
  rank();
  vsim_done();
}
