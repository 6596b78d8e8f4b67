// C24: one or several rounds of vt::initialize and vt::finalize in one
// process, on all nodes or on parts of them at once, with work of all kinds in
// flight when the runtime is told to stop.
#include "wl.h"
#include <mpi.h>
#include <vt/vrt/collection/manager.h>
#include <vt/timetrigger/time_trigger_manager.h>
#include <vt/vrt/collection/balance/read_lb.h>
#include <fstream>
using namespace wl;
using vt::NodeType;

namespace {

struct Round {
  int pending = 0, expected = 0, finalizing = 0; std::vector<char> up, fin; int size = 0;
  std::string last;
};
std::deque<Round>& rounds() { return shared<std::deque<Round>>("rounds"); }
int g_key = -1, g_rank = 0;             // round and part this node is in
int g_objs = 0;              // user objects of this node that live
int g_depth = 0;
// handlers run the scheduler (then no RDMA handles are made: their creation is a
// blocking MPI collective, which deadlocks with handlers that wait for each other)
bool g_nest = false;
bool g_coll = false;         // the round has a collection
bool g_move = false;         // whose elements migrate (and then get no broadcasts)
Round& R(int k) { auto& r = rounds(); while ((int)r.size() <= k) r.emplace_back(); return r[(std::size_t)k]; }
Round& R() { return R(g_key); }

void expect(int n = 1) { vsim_log("%d more", n); R().pending += n; R().expected += n; }
// something that was asked for in round `key` happens here
void done(int key, char const* what) {
  if (key != g_key) vsim_fail("round", "%s of round %d happens at node %d in round %d", what, key, me(), g_key);
  auto& r = R();
  if (not r.up[(std::size_t)me()]) vsim_fail("early", "%s happens at node %d before its runtime is up", what, me());
  if (r.fin[(std::size_t)me()]) vsim_fail("after", "%s happens at node %d after its shutdown", what, me());
  for (int i = 0; i < nn(); i++) if (r.fin[(std::size_t)i] == 1) vsim_fail("running", "%s happens at node %d while node %d has completed the shutdown", what, me(), i);
  vsim_log("%s happens, %d left", what, r.pending - 1);
  if (--r.pending < 0) vsim_fail("twice", "%s happens more often than asked for", what);
  r.last = what;
  vsim_touch();
}

struct Msg : vt::Message { int key, ttl; uint64_t seed; };
void act(Rng& g, int ttl);
void go(int key, uint64_t seed, int ttl, char const* what) {
  done(key, what);
  if (not vsim_op_on(seed % 4096)) return;
  Rng g(seed);
  if (g.chance(20)) vsim_advance((uint64_t)g.range(1, 40000));
  act(g, ttl);
  if (ttl > 2 and g.chance(20)) act(g, ttl - 2);
}
void han(Msg* m) { go(m->key, m->seed, m->ttl, "a message"); }
void bhan(Msg* m) { go(m->key, vsim_hash("b", m->seed + (uint64_t)me()), m->ttl, "a broadcast"); }

struct Counted { Counted() { g_objs++; } Counted(Counted const&) { g_objs++; } ~Counted() { g_objs--; } };
struct Obj {
  Counted c;
  void han(Msg* m) { go(m->key, m->seed, m->ttl, "a message to an object"); }
  void bhan(Msg* m) { go(m->key, vsim_hash("ob", m->seed + (uint64_t)me()), m->ttl, "a broadcast to objects"); }
};
struct Elm : vt::Collection<Elm, vt::Index1D> {
  Counted c;
  void han(int key, int ttl, uint64_t seed) {
    go(key, seed, ttl, "a message to an element");
    if (g_move and seed % 23 == 0 and vsim_op_on((seed >> 3) % 4096)) { vsim_probe("migrate"); this->migrate((NodeType)(seed / 23 % (uint64_t)vt::theContext()->getNumNodes())); }
  }
  void bhan(int key, int ttl, uint64_t seed) { go(key, vsim_hash("eb", seed + (uint64_t)this->getIndex().x()), ttl, "a broadcast to elements"); }
};
vt::objgroup::proxy::Proxy<Obj> g_obj;
vt::CollectionProxy<Elm, vt::Index1D> g_elms;
int g_nelm = 0;


struct CbMsg : Msg { vt::Callback<Msg> cb; };
void called(Msg* m) { go(m->key, m->seed, m->ttl, "a callback"); }
void cbhan(CbMsg* m) {
  auto x = vt::makeMessage<Msg>(); x->key = m->key; x->ttl = m->ttl - 1; x->seed = m->seed + 1;
  expect();
  m->cb.sendMsg(x.get());
  go(m->key, m->seed, m->ttl, "a message with a callback");
}
void ghan(Msg* m) { go(m->key, vsim_hash("g", m->seed + (uint64_t)me()), m->ttl, "a multicast"); }
void act(Rng& g, int ttl) {
  if (ttl <= 0) return;
  auto n = (int)vt::theContext()->getNumNodes();
  auto make = [&] { auto m = vt::makeMessage<Msg>(); m->key = g_key; m->ttl = ttl - 1; m->seed = g.next(); return m; };
  auto k = g.range(0, 15);
  if (k <= 3) { expect(); vt::theMsg()->sendMsg<han>((NodeType)g.range(0, n - 1), make()); }
  else if (k == 4) { auto m = make(); m->ttl = ttl / 2 - 1; expect(n); vt::theMsg()->broadcastMsg<bhan>(m); vsim_probe("broadcast"); }
  else if (k == 5) { expect(); g_obj[(NodeType)g.range(0, n - 1)].template send<Msg, &Obj::han>(make()); vsim_probe("objgroup"); }
  else if (k == 6) { auto m = make(); m->ttl = ttl / 2 - 1; expect(n); g_obj.template broadcast<Msg, &Obj::bhan>(m); vsim_probe("objgroup-broadcast"); }
  else if (k == 7 and g_coll) { expect(); g_elms[(int)g.range(0, g_nelm - 1)].template send<&Elm::han>(g_key, ttl - 1, g.next()); vsim_probe("element"); }
  else if (k == 8 and g_coll and not g_move) { expect(g_nelm); g_elms.template broadcast<&Elm::bhan>(g_key, ttl / 2 - 1, g.next()); vsim_probe("element-broadcast"); }
  else if (k == 9) {
    auto ep = vt::theTerm()->makeEpochRooted("r", vt::term::UseDS{g.chance(50)});
    bool first = g.chance(50);
    auto key = g_key; auto seed = g.next(); auto t = ttl - 1;
    auto action = [key, seed, t] { go(key, seed, t, "an action of an epoch"); };
    expect();
    if (first) vt::theTerm()->addAction(ep, action);
    vt::theMsg()->pushEpoch(ep);
    act(g, ttl - 1);
    vt::theMsg()->popEpoch(ep);
    vt::theTerm()->finishedEpoch(ep);
    if (not first) vt::theTerm()->addAction(ep, action);
    vsim_probe("epoch");
  }
  else if (k == 10) { expect(); auto key = g_key; auto seed = g.next(); auto t = ttl - 1; vt::theSched()->enqueue([key, seed, t] { go(key, seed, t, "a unit"); }); vsim_probe("unit"); }
  else if (k == 11 and n > 1) {
    std::vector<NodeType> v;
    for (int i = 0; i < n; i++) if (g.chance(60)) v.push_back((NodeType)i);
    if (v.empty()) v.push_back((NodeType)g.range(0, n - 1));
    auto key = g_key; auto seed = g.next(); auto size = (int)v.size(); auto t = ttl / 2 - 1;
    expect();
    vt::theGroup()->newGroup(std::make_unique<vt::group::region::List>(v), [=](vt::GroupType id) {
      done(key, "an action of a group");
      auto m = vt::makeMessage<Msg>();
      m->key = key; m->ttl = t; m->seed = seed;
      vt::envelopeSetGroup(m->env, id);
      expect(size);
      vt::theMsg()->broadcastMsg<ghan>(m);
    });
    vsim_probe("multicast");
  }
  else if (k == 12) {
    auto m = vt::makeMessage<CbMsg>();
    m->key = g_key; m->ttl = ttl - 1; m->seed = g.next();
    if (g.chance(50)) m->cb = vt::theCB()->makeSend<called>((NodeType)g.range(0, n - 1));
    else m->cb = vt::theCB()->makeFunc<Msg>(vt::pipe::LifetimeEnum::Once, [](Msg* x) { called(x); });
    expect();
    vt::theMsg()->sendMsg<cbhan>((NodeType)g.range(0, n - 1), m);
    vsim_probe("callback");
  }
  else if (g_nest and g_depth < 2 and g.chance(30)) {
    g_depth++;
    vt::runInEpochRooted([&] { act(g, ttl - 1); });
    g_depth--;
    vsim_probe("nested scheduler");
  } else act(g, ttl - 1);
}

// a reduction over the nodes of the round: the sum of their ranks
void total(int sum) {
  done(g_key, "a reduction");
  auto n = (int)vt::theContext()->getNumNodes();
  if (sum != 7 * n + n * (n - 1) / 2) vsim_fail("sum", "a reduction over %d nodes gives %d", n, sum);
}

// what all nodes of the round do in the same order
void together(Rng& h, Rng& g, bool pumps) {
  auto k = h.range(0, 8);
  auto n = (int)vt::theContext()->getNumNodes();
  auto root = (NodeType)h.range(0, n - 1);
  bool wave = h.chance(50);
  if (k <= 1) {
    if ((int)root == g_rank) expect();
    vt::theCollective()->global()->reduce<total, vt::collective::PlusOp>(vt::Node{root}, 7 + g_rank);
    vsim_probe("reduction");
  } else if (k <= 3) {
    auto ep = vt::theTerm()->makeEpochCollective("c");
    expect();
    auto key = g_key; auto seed = g.next();
    if (wave) vt::theTerm()->addAction(ep, [key, seed] { go(key, seed, 3, "an action of a collective epoch"); });
    vt::theMsg()->pushEpoch(ep);
    act(g, 4);
    vt::theMsg()->popEpoch(ep);
    vt::theTerm()->finishedEpoch(ep);
    if (not wave) vt::theTerm()->addAction(ep, [key, seed] { go(key, seed, 3, "an action of a collective epoch"); });
    vsim_probe("collective epoch");
  } else if (not pumps) {
    act(g, 3);
  } else if (k == 4) {
    vt::theCollective()->barrier();
  } else if (k == 5) {
    vt::runInEpochCollective([&] { act(g, 5); });
    vsim_probe("waited epoch");
  } else if (k == 6) {
    vt::thePhase()->nextPhaseCollective();
    vsim_probe("phase");
  } else if (k == 8 and not g_nest) {
    auto len = (std::size_t)h.range(1, 40);
    auto hd = g_obj.template makeHandleRDMA<int>(len, true);
    pumpUntil([&] { return hd.ready(); });
    hd.modifyExclusive([&](int* p, std::size_t x) { for (std::size_t i = 0; i < x; i++) p[i] = 100 * g_key + g_rank; });
    vt::theCollective()->barrier();
    std::vector<int> v(len);
    int from = (int)g.range(0, n - 1);
    hd.get((NodeType)from, v.data(), len, 0, vt::Lock::Shared);
    for (auto x : v) if (x != 100 * g_key + from) vsim_fail("handle", "node %d reads %d from the memory of node %d, which holds %d", g_rank, x, from, 100 * g_key + from);
    vt::theCollective()->barrier();
    g_obj.destroyHandleRDMA(hd);
    vsim_probe("handle");
  } else if (not g_coll) {
    g_nelm = (int)h.range(1, 12);
    g_elms = vt::makeCollection<Elm>("elms").bounds(vt::Index1D(g_nelm)).bulkInsert().wait();
    // messages may be sent to elements as soon as any node has the proxy
    vt::theCollective()->barrier();
    g_coll = true;
    vsim_probe("collection");
  }
}

void round(int r, bool interop, int parts) {
  Rng h("round", (uint64_t)r);
  std::vector<int> colors((std::size_t)nn());
  for (auto& c : colors) c = parts == 1 ? 0 : (int)h.range(0, parts - 1);
  bool shuffled = interop and h.chance(30), dup = interop and h.chance(50);
  int color = colors[(std::size_t)me()];
  // a node may sit out a round
  MPI_Comm comm = MPI_COMM_WORLD;
  bool own = interop and (parts > 1 or shuffled or dup);
  auto keyOf = [&](int w) { return shuffled ? nn() - w : w; };
  if (own and not shuffled and parts == 1) MPI_Comm_dup(MPI_COMM_WORLD, &comm);
  else if (own) MPI_Comm_split(MPI_COMM_WORLD, color, keyOf(me()), &comm);
  if (parts > 1 and color == 0 and h.chance(30)) { vsim_probe("sits out"); MPI_Comm_free(&comm); return; }
  g_key = r * 4 + color;
  g_rank = 0;
  int size = 0;
  for (int w = 0; w < nn(); w++) if (colors[(std::size_t)w] == color) { size++; if (keyOf(w) < keyOf(me())) g_rank++; }
  auto& st = R();
  if (st.up.empty()) { st.up.assign((std::size_t)nn(), 0); st.fin.assign((std::size_t)nn(), 0); st.size = size; }
  Rng hc("together", (uint64_t)g_key);                        // same on all nodes of the part
  Rng g("own", (uint64_t)(g_key * 64 + me()));
  // start, with arguments of the user between those of the runtime
  static std::deque<std::vector<char>> store;
  static std::deque<std::vector<char*>> argvs;
  auto opts = options(0, {});
  std::vector<std::string> mine = {opts[0]};
  auto value = (int)hc.range(1, 100000);
  opts.push_back("--vt_user_int_1=" + std::to_string(value));
  if (hc.chance(30)) opts.push_back("--vt_lb_data_dir=" + std::string("round") + std::to_string(r));
  int lb = (int)hc.range(-3, 2);
  if (lb >= 0) {
    auto f = "lb" + std::to_string(g_key);
    { std::ofstream o(f); o << "0 " << (lb == 0 ? "RotateLB" : lb == 1 ? "GreedyLB" : "NoLB") << "\n"; }
    opts.push_back("--vt_lb");
    opts.push_back("--vt_lb_quiet");
    opts.push_back("--vt_lb_file_name=" + f);
    vsim_probe("LB file");
  }
  for (auto n = hc.range(0, 3); n > 0; n--) {
    auto s = std::string(hc.chance(50) ? "--user" : "name") + std::to_string(n);
    mine.push_back(s);
  }
  { // some of the user's arguments, then the runtime's, some more of the user's after --, more of the runtime's after --vt_args ...
    std::vector<std::string> all = {opts[0]};
    std::size_t i = 1, j = 1;
    bool ours = false, ended = false;
    while (i < opts.size() or j < mine.size()) {
      bool take = j >= mine.size() or (i < opts.size() and hc.chance(80));
      if (not take and ours) { all.push_back("--"); ours = false; ended = true; }
      if (take and not ours) { if (ended or hc.chance(30)) all.push_back("--vt_args"); ours = true; }
      all.push_back(take ? opts[i++] : mine[j++]);
    }
    opts = all;
  }
  argvs.emplace_back();
  for (auto& s : opts) { store.emplace_back(s.begin(), s.end()); store.back().push_back(0); argvs.back().push_back(store.back().data()); }
  int argc = (int)opts.size();
  argvs.back().push_back(nullptr);
  char** argv = argvs.back().data();
  vt::arguments::AppConfig app;
  app.vt_user_int_2 = value + 1;
  bool withApp = hc.chance(30);
  vsim_log("round %d: initialize as node %d of %d", g_key, g_rank, size);
  st.up[(std::size_t)me()] = 1;
  auto rt = interop ? vt::initialize(argc, argv, &comm, withApp ? &app : nullptr) : vt::initialize(argc, argv, withApp ? &app : nullptr);
  if ((int)vt::theContext()->getNode() != g_rank or (int)vt::theContext()->getNumNodes() != size)
    vsim_fail("node", "node %d of %d starts as node %d of %d", g_rank, size, (int)vt::theContext()->getNode(), (int)vt::theContext()->getNumNodes());
  if (vt::theConfig()->vt_user_int_1 != value) vsim_fail("option", "--vt_user_int_1=%d is taken as %d", value, vt::theConfig()->vt_user_int_1);
  if (withApp and vt::theConfig()->vt_user_int_2 != value + 1) vsim_fail("option", "vt_user_int_2 of the given configuration is not used");
  if (not vt::theConfig()->vt_quiet) vsim_fail("option", "--vt_quiet is not used");
  if (lb >= 0) {
    using namespace vt::vrt::collection::balance;
    auto is = ReadLBConfig::getLB(0);
    if (is != (lb == 0 ? LBType::RotateLB : lb == 1 ? LBType::GreedyLB : LBType::NoLB)) vsim_fail("option", "the load balancer of phase 0 is %d, which is not that of the given file", (int)is);
  }
  if (argc != (int)mine.size()) vsim_fail("argc", "%d arguments remain of %zu", argc, mine.size());
  for (int i = 0; i < argc; i++) if (mine[(std::size_t)i] != argv[i]) vsim_fail("argv", "argument %d is '%s' and not '%s'", i, argv[i], mine[(std::size_t)i].c_str());
  if (argv[argc] != nullptr) vsim_fail("argv", "the arguments do not end with a null");
  if (st.fin[(std::size_t)me()]) vsim_fail("harness", "twice");

  g_coll = false;
  g_nest = hc.chance(50);
  g_move = hc.chance(50) and not g_nest; // an element cannot leave while a handler of its own is waiting in a nested scheduler
  bool hold = hc.chance(60);
  if (hold) vt::theTerm()->produce();
  g_obj = vt::theObjGroup()->makeCollective<Obj>("o");
  // messages may only be sent to the objects of nodes that made theirs, so that
  // the first ones wait for all nodes to be there
  if (hold) vt::theCollective()->barrier(); else vsim_probe("no scheduler before the shutdown");
  int triggers = 0;
  if (hc.chance(40)) {
    auto key = g_key;
    for (auto n = hc.range(1, 2); n > 0; n--)
      vt::theTimeTrigger()->addTrigger(vt::timing::getCurrentTime(), std::chrono::milliseconds(hc.range(0, 3)), [key] {
        auto& r = R(key);
        if (key != g_key or r.fin[(std::size_t)me()]) vsim_fail("after", "a time trigger of round %d fires at node %d in round %d%s", key, me(), g_key, r.fin[(std::size_t)me()] ? " after the shutdown" : "");
      }, hc.chance(50));
    triggers = 1;
  }
  auto steps = hc.range(0, 8);
  for (int i = 0; i < steps; i++) {
    together(hc, g, hold);
    for (auto k = g.range(0, 2); k > 0; k--) act(g, (int)g.range(1, 8));
    if (hold) for (auto k = g.range(0, 4); k > 0; k--) vt::theSched()->runSchedulerOnceImpl();
    if (g.chance(20)) vsim_advance((uint64_t)g.range(1, 300000));
  }
  // nodes may be late
  if (g.chance(20)) vsim_advance((uint64_t)g.range(1, 3000000));
  if (hold) vt::theTerm()->consume();
  if (st.pending) vsim_probe("work in flight");
  vsim_log("round %d: shutdown, %d pending", g_key, st.pending);
  st.fin[(std::size_t)me()] = 2;            // on its way
  st.finalizing++;
  auto way = hc.range(0, 3);
  st.fin[(std::size_t)me()] = 0;
  if (way == 0) vt::finalize();
  else if (way == 1) vt::finalize(std::move(rt));
  else if (way == 2) vt::CollectiveOps::scheduleThenFinalize();
  else vt::CollectiveOps::scheduleThenFinalize(std::move(rt));
  st.fin[(std::size_t)me()] = 1;
  vsim_log("round %d: shut down", g_key);
  if (st.finalizing != st.size) vsim_fail("alone", "node %d has completed the shutdown and %d nodes have not begun it", me(), st.size - st.finalizing);
  if (st.pending) vsim_fail("dropped", "node %d has completed the shutdown and %d of %d messages, actions and units have not run", me(), st.pending, st.expected);
  if (g_objs) vsim_fail("objects", "%d objects are left at node %d after the shutdown", g_objs, me());
  if (vt::curRT != nullptr) vsim_fail("runtime", "the runtime is left after the shutdown");
  auto open = vsim_mpi_open();
  if (open) vsim_fail("requests", "%d MPI requests of node %d are left after the shutdown", open, me());
  if (interop) {
    int f = 0; MPI_Finalized(&f);
    if (f) vsim_fail("mpi", "MPI is finalized by the runtime that did not initialize it");
    if (own) { MPI_Barrier(comm); MPI_Comm_free(&comm); }
  } else {
    int f = 0; MPI_Finalized(&f);
    if (not f) vsim_fail("mpi", "MPI is not finalized");
  }
  if (triggers) vsim_probe("time trigger");
}

} // namespace

WL_ENTRY {
  (void)mode_c;
  auto n = (int)vsim_param("rounds", 1, 3);
  bool interop = n > 1 or vsim_param("interop", 0, 1);
  auto parts = interop ? (int)vsim_param("parts", 1, 2) : 1;
  if (interop) MPI_Init(nullptr, nullptr);
  for (int r = 0; r < n; r++) { if (r) vsim_probe("again"); round(r, interop, parts); }
  if (interop) MPI_Finalize();
  vsim_done();
}
