// C03, mode "elements": chains of dependent steps over the elements of a
// collection (CollectionChainSet), with the chains kept where the elements are or
// at their homes, elements that migrate (inside of a step or between rounds),
// are inserted and destroyed (chains that are kept with the elements allow no
// migration inside of a step: the next node would add its step again), collective steps and steps that merge two chains.
// Oracle: one record per step, shared by the simulated nodes.
namespace cs {
using vt::NodeType;
using Idx = vt::Index2D;
struct Step { int64_t outstanding = 0; bool coll = false; std::set<int> fin; int made = 0, ran = 0; bool told = false; };
struct Place { int at = -1, home = -1, moves = 0; };
struct Model {
  std::deque<Step> steps;
  std::map<int64_t, int> coll_key;
  std::map<int, Place> elms;             // linear index
  std::set<int> used;                    // indices that existed once
  std::map<std::pair<int, int>, std::vector<int>> after;   // (set, element): the step it is at
  std::deque<int> units;
  int64_t live = 0, planned_moves = 0;
  int nx = 0, ny = 0, budget = 0;
};
Model& M() { return shared<Model>("chainset"); }
int newStep(bool coll) { M().steps.emplace_back(); M().steps.back().coll = coll; return (int)M().steps.size() - 1; }
int unit(int step) {
  auto& s = M().steps[step];
  if (s.told) vsim_fail("early-termination", "step %d was over, but work of it still creates work on node %d", step, me());
  s.outstanding++; M().live++;
  M().units.push_back(0);
  return (int)M().units.size() - 1;
}
void done(int step, int u) {
  if (++M().units[u] > 1) vsim_fail("duplicate", "a unit of step %d ran twice", step);
  M().steps[step].outstanding--; M().live--;
  vsim_touch();
}
void over(int step, char const* how) {
  auto& s = M().steps[step];
  if (s.outstanding) vsim_fail("chain-order", "%s on node %d while step %d has %ld unprocessed units", how, me(), step, (long)s.outstanding);
  if (s.coll and (int)s.fin.size() < nn()) vsim_fail("chain-order", "%s on node %d while step %d was added on only %d of %d nodes", how, me(), step, (int)s.fin.size(), nn());
  s.told = true;
}

struct Elm : vt::Collection<Elm, Idx> {
  int lin = -1;
  int count = 0;
  void main(int step, int u, int p1, int p2, int moveTo, int ttl, uint64_t sd);
  void sub(int step, int u, int ttl, uint64_t sd);
  template <class S> void serialize(S& s) { vt::Collection<Elm, Idx>::serialize(s); s | lin | count; }
};
vt::CollectionProxy<Elm> g_p;
Idx mk(int l) { return Idx(l / M().ny, l % M().ny); }
void plain(int step, int u, int ttl, uint64_t sd);
// more work of the step this runs in
void more(int step, int ttl, uint64_t sd) {
  Rng g(sd);
  if (ttl <= 0) return;
  auto n = (int)g.range(0, 2);
  for (int i = 0; i < n and M().budget > 0; i++) {
    M().budget--;
    auto u = unit(step);
    if (g.chance(50)) {
      auto it = M().elms.begin();
      std::advance(it, g.range(0, (int64_t)M().elms.size() - 1));
      g_p(mk(it->first)).template send<&Elm::sub>(step, u, ttl - 1, g.next());
    } else {
      vt::theMsg()->send<plain>(vt::Node{(NodeType)g.range(0, nn() - 1)}, step, u, ttl - 1, g.next());
    }
  }
  if (g.chance(10)) vsim_advance((uint64_t)g.range(100, 20000));
}
void plain(int step, int u, int ttl, uint64_t sd) { vsim_log("unit %d of step %d epoch %lx", u, step, (unsigned long)vt::theMsg()->getEpoch().get()); more(step, ttl, sd); done(step, u); }
void Elm::sub(int step, int u, int ttl, uint64_t sd) { vsim_log("unit %d of step %d epoch %lx", u, step, (unsigned long)vt::theMsg()->getEpoch().get()); more(step, ttl, sd); done(step, u); }
void Elm::main(int step, int u, int p1, int p2, int moveTo, int ttl, uint64_t sd) {
  if (p1 >= 0) over(p1, "the next step of an element runs");
  if (p2 >= 0) over(p2, "the merged step of an element runs");
  M().steps[step].ran++;
  vsim_log("main unit %d of step %d epoch %lx", u, step, (unsigned long)vt::theMsg()->getEpoch().get());
  count++;
  more(step, ttl, sd);
  if (moveTo >= 0 and moveTo != me()) {
    vsim_probe("step-migrates");
    M().elms[lin].at = moveTo; M().elms[lin].moves++;
    this->migrate((NodeType)moveTo);
  }
  done(step, u);
}

template <class I> NodeType scatter(I* i, I*, NodeType n) { return (NodeType)((i->x() * 5 + i->y() * 3) % n); }

using Set = vt::messaging::CollectionChainSet<Idx>;
std::unique_ptr<Set> g_set[2];
bool g_home;

// where the chains of an element are kept
int keeper(int l) { auto& p = M().elms[l]; return g_home ? p.home : p.at; }
void checkSets(char const* when) {
  for (int s = 0; s < 2; s++) {
    auto has = g_set[s]->getSet();
    std::size_t want = 0;
    for (auto& e : M().elms) {
      if (keeper(e.first) != me()) continue;
      want++;
      if (not has.count(mk(e.first))) vsim_fail("chain-set", "%s: node %d does not track element %d in chain set %d", when, me(), e.first, s);
    }
    if (want != has.size()) vsim_fail("chain-set", "%s: node %d tracks %zu elements in chain set %d, not %zu", when, me(), has.size(), s, want);
    std::size_t n = 0;
    g_set[s]->foreach([&](Idx) { n++; });
    if (n != want) vsim_fail("chain-set", "%s: foreach visits %zu of %zu elements", when, n, want);
  }
}
int last(int s, int l) { auto& v = M().after[{s, l}]; return v.empty() ? -1 : v.back(); }

vt::messaging::PendingSend send(Rng& g, int step, int l, int p1, int p2, int to) {
  auto u = unit(step);
  M().steps[step].made++;
  vsim_log("step %d (%s) for element %d after %d %d, unit %d epoch %lx", step, M().steps[step].coll ? "all" : "one", l, p1, p2, u, (unsigned long)vt::theMsg()->getEpoch().get());
  return g_p(mk(l)).template send<&Elm::main>(step, u, p1, p2, to, (int)g.range(0, 2), g.next());
}
int linOf(Idx i) { return (int)(i.x() * M().ny + i.y()); }

void steps(int r, Rng& gc, Rng& g, bool moving) {
  auto n = (int)gc.range(1, 5);
  for (int k = 0; k < n; k++) {
    bool lastStep = k == n - 1;
    int what = (int)gc.range(0, 9), s = (int)gc.range(0, 1);
    bool mv = moving and lastStep;
    auto dest = [&](int l) { return mv and not M().elms[l].moves and g.chance(60) ? (int)g.range(0, nn() - 1) : -1; };
    if (what < 5) {
      if (not mv and g.chance(15)) continue;
      vsim_probe("set-step");
      g_set[s]->nextStep(g.chance(50) ? "step" : "", [&](Idx i) {
        auto l = linOf(i);
        auto id = newStep(false);
        auto p = last(s, l);
        M().after[{s, l}].push_back(id);
        return send(g, id, l, p, -1, dest(l));
      });
    } else {
      // one step of all elements: over when all of it is, everywhere
      auto key = (int64_t)r * 100 + k;
      if (not M().coll_key.count(key)) M().coll_key[key] = newStep(true);
      auto id = M().coll_key[key];
      if (what < 8) {
        vsim_probe("set-step-collective");
        g_set[s]->nextStepCollective("all", [&](Idx i) {
          auto l = linOf(i);
          auto p = last(s, l);
          M().after[{s, l}].push_back(id);
          return send(g, id, l, p, -1, dest(l));
        });
      } else {
        vsim_probe("set-step-merged");
        Set::mergeStepCollective("merge", *g_set[0], *g_set[1], [&](Idx i) {
          auto l = linOf(i);
          auto p1 = last(0, l), p2 = last(1, l);
          M().after[{0, l}].push_back(id); M().after[{1, l}].push_back(id);
          return send(g, id, l, p1, p2, dest(l));
        });
      }
      M().steps[id].fin.insert(me());
    }
    if (g.chance(20)) { auto polls = (int)g.range(1, 12); if (not mv) while (polls--) vt::theSched()->runSchedulerOnceImpl(); }
  }
}

void run() {
  vt::theTerm()->produce();
  Rng gc("chainset", 0);
  Rng g("chainset-node", (uint64_t)me());
  auto& m = M();
  m.nx = (int)gc.range(1, 4); m.ny = (int)gc.range(1, 4);
  if (me() == 0) m.budget = (int)vsim_param("budget", 10, 220);
  g_home = gc.chance(50);
  bool dyn = gc.chance(40), mapped = gc.chance(50), early = gc.chance(50);
  auto b = vt::makeCollection<Elm>("elements");
  if (dyn) b.bounds(Idx(m.nx, m.ny)).dynamicMembership(true); else b.bulkInsert(Idx(m.nx, m.ny));
  if (mapped) b.mapperFunc<scatter<Idx>>();
  g_p = b.wait();
  int mods = 0;
  auto home = [&](int l) { return (int)vt::theCollection()->getMappedNode(g_p, mk(l)); };
  auto named = [&] {
    for (auto& e : m.elms) if (auto q = g_p(mk(e.first)).tryGetLocalPtr()) { q->lin = e.first; e.second.at = me(); e.second.home = home(e.first); }
    meet(("cs named " + std::to_string(mods)).c_str());
  };
  auto modify = [&] {
    Rng p("cs modify", (uint64_t)mods++);
    vsim_probe("set-elements-change");
    std::vector<std::pair<int, int>> add; std::vector<int> del;
    for (int l = 0; l < m.nx * m.ny; l++) {
      auto by = (int)p.range(0, nn() - 1);
      bool has = m.elms.count(l);
      if (not has and not m.used.count(l) and p.chance(60)) add.push_back({l, by});
      // an element that left its home is not destroyed (see DESIGN.md, limits)
      if (has and p.chance(20) and m.elms[l].at == m.elms[l].home) del.push_back(l);
    }
    if (mods == 1 and add.empty()) add.push_back({0, 0});
    meet(("cs plan " + std::to_string(mods)).c_str());
    auto token = g_p.beginModification();
    for (auto& a : add) if (a.second == me()) { if (a.first % 2) g_p(mk(a.first)).insertAt(token, (NodeType)((a.first + me()) % nn())); else g_p(mk(a.first)).insert(token); }
    for (auto l : del) if (g_p(mk(l)).tryGetLocalPtr()) { vsim_probe("set-element-destroyed"); g_p(mk(l)).destroy(token); }
    g_p.finishModification(std::move(token));
    meet(("cs modified " + std::to_string(mods)).c_str());
    if (me() == 0) {
      for (auto l : del) { m.elms.erase(l); m.after[{0, l}].clear(); m.after[{1, l}].clear(); }
      for (auto& a : add) { m.elms[a.first] = Place{}; m.used.insert(a.first); }
      vsim_touch();
    }
    meet(("cs model " + std::to_string(mods)).c_str());
    named();
  };
  if (dyn and not early) modify();
  if (not dyn) { if (me() == 0) for (int l = 0; l < m.nx * m.ny; l++) m.elms[l] = Place{}; meet("cs all"); named(); }
  auto layout = g_home ? vt::messaging::Home : vt::messaging::Local;
  for (int s = 0; s < 2; s++) vt::runInEpochCollective([&] { g_set[s] = std::make_unique<Set>(g_p, layout); });
  meet("cs sets");
  if (dyn and early) modify();
  checkSets("after construction");
  auto rounds = (int)vsim_param("rounds", 1, 5);
  for (int r = 0; r < rounds; r++) {
    if (not vsim_op_on((uint64_t)r)) continue;
    Rng rc("cs round", (uint64_t)r);
    auto K = [&](char const* k) { return std::string("cs ") + k + " " + std::to_string(r); };
    meet(K("begin").c_str());
    if (m.elms.empty()) { if (dyn) modify(); if (m.elms.empty()) break; }
    bool moving = g_home and rc.chance(50), between = not moving and rc.chance(50), mod = dyn and rc.chance(50), fresh = rc.chance(80);
    for (auto& e : m.elms) e.second.moves = 0;
    meet(K("go").c_str());
    vt::runInEpochCollective([&] {
      steps(r, rc, g, moving);
      // a chain must be idle when its element goes
      if (moving or fresh) for (auto& s : g_set) s->phaseDone();
    });
    meet(K("stepped").c_str());
    for (std::size_t i = 0; i < m.steps.size(); i++) {
      over((int)i, "the epoch around the steps is over");
      if (m.steps[i].ran != m.steps[i].made) vsim_fail("chain-lost", "step %d ran on %d of %d elements", (int)i, m.steps[i].ran, m.steps[i].made);
    }
    if (between) {
      vt::runInEpochCollective([&] {
        for (auto& e : m.elms) if (auto q = g_p(mk(e.first)).tryGetLocalPtr()) if (g.chance(50)) {
          auto to = (int)g.range(0, nn() - 1);
          if (to == me()) continue;
          vsim_probe("set-element-moves"); e.second.at = to; q->migrate((NodeType)to);
        }
      });
      meet(K("moved").c_str());
    }
    checkSets("after a round");
    if (mod) { meet(K("mod").c_str()); modify(); checkSets("after insertions"); }
  }
  meet("cs end");
  bool destroyed = gc.chance(50);
  for (auto& s : g_set) s.reset();
  meet("cs reset");
  if (destroyed) { vt::theCollection()->destroy(g_p); }
  meet("cs out");
  vt::theTerm()->consume();
  vt::finalize();
  for (auto u : m.units) if (u != 1) vsim_fail("lost-work", "a unit of work ran %d times", u);
  vsim_done();
}
} // namespace cs
