// C21: checkpoints of collections.  Mode same: checkpoints and restores, as a
// new collection or in place, between all other work on the elements, within a
// run.  Mode restart: the job dies at some disk operation of a checkpoint (torn
// writes) and is started again; what it restores from that checkpoint is right
// or fails, what it restores from a complete one is right.  Mode disk: the same
// with disk errors while saving and restoring.
// Oracle: what the elements were when the checkpoint was made, in memory that
// survives the lives of the job; a model of the elements for what follows.
#include "wl.h"
#include <exception>
#include <functional>
#include <sys/stat.h>
#include <unistd.h>
using namespace wl;
using vt::NodeType;

namespace {

std::string mode;

// ---- what survives: the checkpoints of all lives
struct Saved { int idx; int node; uint64_t ver; };
struct SavedCol { int dims, n[3], count, dynamic; char label[32]; Saved e[160]; };
struct Ckpt { int state; int subs, per, ncols, base; SavedCol c[3]; };   // state 1: started, 2: complete, 3: an error was reported
struct Journal { int n; Ckpt k[24]; };
Journal& J() { return *static_cast<Journal*>(vsim_journal(sizeof(Journal))); }

// ---- the model
struct Rec { uint64_t ver = 0; int bumps = 0; };
struct Col {
  int dims = 1, n[3] = {1, 1, 1};
  bool dynamic = false, gone = false;
  std::set<int> removed;                   // an index is not used twice
  uint64_t proxy = 0;
  std::string label;
  std::map<int, Rec> elms;
  int size() const { return n[0] * n[1] * n[2]; }
};
struct State {
  std::deque<Col> cols;
  int64_t outstanding = 0;
  bool moving = false;
  std::set<std::pair<int, int>> moved;
  std::map<uint64_t, std::pair<int, int>> ids;
  std::map<std::pair<int, int>, int> at;
  int failed = 0;
  int64_t red = 0;
  int redDone = 0;
};
State& S() { static State* s = &shared<State>("ckpt"); return *s; }

template <class I> struct Dim;
template <> struct Dim<vt::Index1D> { static constexpr int n = 1; static vt::Index1D mk(Col const&, int i) { return vt::Index1D(i); } static int lin(Col const&, vt::Index1D const& x) { return (int)x.x(); } static vt::Index1D bounds(Col const& c) { return vt::Index1D(c.n[0]); } };
template <> struct Dim<vt::Index2D> { static constexpr int n = 2; static vt::Index2D mk(Col const& c, int i) { return vt::Index2D(i / c.n[1], i % c.n[1]); } static int lin(Col const& c, vt::Index2D const& x) { return (int)(x.x() * c.n[1] + x.y()); } static vt::Index2D bounds(Col const& c) { return vt::Index2D(c.n[0], c.n[1]); } };
template <> struct Dim<vt::Index3D> { static constexpr int n = 3; static vt::Index3D mk(Col const& c, int i) { return vt::Index3D(i / (c.n[1] * c.n[2]), i / c.n[2] % c.n[1], i % c.n[2]); } static int lin(Col const& c, vt::Index3D const& x) { return (int)((x.x() * c.n[1] + x.y()) * c.n[2] + x.z()); } static vt::Index3D bounds(Col const& c) { return vt::Index3D(c.n[0], c.n[1], c.n[2]); } };
template <class F> void byDims(int d, F f) { if (d == 1) f(vt::Index1D{}); else if (d == 2) f(vt::Index2D{}); else f(vt::Index3D{}); }
std::string name(int col, int idx) { return "element " + std::to_string(idx) + " of collection " + std::to_string(col); }

// the state of an element follows from its index and its version
uint64_t keyOf(int idx, uint64_t ver) { return vsim_hash("contents", ver * 1000 + (uint64_t)idx); }
std::size_t sizeOf(int idx, uint64_t ver) { auto k = keyOf(idx, ver); return k % 40 == 7 ? 20000 : k % 3 ? k % 900 : 0; }

template <class I>
struct Elm : vt::Collection<Elm<I>, I> {
  using Base = vt::Collection<Elm<I>, I>;
  int col = -1, idx = -1;
  uint64_t ver = 0;
  std::vector<uint8_t> data;
  std::map<std::string, double> more;
  void shape() {
    auto k = keyOf(idx, ver);
    data.resize(sizeOf(idx, ver));
    fill(data.data(), data.size(), k);
    more.clear();
    for (int i = 0; i < (int)(k % 4); i++) more["x" + std::to_string(k % 1000 + (uint64_t)i)] = (double)k / (i + 3);
    this->template valInsert<uint64_t>("ver", uint64_t{ver}, false, false, false);
    if (k % 5 < 2) this->template valInsert<std::string>("tag", std::to_string(k), false, false, false);
  }
  void born(int c, int i) { col = c; idx = i; shape(); }
  bool whole() {
    if (data.size() != sizeOf(idx, ver) or not matches(data.data(), data.size(), keyOf(idx, ver))) return false;
    auto k = keyOf(idx, ver);
    if (more.size() != k % 4) return false;
    for (int i = 0; i < (int)(k % 4); i++) { auto it = more.find("x" + std::to_string(k % 1000 + (uint64_t)i)); if (it == more.end() or it->second != (double)k / (i + 3)) return false; }
    if (this->valExists("tag") != (k % 5 < 2) or (k % 5 < 2 and this->template valGet<std::string>("tag") != std::to_string(k))) return false;
    return this->valExists("ver") and this->template valGet<uint64_t>("ver") == ver;
  }
  void bump(uint64_t key, int hops);
  void bumpAll(uint64_t key) { change(key); }
  void change(uint64_t key) {
    if (not whole()) vsim_fail("contents", "%s does not hold its state when it is used", name(col, idx).c_str());
    ver += key % 1000000 + 1;
    this->valRemove("ver");
    if (this->valExists("tag")) this->valRemove("tag");
    shape();
    S().outstanding--;
    vsim_touch();
  }
  void contribute() { this->getCollectionProxy().template reduce<Elm::total, vt::collective::PlusOp>((NodeType)0, (int64_t)(ver % 1000003)); }
  static void total(int64_t v) {
    if (v != S().red) vsim_fail("use", "a reduction over the elements gives %lld, not %lld", (long long)v, (long long)S().red);
    S().redDone++;
    vsim_touch();
  }
  template <class Z> void serialize(Z& s) {
    Base::serialize(s);
    if (s.isUnpacking()) more.clear();
    s | col | idx | ver | data | more;
  }
};
template <class I> vt::CollectionProxy<Elm<I>> proxyOf(int c) { return vt::CollectionProxy<Elm<I>>{(vt::VirtualProxyType)S().cols[(std::size_t)c].proxy}; }
template <class I> NodeType cyclic(I* idx, I*, NodeType n) { int v = 0; for (int d = 0; d < Dim<I>::n; d++) v = v * 7 + (int)(*idx)[d]; return (NodeType)(v % n); }

// a message to an element of a collection; its value is known from the start
template <class I> void sendBump(int c, int idx, uint64_t key, int hops) {
  auto& o = S();
  auto& C = o.cols[(std::size_t)c];
  C.elms[idx].ver += key % 1000000 + 1;
  o.outstanding++;
  proxyOf<I>(c)(Dim<I>::mk(C, idx)).template send<&Elm<I>::bump>(key, hops);
}
template <class I> void Elm<I>::bump(uint64_t key, int hops) {
  auto& o = S();
  if (o.cols[(std::size_t)col].proxy != this->getProxy()) vsim_fail("identity", "%s runs under another proxy", name(col, idx).c_str());
  if (not(this->getIndex() == Dim<I>::mk(o.cols[(std::size_t)col], idx))) vsim_fail("identity", "%s runs under another index", name(col, idx).c_str());
  change(key);
  Rng g(key);
  vsim_advance((uint64_t)g.range(0, 20000));
  if (hops > 0) {
    auto& C = o.cols[(std::size_t)col];
    auto it = C.elms.begin();
    std::advance(it, g.range(0, (int64_t)C.elms.size() - 1));
    sendBump<I>(col, it->first, g.next(), hops - 1);
  }
  if (o.moving and g.chance(40) and o.moved.insert({col, idx}).second) { vsim_probe("moved"); this->migrate((NodeType)g.range(0, nn() - 1)); }
}

std::string K(char const* what, int64_t i, int64_t j = 0) { return std::string(what) + " " + std::to_string(i) + " " + std::to_string(j); }

// new elements get their identity before anything else is done with them
template <class I> void name_(int c, std::vector<int> const& only) {
  auto& C = S().cols[(std::size_t)c];
  std::set<int> want(only.begin(), only.end());
  for (auto& i : vt::theCollection()->getLocalIndices<Elm<I>>(proxyOf<I>(c))) {
    auto e = proxyOf<I>(c)(i).tryGetLocalPtr();
    auto x = Dim<I>::lin(C, i);
    if (want.count(x)) e->born(c, x);
  }
}

// ---- all elements: there, whole, up to date, once, with an identity of their own
template <class I> void look(int c, char const* when) {
  auto& o = S();
  auto& C = o.cols[(std::size_t)c];
  if (C.gone) return;
  for (auto& i : vt::theCollection()->getLocalIndices<Elm<I>>(proxyOf<I>(c))) {
    auto x = Dim<I>::lin(C, i);
    auto e = proxyOf<I>(c)(i).tryGetLocalPtr();
    if (not C.elms.count(x)) vsim_fail("extra", "%s exists on node %d (%s)", name(c, x).c_str(), me(), when);
    if (not o.at.insert({{c, x}, me()}).second) vsim_fail("twice", "%s is on node %d and on node %d (%s)", name(c, x).c_str(), me(), o.at[{c, x}], when);
    if (e->idx != x or not e->whole()) vsim_fail("contents", "%s does not hold the state it should (%s)", name(c, x).c_str(), when);
    if (e->ver != C.elms[x].ver) vsim_fail("version", "%s has version %llu, not %llu (%s)", name(c, x).c_str(), (unsigned long long)e->ver, (unsigned long long)C.elms[x].ver, when);
    auto id = e->getElmID().id;
    if (not o.ids.insert({id, {c, x}}).second) vsim_fail("element-id", "%s and %s have the same element ID %llx (%s)", name(c, x).c_str(), name(o.ids[id].first, o.ids[id].second).c_str(), (unsigned long long)id, when);
  }
}
int looks = 0;
void lookAll(char const* when) {
  auto& o = S();
  auto k = looks++;
  meet(K("look", k).c_str());
  o.at.clear(); o.ids.clear();
  meet(K("cleared", k).c_str());
  for (std::size_t c = 0; c < o.cols.size(); c++) byDims(o.cols[c].dims, [&](auto d) { look<decltype(d)>((int)c, when); });
  meet(K("looked", k).c_str());
  for (std::size_t c = 0; c < o.cols.size(); c++) if (not o.cols[c].gone)
    for (auto& e : o.cols[c].elms) if (not o.at.count({(int)c, e.first})) vsim_fail("lost", "%s is on no node (%s)", name((int)c, e.first).c_str(), when);
  meet(K("seen", k).c_str());
}

// ---- work
int g_rounds = 0;
void modify(int c, Rng g) {
  auto& o = S();
  auto& C = o.cols[(std::size_t)c];
  std::vector<std::pair<int, int>> add; std::vector<int> del;
  for (int i = 0; i < C.size(); i++) {
    auto by = (int)g.range(0, nn() - 1);
    bool has = C.elms.count(i);
    if (not has and not C.removed.count(i) and g.chance(55)) add.push_back({i, by});
    if (has and g.chance(15) and C.elms.size() - del.size() > 1) del.push_back(i);
  }
  auto r = g_rounds++;
  meet(K("plan", c, r).c_str());
  byDims(C.dims, [&](auto d) {
    using I = decltype(d);
    auto p = proxyOf<I>(c);
    if (me() == 0) { std::string t; for (auto& a : add) t += " +" + std::to_string(a.first) + "@" + std::to_string(a.second); for (auto x : del) t += " -" + std::to_string(x); vsim_log("collection %d:%s", c, t.c_str()); }
    auto token = p.beginModification();
    for (auto& a : add) if (a.second == me()) { auto e = p(Dim<I>::mk(C, a.first)); if (a.first % 2) e.insertAt(token, (NodeType)((a.first + me()) % nn())); else e.insert(token); }
    for (auto x : del) if (p(Dim<I>::mk(C, x)).tryGetLocalPtr()) { vsim_probe("removed"); p(Dim<I>::mk(C, x)).destroy(token); }
    p.finishModification(std::move(token));
    meet(K("modified", c, r).c_str());
    std::vector<int> fresh;
    for (auto& a : add) fresh.push_back(a.first);
    name_<I>(c, fresh);
    meet(K("named", c, r).c_str());
    if (me() == 0) { for (auto x : del) { C.elms.erase(x); C.removed.insert(x); } for (auto x : fresh) { C.elms[x] = Rec{}; } }
    meet(K("model", c, r).c_str());
  });
}
void work(int r, int life) {
  auto& o = S();
  Rng p("work", (uint64_t)(life * 100 + r));
  auto tag = life * 100 + r;
  bool moving = p.chance(50);
  bool phase = p.chance(40), cast = p.chance(40), red = p.chance(40), mod = p.chance(60);
  if (mod) for (std::size_t c = 0; c < o.cols.size(); c++) if (o.cols[c].dynamic and not o.cols[c].gone) modify((int)c, Rng("modify", (uint64_t)(tag * 10 + (int)c)));
  o.moving = moving; o.moved.clear();
  meet(K("go", tag).c_str());
  vt::runInEpochCollective([&] {
    auto n = (int)vsim_param("messages", 1, 8);
    for (int i = 0; i < n; i++) {
      auto op = (uint64_t)((tag * 20 + i) * 10 + me());
      if (not vsim_op_on(op)) continue;
      Rng g("message", op);
      auto c = (std::size_t)g.range(0, (int64_t)o.cols.size() - 1);
      auto& C = o.cols[c];
      if (C.gone or C.elms.empty()) continue;
      auto it = C.elms.begin();
      std::advance(it, g.range(0, (int64_t)C.elms.size() - 1));
      auto key = g.next();
      byDims(C.dims, [&](auto d) { sendBump<decltype(d)>((int)c, it->first, key, (int)g.range(0, 2)); });
    }
  });
  meet(K("gone", tag).c_str());
  if (o.outstanding) vsim_fail("use", "%lld messages to the elements got lost", (long long)o.outstanding);
  if (moving) vt::theCollection()->getTypelessHolder().invokeAllGroupConstructors();
  meet(K("groups", tag).c_str());
  for (std::size_t c = 0; c < o.cols.size(); c++) {
    auto& C = o.cols[c];
    if (C.gone or C.elms.empty()) continue;
    auto by = (int)p.range(0, nn() - 1);
    auto key = p.next();
    if (cast) {
      vsim_probe("broadcast");
      meet(K("cast", tag, (int)c).c_str());
      if (me() == 0) { for (auto& e : C.elms) e.second.ver += key % 1000000 + 1; o.outstanding += (int64_t)C.elms.size(); }
      meet(K("casting", tag, (int)c).c_str());
      vt::runInEpochCollective([&] { if (me() == by) byDims(C.dims, [&](auto d) { using I = decltype(d); proxyOf<I>((int)c).template broadcast<&Elm<I>::bumpAll>(key); }); });
      meet(K("cast done", tag, (int)c).c_str());
      if (o.outstanding) vsim_fail("use", "a broadcast missed %lld elements of collection %d", (long long)o.outstanding, (int)c);
    }
    if (red) {
      vsim_probe("reduced");
      meet(K("red", tag, (int)c).c_str());
      if (me() == 0) { o.red = 0; o.redDone = 0; for (auto& e : C.elms) o.red += (int64_t)(e.second.ver % 1000003); }
      meet(K("reducing", tag, (int)c).c_str());
      vt::runInEpochCollective([&] { byDims(C.dims, [&](auto d) { using I = decltype(d); proxyOf<I>((int)c).template broadcastCollective<&Elm<I>::contribute>(); }); });
      meet(K("red done", tag, (int)c).c_str());
      if (o.redDone != 1) vsim_fail("use", "a reduction over collection %d completed %d times", (int)c, o.redDone);
    }
  }
  if (phase) { vsim_probe("phase"); vt::thePhase()->nextPhaseCollective(); }
}

template <class I> void make(int c, std::string const& label, Rng g) {
  auto& o = S();
  Col d;
  d.dims = Dim<I>::n;
  for (int i = 0; i < d.dims; i++) d.n[i] = (int)g.range(1, d.dims == 1 ? 24 : d.dims == 2 ? 6 : 4);
  if (d.dims == 2 and g.chance(12)) { d.n[0] = 12; d.n[1] = (int)g.range(11, 13); }      // indices of two digits in both
  d.dynamic = g.chance(30);
  d.label = label;
  auto map = g.chance(50);
  if (o.cols.size() <= (std::size_t)c) {
    o.cols.push_back(d);
    if (not d.dynamic) for (int i = 0; i < d.size(); i++) o.cols.back().elms[i] = Rec{};
  }
  meet(K("make", c).c_str());
  auto b = vt::makeCollection<Elm<I>>(label);
  if (d.dynamic) b.bounds(Dim<I>::bounds(d)).dynamicMembership(true); else b.bulkInsert(Dim<I>::bounds(d));
  if (map) b.template mapperFunc<cyclic<I>>();
  auto p = (uint64_t)b.wait().getProxy();
  auto& C = o.cols[(std::size_t)c];
  if (C.proxy and C.proxy != p) vsim_fail("identity", "collection %d has two proxies", c);
  C.proxy = p;
  std::vector<int> all;
  if (not d.dynamic) for (int i = 0; i < d.size(); i++) all.push_back(i);
  name_<I>(c, all);
  meet(K("made", c).c_str());
  if (d.dynamic) modify(c, Rng("fill", (uint64_t)c));
}

std::string baseOf(int k, int c) { return "save/ck" + std::to_string(k) + (c ? "_" + std::to_string(c) : ""); }
// ---- one checkpoint of all collections, each to files of its own
int checkpoint(int tag) {
  auto& o = S();
  auto& j = J();
  Rng g("checkpoint", (uint64_t)tag);
  int k = j.n;                       // the same everywhere: all nodes are here
  meet(K("save", tag).c_str());
  auto& q = j.k[k];
  if (me() == 0) {
    mkdir("save", 0777);
    q = Ckpt{};
    q.base = k;
    // over an earlier one, with other elements and another layout perhaps
    if (mode == "same" and k and g.chance(30)) { auto v = (int)g.range(0, k - 1); q.base = j.k[v].base; vsim_probe("overwritten"); for (int i = 0; i < k; i++) if (j.k[i].base == q.base) j.k[i].state = 0; }
    q.subs = g.chance(60); q.per = (int)g.range(1, 6);
    for (std::size_t c = 0; c < o.cols.size() and q.ncols < 3; c++) {
      auto& C = o.cols[c];
      if (C.gone) continue;
      auto& s = q.c[q.ncols++];
      s.dims = C.dims; s.dynamic = C.dynamic;
      for (int i = 0; i < 3; i++) s.n[i] = C.n[i];
      snprintf(s.label, sizeof s.label, "%s", C.label.c_str());
      for (auto& e : C.elms) s.e[s.count++] = Saved{e.first, -1, e.second.ver};
    }
    q.state = 1;
    j.n++;
    o.failed = 0;
  }
  meet(K("save ready", tag).c_str());
  // where they are
  { int n = 0;
    for (std::size_t c = 0; c < o.cols.size() and n < q.ncols; c++) if (not o.cols[c].gone) {
      byDims(o.cols[c].dims, [&](auto d) {
        using I = decltype(d);
        for (auto& i : vt::theCollection()->getLocalIndices<Elm<I>>(proxyOf<I>((int)c))) {
          auto x = Dim<I>::lin(o.cols[c], i);
          for (int e = 0; e < q.c[n].count; e++) if (q.c[n].e[e].idx == x) q.c[n].e[e].node = me();
        }
      });
      n++;
    }
  }
  meet(K("save noted", tag).c_str());
  vsim_log("checkpoint %d: %d collections%s, %d files in each", k, q.ncols, q.subs ? " with directories" : "", q.per);
  { int n = 0;
    for (std::size_t c = 0; c < o.cols.size() and n < q.ncols; c++) if (not o.cols[c].gone) {
      try {
        byDims(o.cols[c].dims, [&](auto d) { using I = decltype(d); vt::theCollection()->checkpointToFile(proxyOf<I>((int)c), baseOf(q.base, n), q.subs != 0, q.per); });
      } catch (std::exception const& e) {
        if (not vsim_disk_fault_count()) vsim_fail("save", "saving collection %d fails: %s", (int)c, e.what());
        vsim_probe("saving failed");
        o.failed++;
      }
      n++;
    }
  }
  meet(K("saved", tag).c_str());
  if (me() == 0) q.state = o.failed ? 3 : 2;
  meet(K("save over", tag).c_str());
  return k;
}

// ---- restoring collection n of checkpoint k, as a new collection or onto one
bool restore(int k, int n, int onto, bool may, int tag) {
  auto& o = S();
  auto& s = J().k[k].c[n];
  bool ok = true;
  meet(K("restore", tag).c_str());
  vsim_log("restore collection %d of checkpoint %d%s", n, k, onto >= 0 ? " in place" : "");
  auto col = onto >= 0 ? onto : (int)o.cols.size();
  meet(K("restore+", tag).c_str());
  Col d;
  d.dims = s.dims;
  for (int i = 0; i < 3; i++) d.n[i] = s.n[i];
  d.label = s.label;
  byDims(s.dims, [&](auto di) {
    using I = decltype(di);
    try {
      if (onto >= 0) {
        vt::theCollection()->restoreFromFileInPlace<Elm<I>>(proxyOf<I>(onto), Dim<I>::bounds(d), baseOf(J().k[k].base, n));
        vsim_probe("in place");
      } else {
        auto p = (uint64_t)vt::theCollection()->restoreFromFile<Elm<I>>(Dim<I>::bounds(d), baseOf(J().k[k].base, n)).getProxy();
        vsim_probe("as a new collection");
        if (o.cols.size() <= (std::size_t)col) { o.cols.push_back(d); o.cols.back().proxy = p; }
        if (o.cols[(std::size_t)col].proxy != p) vsim_fail("identity", "the restored collection has two proxies");
      }
    } catch (std::exception const& e) {
      vsim_log("restoring fails: %s", e.what());
      if (not may) vsim_fail("restore", "restoring a complete checkpoint fails on node %d: %s", me(), e.what());
      vsim_probe("restoring failed");
      vsim_pass();                                   // visible; the job ends
    }
  });
  meet(K("restored", tag).c_str());
  auto& C = o.cols[(std::size_t)col];
  if (me() == 0) {
    if (onto < 0) C.elms.clear();
    for (int i = 0; i < s.count; i++) C.elms[s.e[i].idx].ver = s.e[i].ver;
  }
  meet(K("restore model", tag).c_str());
  // before anything else: every element where it was saved, with its contents
  byDims(s.dims, [&](auto di) {
    using I = decltype(di);
    for (int i = 0; i < s.count; i++) if (s.e[i].node == me()) {
      auto e = proxyOf<I>(col)(Dim<I>::mk(C, s.e[i].idx)).tryGetLocalPtr();
      if (e == nullptr) vsim_fail("lost", "%s, saved on node %d, is not there after restoring", name(col, s.e[i].idx).c_str(), me());
      e->col = col;
      // loads measured in another run or for another element are not its own
      for (auto ph = (uint64_t)vt::thePhase()->getCurrentPhase(); onto < 0 and ph < 40; ph++) {
        auto l = e->getLBData().getLoad((vt::PhaseType)ph);
        if ((double)l != 0) vsim_fail("load", "%s has a load of %g in phase %d as soon as it is restored", name(col, s.e[i].idx).c_str(), (double)l, (int)ph);
      }
    }
    if (onto < 0) {
      auto l = vt::theCollection()->getLabel(proxyOf<I>(col).getProxy());
      if (l != s.label) vsim_fail("label", "the restored collection is called '%s', not '%s'", l.c_str(), s.label);
    }
  });
  lookAll("restored");
  return ok;
}
void destroy(int c, int tag) {
  auto& o = S();
  meet(K("destroy", tag).c_str());
  o.cols[(std::size_t)c].gone = true;
  vt::runInEpochCollective([&] { if (me() == 0) byDims(o.cols[(std::size_t)c].dims, [&](auto d) { proxyOf<decltype(d)>(c).destroy(); }); });
  meet(K("destroyed", tag).c_str());
}
void start() {
  Rng g("lb", (uint64_t)vsim_life());
  std::vector<std::string> extra;
  if (g.chance(60)) { extra = {"--vt_lb", "--vt_lb_quiet", g.chance(50) ? "--vt_lb_name=RotateLB" : "--vt_lb_name=RandomLB", "--vt_lb_args=randomize_seed=false", "--vt_lb_interval=1"}; if (g.chance(50)) extra.push_back("--vt_lb_run_lb_first_phase"); if (extra[2] == "--vt_lb_name=RotateLB") extra.erase(extra.begin() + 3); }
  init(0, extra);
  vt::theTerm()->produce();
}
void stop() { vt::theTerm()->consume(); vt::finalize(); }
int newest(int least) { auto& j = J(); for (int k = j.n - 1; k >= 0; k--) if (j.k[k].state == least or (least == 1 and j.k[k].state)) return k; return -1; }
int alive() { int n = 0; for (auto& c : S().cols) n += not c.gone; return n; }

void makeAll(int life) {
  Rng g("collections", (uint64_t)life);
  auto n = (int)vsim_param("collections", 1, 2);
  for (int i = 0; i < n; i++) {
    auto d = (int)g.range(1, 3);
    byDims(d, [&](auto x) { make<decltype(x)>(i, "label " + std::to_string(life) + std::to_string(i), Rng("make", (uint64_t)(life * 10 + i))); });
    meet(K("made one", life, i).c_str());
  }
}
// a restore from any checkpoint that has to succeed
void restoreSome(int tag, int k, bool may) {
  auto& o = S();
  Rng g("restore", (uint64_t)tag);
  auto& q = J().k[k];
  for (int n = 0; n < q.ncols; n++) {
    auto& s = q.c[n];
    // in place: onto a collection that has all the elements
    int onto = -1;
    if (g.chance(50)) for (std::size_t c = 0; c < o.cols.size(); c++) {
      auto& C = o.cols[c];
      if (C.gone or C.dims != s.dims) continue;
      bool fits = true;
      for (int i = 0; i < 3; i++) fits = fits and C.n[i] == s.n[i];
      for (int i = 0; i < s.count; i++) fits = fits and C.elms.count(s.e[i].idx);
      if (fits) onto = (int)c;
    }
    if (onto < 0) {
      // no more than three are kept
      bool drop = g.chance(50) or alive() >= 3;
      int victim = -1;
      for (std::size_t c = 0; c < o.cols.size(); c++) if (not o.cols[c].gone and (victim < 0 or g.chance(50))) victim = (int)c;
      if (drop and victim >= 0) destroy(victim, tag * 10 + n);
    }
    restore(k, n, onto, may, tag * 10 + n);
  }
}

void same() {
  start();
  makeAll(0);
  lookAll("made");
  auto rounds = (int)vsim_param("rounds", 1, 5);
  for (int r = 0; r < rounds; r++) {
    Rng p("same", (uint64_t)r);
    work(r * 2, 0);
    lookAll("work");
    if (p.chance(80)) checkpoint(r);
    if (p.chance(60)) { work(r * 2 + 1, 0); lookAll("work after the checkpoint"); }
    if (p.chance(75) and J().n) {
      auto k = p.chance(60) ? J().n - 1 : (int)p.range(0, J().n - 1);
      if (J().k[k].state != 2) k = J().n - 1;
      restoreSome(100 + r, k, false);
    }
  }
  work(90, 0);
  lookAll("the end");
  stop();
}

void restart() {
  auto life = vsim_life();
  start();
  Rng p("restart", (uint64_t)life);
  if (life == 0) {
    makeAll(0);
    auto rounds = (int)vsim_param("rounds", 1, 4);
    auto die = (int)p.range(0, rounds - 1);
    for (int r = 0; r < rounds; r++) {
      work(r, 0);
      lookAll("work");
      if (r == die and me() == 0) {
        int n = 0;
        for (auto& c : S().cols) if (not c.gone) n += (int)c.elms.size();
        vsim_crash_at((uint64_t)p.range(1, 6 * n + 6));
      }
      checkpoint(r);
    }
    if (me() == 0) vsim_crash_at(0);
    meet("end of a life");
    stop();
    return;
  }
  // the job may have made other collections before
  if (p.chance(40)) { makeAll(life); lookAll("made"); }
  auto k = life == 1 ? newest(1) : newest(2);
  if (k >= 0) {
    auto state = J().k[k].state;
    if (state == 2) vsim_probe("complete checkpoint");
    else vsim_probe("interrupted checkpoint");
    restoreSome(100 + life, k, state != 2);
    work(50, life); lookAll("work on the restored");
    if (p.chance(50)) { auto k2 = checkpoint(life); work(51, life); restoreSome(200 + life, k2, false); work(52, life); lookAll("restored again"); }
  }
  stop();
}

void disk() {
  auto life = vsim_life();
  start();
  Rng p("disk", (uint64_t)life);
  auto faults = [&](int bits) { meet(K("faults", bits, looks).c_str()); if (me() == 0 and on(VF_DISK)) vsim_disk_faults(bits); meet(K("faults set", bits, looks++).c_str()); };
  if (life == 0) {
    makeAll(0);
    auto rounds = (int)vsim_param("rounds", 1, 3);
    for (int r = 0; r < rounds; r++) {
      work(r, 0);
      lookAll("work");
      faults(VDISK_WRITE | (p.chance(50) ? VDISK_OPEN : 0));
      checkpoint(r);
      faults(0);
    }
    lookAll("saved");
    stop();
    return;
  }
  auto k = p.chance(60) ? newest(1) : newest(2);
  if (k < 0) k = newest(1);
  bool reading = p.chance(50);
  if (reading) faults(VDISK_READ | VDISK_OPEN);
  restoreSome(100, k, reading or J().k[k].state != 2);
  if (reading) faults(0);
  work(50, life);
  lookAll("work on the restored");
  stop();
}

} // namespace

extern "C" __attribute__((visibility("default"))) int vsim_lives(char const* m) {
  return std::string(m) == "restart" ? 3 : std::string(m) == "disk" ? 2 : 1;
}
WL_ENTRY {
  mode = mode_c;
  if (mode == "same") same(); else if (mode == "restart") restart(); else disk();
  vsim_done();
}
