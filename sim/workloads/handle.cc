// C16: RDMA handles.  All nodes operate concurrently on the memory behind
// handles: blocks read and written under locks, accumulated and fetched
// counters, read-modify-write under explicit locks.  The recorded history of
// every block must be linearizable, counters exact, everything else untouched.
#include "wl.h"
#include <algorithm>
#include <functional>
#include <memory>
using namespace wl;
using vt::Lock;
using vt::NodeType;

namespace {

enum { B = 4 };                        // elements of a block
struct Access { bool write; int64_t val; uint64_t start, end; };
struct Block { std::vector<Access> h; };
struct Fop { int64_t val, add; uint64_t start, end; };
struct Target {                        // the memory of one node, sub handle or element
  int hid, id, blocks; std::size_t n;
  bool inited = false;
  std::vector<Block> blk;
  int64_t sumStart = 0, sumEnd = 0, max = 0, rmw = 0;
  std::vector<Fop> fops; int64_t fopStart = 0; std::vector<int> rmwSeen;
};
struct Han { std::map<int, Target> t; int uniform, kind; bool gone = false; std::size_t inited = 0; };
struct State { std::map<int, Han> h; uint64_t clock = 1; int64_t next = 1; int pokes = 0; };
State& S() { static State* s = &shared<State>("handle"); return *s; }
uint64_t tick() { return S().clock++; }

std::size_t sizeFor(int blocks) { return blocks == 0 ? 0 : (std::size_t)(1 + blocks * (B + 1) + 6); }
std::size_t atBlk(int b) { return (std::size_t)(1 + b * (B + 1)); }
struct Off { std::size_t sum, max, fop, rmw, guard; };
Off off(Target& t) { auto x = (std::size_t)(1 + t.blocks * (B + 1)); return {x, x + 1, x + 2, x + 3, x + 5}; }
bool isGuard(Target& t, std::size_t i) {
  auto x = (std::size_t)(1 + t.blocks * (B + 1));
  if (i == 0 or i == x + 5) return true;
  return i < x and (i - 1) % (B + 1) == B;
}
int64_t guard(Target& t, std::size_t i) { return 1000000 + t.hid * 100000 + t.id * 1000 + (int64_t)i; }
int64_t enc(int64_t v, int i) { return v * 8 + i; }

Target& addTarget(int hid, int id, int blocks) {
  auto& h = S().h[hid];
  auto it = h.t.find(id);
  if (it != h.t.end()) return it->second;
  auto& t = h.t[id];
  t.hid = hid; t.id = id; t.blocks = blocks; t.n = sizeFor(blocks);
  t.blk.resize((std::size_t)blocks);
  return t;
}
std::string nm(Target& t) { return "handle " + std::to_string(t.hid) + " target " + std::to_string(t.id); }

template <class T> int64_t val(T x) { return (int64_t)x; }
template <class T> int64_t decode(Target& t, int b, T const* p) {
  auto v = val(p[0]) / 8;
  for (int i = 0; i < B; i++) if (val(p[i]) != enc(v, i)) {
    std::string s;
    for (int j = 0; j < B; j++) s += std::to_string(val(p[j])) + " ";
    vsim_fail("torn", "%s: block %d read as %s", nm(t).c_str(), b, s.c_str());
  }
  return v;
}
void onRead(Target& t, int b, int64_t v, uint64_t start) {
  auto& blk = t.blk[(std::size_t)b];
  auto end = tick();
  Access const* w = nullptr;
  for (auto& a : blk.h) if (a.write and a.val == v) w = &a;
  if (w == nullptr) vsim_fail("value", "%s: block %d reads %lld, which was never put there", nm(t).c_str(), b, (long long)v);
  for (auto& a : blk.h) {
    if (a.write and a.start > w->end and a.end < start) vsim_fail("stale", "%s: block %d reads value %lld, overwritten by %lld before the read began", nm(t).c_str(), b, (long long)v, (long long)a.val);
  }
  blk.h.push_back({false, v, start, end});
}
int beginWrite(Target& t, int b, int64_t v) { t.blk[(std::size_t)b].h.push_back({true, v, tick(), ~0ull}); return (int)t.blk[(std::size_t)b].h.size() - 1; }
void endWrite(Target& t, int b, int i) { t.blk[(std::size_t)b].h[(std::size_t)i].end = tick(); }

// linearizability of a register with unique values: zones of each value
void judge(Target& t) {
  for (int b = 0; b < t.blocks; b++) {
    struct Z { uint64_t f = ~0ull, s = 0; };
    std::map<int64_t, Z> z;
    for (auto& a : t.blk[(std::size_t)b].h) { auto& x = z[a.val]; x.f = std::min(x.f, a.end); x.s = std::max(x.s, a.start); }
    for (auto& [v, x] : z) for (auto& [w, y] : z) {
      if (v == w or x.f >= x.s) continue;
      bool bad = y.f < y.s ? (x.f < y.s and y.f < x.s) : (x.f < y.s and y.f < x.s);
      if (bad) vsim_fail("history", "%s: accesses of block %d to values %lld and %lld have no sequential order", nm(t).c_str(), b, (long long)v, (long long)w);
    }
  }
}

int64_t fresh() { return S().next++; }

// explicit locks of this node
bool g_locked = false;

struct Pending { std::function<void()> finish; };
std::vector<Pending>& pend() { static std::vector<Pending> v; return v; }

template <class T> void initMem(Target& t, T* p, std::size_t n) {
  if (n != t.n) vsim_fail("count", "%s: local access is given %zu elements instead of %zu", nm(t).c_str(), n, t.n);
  if (n == 0) { t.inited = true; return; }
  for (std::size_t i = 0; i < n; i++) p[i] = (T)guard(t, i);
  for (int b = 0; b < t.blocks; b++) {
    auto v = fresh();
    t.blk[(std::size_t)b].h.push_back({true, v, tick(), 0});
    for (int i = 0; i < B; i++) p[atBlk(b) + (std::size_t)i] = (T)enc(v, i);
    t.blk[(std::size_t)b].h.back().end = tick();
  }
  auto o = off(t);
  p[o.sum] = 0; p[o.max] = 0; p[o.fop] = 0; p[o.rmw] = 0; p[o.rmw + 1] = 0;
  t.inited = true;
}
template <class T> void guards(Target& t, T const* p) {
  for (std::size_t i = 0; i < t.n; i++) if (isGuard(t, i) and val(p[i]) != guard(t, i)) vsim_fail("neighbour", "%s: element %zu was changed from %lld to %lld", nm(t).c_str(), i, (long long)guard(t, i), (long long)val(p[i]));
}
template <class T> void finalCheck(Target& t, T const* p, std::size_t n) {
  if (n != t.n) vsim_fail("count", "%s: local access is given %zu elements instead of %zu", nm(t).c_str(), n, t.n);
  if (n == 0) return;
  guards(t, p);
  auto o = off(t);
  if (val(p[o.sum]) != t.sumEnd) vsim_fail("accumulate", "%s: accumulated sum is %lld instead of %lld", nm(t).c_str(), (long long)val(p[o.sum]), (long long)t.sumEnd);
  if (val(p[o.max]) != t.max) vsim_fail("accumulate", "%s: accumulated maximum is %lld instead of %lld", nm(t).c_str(), (long long)val(p[o.max]), (long long)t.max);
  int64_t f = 0;
  for (auto& x : t.fops) f += x.add;
  if (val(p[o.fop]) != f) vsim_fail("fetch-op", "%s: counter is %lld instead of %lld", nm(t).c_str(), (long long)val(p[o.fop]), (long long)f);
  // the fetched values are the partial sums in some order
  std::vector<Fop> v = t.fops;
  std::sort(v.begin(), v.end(), [](Fop const& a, Fop const& b) { return a.val < b.val; });
  int64_t run = 0;
  for (std::size_t i = 0; i < v.size(); i++) {
    if (v[i].val != run) vsim_fail("fetch-op", "%s: fetched value %lld does not follow from the other fetches (expected %lld)", nm(t).c_str(), (long long)v[i].val, (long long)run);
    run += v[i].add;
    for (std::size_t j = 0; j < i; j++) if (v[i].end < v[j].start) vsim_fail("fetch-op", "%s: a fetch that ended before another began fetched the later value", nm(t).c_str());
  }
  if (val(p[o.rmw]) != t.rmw or val(p[o.rmw + 1]) != -t.rmw) vsim_fail("lock", "%s: read-modify-write counter is %lld/%lld after %lld updates under an exclusive lock", nm(t).c_str(), (long long)val(p[o.rmw]), (long long)val(p[o.rmw + 1]), (long long)t.rmw);
  judge(t);
}

// One operation through handle h on the memory named by key; `nodeH` if the
// handle has explicit locks, `local` if that memory is this node's.
template <class T, class H, class K> void op(H& h, K key, Target& t, Rng& g, bool explicitOk, bool local, bool mayDefer) {
  constexpr bool nodeH = std::is_same<K, NodeType>::value;
  if (t.n == 0) {
    if (h.getCount(key) != 0) vsim_fail("count", "%s: count is not 0", nm(t).c_str());
    return;
  }
  auto o = off(t);
  auto b = (int)g.range(0, t.blocks - 1);
  auto rdl = [&] { return g.chance(50) ? Lock::Shared : Lock::Exclusive; };
  T buf[B];
  auto k = g.range(0, 15);
  if (k <= 1) {                                    // put
    auto v = fresh(); auto i = beginWrite(t, b, v);
    for (int j = 0; j < B; j++) buf[j] = (T)enc(v, j);
    vsim_log("%s: put %lld in block %d", nm(t).c_str(), (long long)v, b);
    h.put(key, buf, B, (int)atBlk(b), Lock::Exclusive);
    endWrite(t, b, i);
    vsim_probe("put");
  } else if (k <= 3) {                             // get
    auto s = tick();
    for (auto& x : buf) x = (T)-1;
    h.get(key, buf, B, (int)atBlk(b), rdl());
    auto v = decode(t, b, buf);
    vsim_log("%s: get block %d: %lld", nm(t).c_str(), b, (long long)v);
    onRead(t, b, v, s);
    vsim_probe("get");
  } else if (k == 4) {                             // asynchronous put
    auto v = fresh(); auto i = beginWrite(t, b, v);
    auto p = std::make_shared<std::vector<T>>(B);
    for (int j = 0; j < B; j++) (*p)[(std::size_t)j] = (T)enc(v, j);
    vsim_log("%s: rput %lld in block %d", nm(t).c_str(), (long long)v, b);
    auto r = std::make_shared<vt::rdma::RequestHolder>(h.rput(key, p->data(), B, (int)atBlk(b), Lock::Exclusive));
    auto fin = [=, &t] { r->wait(); endWrite(t, b, i); p->assign(p->size(), (T)-77); };
    vsim_probe("rput");
    if (mayDefer and g.chance(60)) pend().push_back({fin}); else fin();
  } else if (k == 5) {                             // asynchronous get
    auto s = tick();
    auto p = std::make_shared<std::vector<T>>(B, (T)-1);
    auto fired = std::make_shared<int>(0);
    auto r = std::make_shared<vt::rdma::RequestHolder>(h.rget(key, p->data(), B, (int)atBlk(b), rdl()));
    bool act = g.chance(50);
    if (act) r->addAction([fired, p, b, &t] { (*fired)++; decode(t, b, p->data()); });
    bool poll = g.chance(40);
    auto fin = [=, &t] {
      if (poll) {
        vt::theSched()->runSchedulerWhile([r] { return not r->test(); });
        if (not r->done()) vsim_fail("request", "%s: request is not done after it tested complete", nm(t).c_str());
      } else r->wait();
      auto v = decode(t, b, p->data());
      onRead(t, b, v, s);
      if (act) { r->wait(); r->wait(); if (*fired != 1) vsim_fail("action", "%s: action of a request ran %d times", nm(t).c_str(), *fired); }
    };
    vsim_probe("rget");
    if (mayDefer and g.chance(60)) pend().push_back({fin}); else fin();
  } else if (k == 6) {                             // accumulate
    T x[2] = {(T)g.range(1, 20), (T)g.range(1, 1000000)};
    t.sumStart += val(x[0]);
    h.accum(key, &x[0], 1, (int)o.sum, MPI_SUM, rdl());
    t.sumEnd += val(x[0]);
    if (g.chance(50)) { t.max = std::max(t.max, val(x[1])); h.accum(key, &x[1], 1, (int)o.max, MPI_MAX, rdl()); }
    vsim_probe("accum");
  } else if (k == 7) {                             // asynchronous accumulate
    auto p = std::make_shared<T>((T)g.range(1, 20));
    t.sumStart += val(*p);
    auto add = val(*p);
    auto r = std::make_shared<vt::rdma::RequestHolder>(h.raccum(key, p.get(), 1, (int)o.sum, MPI_SUM, rdl()));
    auto fin = [=, &t] { r->wait(); t.sumEnd += add; *p = (T)-99; };
    vsim_probe("raccum");
    if (mayDefer and g.chance(60)) pend().push_back({fin}); else fin();
  } else if (k == 8) {                             // fetch and add
    auto add = g.range(1, 5); auto s = tick();
    auto v = h.fetchOp(key, (T)add, (int)o.fop, MPI_SUM, rdl());
    t.fops.push_back({val(v), add, s, tick()});
    vsim_probe("fetch-op");
  } else if (k == 9) {                             // read of the sum between its bounds
    auto lo = t.sumEnd;
    T x = (T)-1;
    h.get(key, &x, 1, (int)o.sum, Lock::Exclusive);
    if (val(x) < lo or val(x) > t.sumStart) vsim_fail("accumulate", "%s: sum reads %lld with %lld completed and %lld started", nm(t).c_str(), (long long)val(x), (long long)lo, (long long)t.sumStart);
  } else if (k == 10) {
    if (h.getCount(key) != t.n) vsim_fail("count", "%s: count is %zu instead of %zu", nm(t).c_str(), h.getCount(key), t.n);
  } else if (k == 11) {                            // the whole memory at once
    std::vector<T> all(t.n, (T)-1);
    auto s = tick();
    h.get(key, all.data(), t.n, 0, rdl());
    guards(t, all.data());
    auto e = (int)t.blocks;
    for (int j = 0; j < e; j++) onRead(t, j, decode(t, j, &all[atBlk(j)]), s);
    vsim_probe("get-all");
  } else if (k == 12 and local) {
    if (g.chance(50)) {
      auto v = fresh(); auto i = beginWrite(t, b, v);
      h.modifyExclusive([&](T* p, std::size_t n) {
        if (n != t.n) vsim_fail("count", "%s: local access is given %zu elements instead of %zu", nm(t).c_str(), n, t.n);
        for (int j = 0; j < B; j++) p[atBlk(b) + (std::size_t)j] = (T)enc(v, j);
      });
      endWrite(t, b, i);
    } else {
      auto s = tick();
      auto rd = [&](T const* p, std::size_t n) {
        if (n != t.n) vsim_fail("count", "%s: local access is given %zu elements instead of %zu", nm(t).c_str(), n, t.n);
        guards(t, p);
        onRead(t, b, decode(t, b, p + atBlk(b)), s);
      };
      if (g.chance(50)) h.readExclusive(rd); else h.readShared(rd);
    }
    vsim_probe("local-access");
  } else if (k == 13) {                            // into a buffer of the handle, or to actions
    auto c = h;                                    // handles are values
    int fired = 0; int64_t v = -1; auto s = tick();
    std::vector<T> mine(B, (T)-1);
    bool own = g.chance(50);
    if (own) c.setBuffer(mine.data());
    c.addAction([&](T* p) { fired++; v = decode(t, b, p); });
    if (g.chance(50)) { auto r = c.rget(key, B, (int)atBlk(b), rdl()); r.wait(); } else c.get(key, B, (int)atBlk(b), rdl());
    if (fired != 1) vsim_fail("action", "%s: action of a handle ran %d times for one get", nm(t).c_str(), fired);
    if (own and decode(t, b, mine.data()) != v) vsim_fail("action", "%s: action saw other data than the handle's buffer", nm(t).c_str());
    onRead(t, b, v, s);
    vsim_probe("buffer-get");
  } else {
    if constexpr (nodeH) {
      if (not explicitOk or g_locked) return;
      g_locked = true;
      if (k == 14) {                               // read-modify-write under an exclusive lock
        h.lock(Lock::Exclusive, key);
        T x[2] = {(T)-1, (T)-1};
        h.get(key, x, 2, (int)o.rmw);
        if (val(x[0]) != -val(x[1]) or val(x[0]) != t.rmw) vsim_fail("lock", "%s: counter under the exclusive lock is %lld/%lld after %lld updates", nm(t).c_str(), (long long)val(x[0]), (long long)val(x[1]), (long long)t.rmw);
        auto now = ++t.rmw;
        T y[2] = {(T)(val(x[0]) + 1), (T)(-val(x[0]) - 1)};
        h.put(key, y, 2, (int)o.rmw);
        if (g.chance(50)) { h.flush(key); h.get(key, x, 2, (int)o.rmw); if (val(x[0]) != now) vsim_fail("lock", "%s: counter reads %lld after it was set to %lld and flushed", nm(t).c_str(), (long long)val(x[0]), (long long)now); }
        if (g.chance(30)) h.flushAll();
        h.unlock();
        vsim_probe("read-modify-write");
      } else {                                     // several operations under one shared lock
        h.lock(Lock::Shared, key);
        auto s = tick();
        std::vector<T> x((std::size_t)B * 3, (T)-1);
        std::vector<vt::rdma::RequestHolder> rs;
        std::vector<int> bs;
        for (int j = 0; j < 3; j++) { bs.push_back((int)g.range(0, t.blocks - 1)); rs.emplace_back(h.rget(key, &x[(std::size_t)(j * B)], B, (int)atBlk(bs.back()))); }
        T a = (T)g.range(1, 9);
        auto add = val(a);
        t.sumStart += add;
        h.accum(key, &a, 1, (int)o.sum, MPI_SUM);
        if (g.chance(50)) { h.flushLocal(key); a = (T)-5000; }
        for (auto& r : rs) r.wait();
        // nobody can have written while the shared lock is held
        for (int j = 0; j < 3; j++) onRead(t, bs[(std::size_t)j], decode(t, bs[(std::size_t)j], &x[(std::size_t)(j * B)]), s);
        for (int j = 1; j < 3; j++) if (bs[0] == bs[(std::size_t)j] and val(x[0]) != val(x[(std::size_t)(j * B)])) vsim_fail("lock", "%s: block %d changed while a shared lock was held", nm(t).c_str(), bs[0]);
        h.unlock();
        t.sumEnd += add;
        vsim_probe("shared-lock");
      }
      g_locked = false;
    }
  }
}

void finishSome(Rng& g, bool all) {
  auto& v = pend();
  while (not v.empty() and (all or g.chance(50))) {
    auto i = (std::size_t)g.range(0, (int64_t)v.size() - 1);
    auto f = v[i].finish;
    v.erase(v.begin() + (std::ptrdiff_t)i);
    f();
  }
}

// ------------------------------------------------- node handles and handle sets

struct Owner { int x = 0; };

struct Held {                          // a handle on this node, type erased
  int hid = 0;
  std::function<void(Rng&, bool, bool)> step;         // one operation on a random target
  std::function<bool()> ready;
  std::function<void()> init, check, destroy, early;
  bool inited = false;
};
std::vector<Held>& mine() { static std::vector<Held> v; return v; }

int blocksOf(int hid, int id) {
  Rng g("blocks", (uint64_t)(hid * 1000 + (S().h[hid].uniform ? 0 : id)));
  if (not S().h[hid].uniform and S().h[hid].kind == 0 and g.chance(15)) return 0;
  return (int)g.range(1, 4);
}
int lookups(int hid, int node) { Rng g("lookups", (uint64_t)(hid * 1000 + node)); return (int)g.range(1, 3); }
bool inited(int hid) { auto& h = S().h[hid]; if (h.inited < h.t.size()) return false; return not h.gone; }

template <class T> Held makeNode(vt::objgroup::proxy::Proxy<Owner> p, int hid) {
  for (int i = 0; i < nn(); i++) addTarget(hid, i, blocksOf(hid, i));
  auto& t = S().h[hid].t[me()];
  auto h = std::make_shared<vt::HandleRDMA<T>>(p.template makeHandleRDMA<T>(t.n, S().h[hid].uniform));
  Held r; r.hid = hid;
  r.ready = [=] { return h->ready(); };
  r.init = [=, &t] { h->modifyExclusive([&](T* q, std::size_t n) { initMem(t, q, n); }); S().h[hid].inited++; };
  r.check = [=, &t] { h->readExclusive([&](T const* q, std::size_t n) { finalCheck(t, q, n); }); };
  r.destroy = [=] { p.destroyHandleRDMA(*h); };
  r.early = [=] {
    for (int i = 0; i < nn(); i++) if (h->getCount((NodeType)i) != S().h[hid].t[i].n) vsim_fail("count", "handle %d is ready at %d, but the count of node %d is %zu instead of %zu", hid, me(), i, h->getCount((NodeType)i), S().h[hid].t[i].n);
  };
  r.step = [=](Rng& g, bool ex, bool defer) {
    auto i = (int)g.range(0, nn() - 1);
    op<T>(*h, (NodeType)i, S().h[hid].t[i], g, ex, i == me(), defer);
  };
  return r;
}
template <class T> Held makeSet(vt::objgroup::proxy::Proxy<Owner> p, int hid) {
  bool dense = S().h[hid].kind == 1;
  auto idOf = [](int node, int l) { return node * 8 + l; };
  auto look = [=](int node, int j) { return dense ? j : (j * 5 + node + hid) % 16; };
  for (int i = 0; i < nn(); i++) for (int j = 0; j < lookups(hid, i); j++) addTarget(hid, idOf(i, j), blocksOf(hid, idOf(i, j)));
  vt::rdma::HandleSet<T> set;
  int maxl = 16;
  if (dense) {
    std::vector<std::size_t> v;
    for (int j = 0; j < lookups(hid, me()); j++) v.push_back(S().h[hid].t[idOf(me(), j)].n);
    set = p.template makeHandleSetRDMA<T>(maxl, v, S().h[hid].uniform);
  } else {
    std::unordered_map<int32_t, std::size_t> m;
    for (int j = 0; j < lookups(hid, me()); j++) m[look(me(), j)] = S().h[hid].t[idOf(me(), j)].n;
    set = p.template makeHandleSetRDMA<T>(maxl, m, S().h[hid].uniform);
  }
  auto h = std::make_shared<vt::rdma::HandleSet<T>>(set);
  Held r; r.hid = hid;
  r.ready = [=] { return (*h)->ready(); };
  r.init = [=] {
    for (int j = 0; j < lookups(hid, me()); j++) (*h)[look(me(), j)].modifyExclusive([&](T* q, std::size_t n) { initMem(S().h[hid].t[idOf(me(), j)], q, n); S().h[hid].inited++; });
  };
  r.check = [=] {
    for (int j = 0; j < lookups(hid, me()); j++) (*h)[look(me(), j)].readExclusive([&](T const* q, std::size_t n) { finalCheck(S().h[hid].t[idOf(me(), j)], q, n); });
  };
  r.destroy = [=] { p.destroyHandleSetRDMA(*h); };
  auto key = [=](int i, int j) { return vt::Index2D(i, look(i, j)); };
  r.early = [=] {
    for (int i = 0; i < nn(); i++) for (int j = 0; j < lookups(hid, i); j++) {
      auto c = (*h)->getCount(key(i, j)), w = S().h[hid].t[idOf(i, j)].n;
      if (c != w) vsim_fail("count", "handle set %d exists at %d, but the count of sub handle %d of node %d is %zu instead of %zu", hid, me(), look(i, j), i, c, w);
    }
  };
  r.step = [=](Rng& g, bool, bool defer) {
    auto i = (int)g.range(0, nn() - 1), j = (int)g.range(0, lookups(hid, i) - 1);
    auto& any = i == me() ? (*h)[look(i, j)] : h->getAny();
    op<T>(any, key(i, j), S().h[hid].t[idOf(i, j)], g, false, i == me(), defer);
  };
  return r;
}
Held make(vt::objgroup::proxy::Proxy<Owner> p, int hid) {
  Rng g("handle", (uint64_t)hid);
  auto& h = S().h[hid];
  h.kind = (int)std::max<int64_t>(0, g.range(-1, 2)); h.uniform = h.kind == 0 and g.chance(50);
  auto ty = g.range(0, 2);
  vsim_log("create handle %d kind %d%s", hid, h.kind, h.uniform ? " uniform" : "");
  if (h.kind == 0) return ty == 0 ? makeNode<int32_t>(p, hid) : ty == 1 ? makeNode<uint64_t>(p, hid) : makeNode<double>(p, hid);
  return ty == 0 ? makeSet<int32_t>(p, hid) : ty == 1 ? makeSet<int64_t>(p, hid) : makeSet<double>(p, hid);
}

void advance(Held& x, bool early) {
  if (x.inited or not x.ready()) return;
  x.inited = true;
  if (early) x.early();
  x.init();
  vsim_log("handle %d initialised", x.hid);
}
int g_depth = 0;
void step(Rng& g, bool ex) {
  std::vector<Held*> ok;
  for (auto& x : mine()) if (x.inited and inited(x.hid)) ok.push_back(&x);
  if (ok.empty() or g_locked) return;
  auto& x = *ok[(std::size_t)g.range(0, (int64_t)ok.size() - 1)];
  x.step(g, ex, g_depth == 0);
}
struct Poke : vt::Message { uint64_t seed; int hops; };
void poke(Poke* m) {
  Rng g(m->seed);
  g_depth++;
  if (g_depth < 4) step(g, false);
  g_depth--;
  vsim_probe("poke");
  S().pokes--;
  vsim_touch();
  if (m->hops > 0) { S().pokes++; auto n = vt::makeMessage<Poke>(); n->seed = g.next(); n->hops = m->hops - 1; vt::theMsg()->sendMsg<poke>((NodeType)g.range(0, nn() - 1), n); }
}

void nodeMode() {
  init();
  vt::theTerm()->produce();
  auto proxy = vt::theObjGroup()->makeCollective<Owner>("owner");
  auto proxy2 = vt::theObjGroup()->makeCollective<Owner>("owner 2");
  int rounds = (int)vsim_param("rounds", 1, 2);
  bool early = vsim_param("together", 0, 1);          // all handles before any operation
  int hid = 0;
  for (int r = 0; r < rounds; r++) {
    auto key = [&](char const* w) { return std::string(w) + std::to_string(r); };
    int make_n = (int)vsim_param(key("handles").c_str(), 1, 3), made = 0;
    int ops = (int)vsim_param(key("ops").c_str(), 4, 30);
    Rng g("prog", (uint64_t)(r * 64 + me()));
    auto create = [&] {
      mine().reserve(64);
      auto id = hid++;
      auto h = make(Rng("owner", (uint64_t)id).chance(70) ? proxy : proxy2, id);
      mine().push_back(h);
      made++;
    };
    if (early) {
      while (made < make_n) create();
      pumpUntil([&] { bool all = true; for (auto& x : mine()) { advance(x, true); all = all and x.inited; } return all; });
      meet(key("made").c_str());
    }
    for (int i = 0; i < ops or made < make_n; i++) {
      if (not vsim_op_on((uint64_t)(r * 10000 + me() * 1000 + i))) { if (made < make_n) create(); continue; }
      Rng o(g.next());
      if (made < make_n and o.chance(30)) create();
      for (auto& x : mine()) advance(x, true);
      if (o.chance(25)) { S().pokes++; auto m = vt::makeMessage<Poke>(); m->seed = o.next(); m->hops = (int)o.range(0, 3); vt::theMsg()->sendMsg<poke>((NodeType)o.range(0, nn() - 1), m); }
      else step(o, early);
      finishSome(o, false);
      if (o.chance(40)) vt::theSched()->runSchedulerOnceImpl();
      if (o.chance(20)) vsim_advance((uint64_t)o.range(100, 50000));
    }
    pumpUntil([&] { bool all = true; for (auto& x : mine()) { advance(x, true); all = all and x.inited; } return all; });
    finishSome(g, true);
    // messages still cause operations: wait for quiescence
    meet(key("ops done").c_str());
    pumpUntil([] { return S().pokes == 0; });
    finishSome(g, true);
    meet(key("really quiet").c_str());
    for (auto& x : mine()) x.check();
    meet(key("checked").c_str());
    bool last = r + 1 == rounds;
    std::vector<Held> keep;
    for (auto& x : mine()) {
      if (last or Rng("destroy", (uint64_t)x.hid).chance(40)) { S().h[x.hid].gone = true; x.destroy(); vsim_probe("destroyed"); }
      else keep.push_back(x);
    }
    mine().swap(keep);
    meet(key("destroyed").c_str());
  }
  vt::theTerm()->consume();
  vt::finalize();
}


// ------------------------------------------------- handles of collection elements

struct Col : vt::Collection<Col, vt::Index1D> {
  vt::HandleRDMA<int64_t, vt::Index1D> a;
  vt::HandleRDMA<double, vt::Index1D> b;
  int mark = -1;
  int me_() { return (int)this->getIndex().x(); }
  Target& tgt(int k) { return S().h[k].t[me_()]; }
  void make(int k) {
    mark = me_();
    auto p = this->getCollectionProxy();
    if (k & 1) a = p.template makeHandleRDMA<int64_t>(this->getIndex(), tgt(0).n, false);
    if (k & 2) b = p.template makeHandleRDMA<double>(this->getIndex(), tgt(1).n, false);
  }
  void setup(int k) {
    if (k & 1) { if (not a.ready()) vsim_fail("ready", "handle is not ready after the epoch of its creation"); a.modifyExclusive([&](int64_t* q, std::size_t n) { initMem(tgt(0), q, n); }); }
    if (k & 2) { if (not b.ready()) vsim_fail("ready", "handle is not ready after the epoch of its creation"); b.modifyExclusive([&](double* q, std::size_t n) { initMem(tgt(1), q, n); }); }
    vsim_probe("element-setup");
  }
  void work(int k, uint64_t seed, int n, int local, int hops) {
    Rng g(seed);
    auto one = [&] {
      auto j = (int)g.range(0, n - 1);
      bool second = k == 2 or (k == 3 and g.chance(50));
      auto& t = S().h[second].t[j];
      auto key = vt::Index1D(j);
      if (second) op<double>(b, key, t, g, false, local and j == me_(), true);
      else op<int64_t>(a, key, t, g, false, local and j == me_(), true);
    };
    for (auto c = g.range(1, 4); c > 0; c--) one();
    finishSome(g, true);
    if (hops > 0) this->getCollectionProxy()[vt::Index1D((int)g.range(0, n - 1))].template send<&Col::work>(k, g.next(), n, local, hops - 1);
    vsim_probe("element-work");
  }
  void move(uint64_t seed) {
    Rng g(seed + (uint64_t)me_() * 77);
    auto to = (NodeType)g.range(0, nn() - 1);
    if (g.chance(60) and to != (NodeType)me()) { vsim_log("element %d migrates to %d", me_(), to); vsim_probe("migrated"); this->migrate(to); }
  }
  void check(int k) {
    if (k & 1) a.readExclusive([&](int64_t const* q, std::size_t n) { finalCheck(tgt(0), q, n); });
    if (k & 2) b.readExclusive([&](double const* q, std::size_t n) { finalCheck(tgt(1), q, n); });
    vsim_probe("element-checked");
  }
  void destroy(int k) {
    auto p = this->getCollectionProxy();
    if (k == 1) p.destroyHandleRDMA(a); else p.destroyHandleRDMA(b);
  }
  template <class Z> void serialize(Z& z) { vt::Collection<Col, vt::Index1D>::serialize(z); z | a | b | mark; }
};

void collMode() {
  init();
  int n = (int)vsim_param("elements", 1, 9), rounds = (int)vsim_param("rounds", 1, 3);
  int kinds = (int)vsim_param("handles", 1, 3);
  bool destroy = vsim_param("destroy", 0, 1);
  for (int k = 0; k < 2; k++) for (int j = 0; j < n; j++) addTarget(k, j, (int)Rng("blocks", (uint64_t)(k * 100 + j)).range(1, 3));
  vt::CollectionProxy<Col, vt::Index1D> p;
  vt::runInEpochCollective([&] { p = vt::makeCollection<Col>("cells").bounds(vt::Index1D(n)).bulkInsert().wait(); });
  vt::runInEpochCollective([&] { p.template broadcastCollective<&Col::make>(kinds); });
  vt::runInEpochCollective([&] { p.template broadcastCollective<&Col::setup>(kinds); });
  for (int r = 0; r < rounds; r++) {
    auto work = [&](int local, char const* what) {
      int cnt = (int)vsim_param((std::string(what) + std::to_string(r)).c_str(), 0, 4);
      vt::runInEpochCollective([&] {
        Rng g(what, (uint64_t)(r * 64 + me()));
        for (int i = 0; i < cnt; i++) {
          auto s = g.next(); auto to = (int)g.range(0, n - 1); auto hops = (int)g.range(0, 2);
          if (vsim_op_on((uint64_t)(r * 1000 + (local ? 500 : 0) + me() * 20 + i))) p[vt::Index1D(to)].template send<&Col::work>(kinds, s, n, local, hops);
        }
      });
    };
    work(1, "work");
    vt::runInEpochCollective([&] { p.template broadcastCollective<&Col::check>(kinds); });
    auto seed = vsim_hash("move", (uint64_t)r);
    vt::runInEpochCollective([&] { p.template broadcastCollective<&Col::move>(seed); });
    work(0, "between");            // the data has not moved yet, but can be used
    vt::thePhase()->runHooksManual(vt::phase::PhaseHook::EndPostMigration);
    vt::runInEpochCollective([&] { p.template broadcastCollective<&Col::check>(kinds); });
  }
  if (destroy) {
    if (kinds & 1) vt::runInEpochCollective([&] { p.template broadcastCollective<&Col::destroy>(1); });
    if (kinds & 2) vt::runInEpochCollective([&] { p.template broadcastCollective<&Col::destroy>(2); });
    vsim_probe("elements-destroyed");
  }
  vt::finalize();
}

} // namespace

WL_ENTRY {
  std::string mode = mode_c;
  if (mode == "elements") collMode(); else nodeMode();
  vsim_done();
}
