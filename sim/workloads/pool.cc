// Pooled memory and message lifetimes.
#include "wl.h"
#include <vt/pool/static_sized/memory_pool_equal.impl.h>
#include <cstring>
using namespace wl;

namespace {

// ---------------------------------------------------------------- allocation histories
struct Block { std::byte* p; std::size_t n, over; uint64_t key; int pool; };

template <class PoolT> struct Hist {
  PoolT* pool;
  char const* name;
  bool fixed;                 // fixed-size blocks without a size query
  std::size_t fixed_n;
  std::map<uintptr_t, Block> live;
  uint64_t key = 0;

  void verify(Block const& b) {
    if (not matches(reinterpret_cast<uint8_t*>(b.p), b.n + b.over, b.key)) {
      vsim_fail("contents", "%s: a live allocation of %zu+%zu bytes was overwritten", name, b.n, b.over);
    }
  }
  void add(std::byte* p, std::size_t n, std::size_t over) {
    if (not p) vsim_fail("alloc", "%s: allocation of %zu bytes failed", name, n);
    auto a = (uintptr_t)p;
    if (a % alignof(std::max_align_t)) vsim_fail("alignment", "%s: an allocation of %zu+%zu bytes is aligned to less than %zu", name, n, over, alignof(std::max_align_t));
    auto nx = live.lower_bound(a);
    if (nx != live.end() and nx->first < a + n + over) vsim_fail("overlap", "%s: an allocation of %zu+%zu bytes overlaps a live one", name, n, over);
    if (nx != live.begin()) {
      auto pv = std::prev(nx);
      if (pv->first + pv->second.n + pv->second.over > a) vsim_fail("overlap", "%s: an allocation of %zu+%zu bytes overlaps a live one of %zu+%zu", name, n, over, pv->second.n, pv->second.over);
    }
    Block b{p, n, over, ++key * 77 + vsim_hash(name, key), 0};
    fill(reinterpret_cast<uint8_t*>(p), n + over, b.key);
    live[a] = b;
  }
  Block pick(Rng& g) {
    auto it = live.begin();
    std::advance(it, g.range(0, (int64_t)live.size() - 1));
    return it->second;
  }
};

std::size_t pickSize(Rng& g) {
  static std::size_t const edge[] = {64, 1024, 16, 80, 1040, 2048, 4096};
  switch (g.range(0, 5)) {
    case 0: return (std::size_t)g.range(0, 80);
    case 1: return (std::size_t)g.range(0, 1100);
    case 2: { auto e = edge[g.range(0, 6)]; return e + g.range(-2, 2); }
    case 3: return (std::size_t)g.range(0, 20000);
    case 4: return (std::size_t)g.range(1, 64);
    default: return (std::size_t)g.range(64, 1024);
  }
}

void poolOps(Hist<vt::pool::Pool>& h, Rng& g, int n) {
  auto* p = h.pool;
  for (int i = 0; i < n; i++) {
    int k = (int)g.range(0, 99);
    std::size_t limit = g.chance(2) ? 3000 : 200;
    if (h.live.empty() or (k < 52 and h.live.size() < limit)) {
      auto sz = pickSize(g);
      std::size_t over = g.chance(70) ? 0 : pickSize(g);
      auto b = over == 0 and g.chance(50) ? p->alloc(sz) : p->alloc(sz, over);
      h.add(b, sz, over);
      if (p->allocatedSize(b) != sz + over) vsim_fail("size", "%s: allocation of %zu+%zu bytes reports size %zu", h.name, sz, over, p->allocatedSize(b));
    } else if (k < 60) {
      // use the rest of the block, as packing a payload into a message does
      auto b = h.pick(g);
      std::size_t rem = p->remainingSize(b.p);
      if (rem > 1u << 20) vsim_fail("size", "%s: remaining size %zu", h.name, rem);
      std::size_t grow = g.chance(30) ? rem + (std::size_t)g.range(1, 40) : g.chance(50) ? rem : (std::size_t)g.range(0, (int64_t)rem);
      bool ok = p->tryGrowAllocation(b.p, grow);
      if (grow > rem and ok) vsim_fail("grow", "%s: an allocation grew by %zu although only %zu bytes remain", h.name, grow, rem);
      if (ok) {
        vsim_probe("grown");
        h.verify(b);
        if (p->allocatedSize(b.p) != b.n + b.over + grow) vsim_fail("size", "%s: a grown allocation reports the wrong size", h.name);
        auto a = (uintptr_t)b.p;
        h.live.erase(a);
        h.add(b.p, b.n + grow, b.over);
      } else {
        if (p->allocatedSize(b.p) != b.n + b.over) vsim_fail("size", "%s: a refused growth changed the size", h.name);
      }
    } else if (k < 64) {
      for (auto& x : h.live) h.verify(x.second);
    } else {
      auto b = h.pick(g);
      h.verify(b);
      if (p->allocatedSize(b.p) != b.n + b.over) vsim_fail("size", "%s: the size of a live allocation changed", h.name);
      h.live.erase((uintptr_t)b.p);
      p->dealloc(b.p);
    }
  }
}
void drain(Hist<vt::pool::Pool>& h) {
  while (not h.live.empty()) {
    auto b = h.live.begin()->second;
    h.verify(b);
    h.live.erase(h.live.begin());
    h.pool->dealloc(b.p);
  }
}
template <class MP> void equalOps(Hist<MP>& h, Rng& g, int n, std::size_t sz) {
  for (int i = 0; i < n; i++) {
    if (h.live.empty() or (g.chance(60) and h.live.size() < 400)) {
      std::size_t s = h.fixed ? sz : (std::size_t)g.range(0, (int64_t)sz);
      h.add(h.pool->alloc(s, 0), s, 0);
    } else {
      auto b = h.pick(g);
      h.verify(b);
      h.live.erase((uintptr_t)b.p);
      h.pool->dealloc(b.p);
    }
  }
}

// ---------------------------------------------------------------- message lifetimes
struct MsgO { int64_t pending = 0, live_local = 0; int mains = 0; std::vector<int> runs, expect; std::map<void*, int> alive[8]; int64_t ctor = 0, dtor = 0; };
MsgO& M() { return shared<MsgO>("msgs"); }

struct LocalMsg : vt::Message {
  int id = 0, hops = 0; uint64_t key = 0;
  uint8_t data[40];
};
template <int N> struct Sized : vt::Message { int id = 0; uint64_t key = 0; uint8_t data[N]; };
struct Counted {
  Counted() { on(); }
  Counted(Counted const&) { on(); }
  ~Counted() { off(); }
  void on() {
    auto& a = M().alive[me()];
    if (a[this]++) vsim_fail("lifetime", "a message was constructed over a live one");
    M().ctor++;
  }
  void off() {
    auto& a = M().alive[me()];
    auto it = a.find(this);
    if (it == a.end()) vsim_fail("lifetime", "a message was destroyed twice");
    a.erase(it);
    M().dtor++;
  }
};
struct SerMsg : vt::Message {
  using MessageParentType = vt::Message;
  vt_msg_serialize_required();
  int id = 0, hops = 0; uint64_t key = 0;
  std::vector<uint8_t> v;
  Counted c;
  template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | id | hops | key | v; }
};
std::deque<vt::MsgPtr<LocalMsg>> keepL;
std::deque<vt::MsgPtr<SerMsg>> keepS;
std::map<void*, uint64_t> kept;

void got(int id) {
  auto& o = M();
  if (++o.runs[id] > o.expect[id]) vsim_fail("duplicate", "message %d ran more often than sent", id);
  o.pending--;
  vsim_touch();
}
int mkid(int n) { auto& o = M(); o.runs.push_back(0); o.expect.push_back(n); o.pending += n; return (int)o.runs.size() - 1; }
void hL(LocalMsg* m);
void hS(SerMsg* m);
template <int N> void hN(Sized<N>* m) {
  if (not matches(m->data, N, m->key)) vsim_fail("contents", "a message of %d bytes arrived with other contents", N);
  got(m->id);
}
void hL(LocalMsg* m) {
  if (not matches(m->data, sizeof m->data, m->key)) vsim_fail("contents", "a message was overwritten");
  got(m->id);
  // keep it beyond the handler (a reference taken inside the handler)
  if (m->key % 3 == 0) { keepL.push_back(vt::promoteMsg(m)); vsim_probe("kept"); }
  if (m->hops > 0) {
    auto n = vt::makeMessage<LocalMsg>();
    n->hops = m->hops - 1; n->key = m->key * 7 + 1;
    fill(n->data, sizeof n->data, n->key);
    n->id = mkid(1);
    vt::theMsg()->sendMsg<hL>((int)(m->key % nn()), n);
  }
}
void hS(SerMsg* m) {
  if (m->v.size() != m->key % 2500 or not matches(m->v.data(), m->v.size(), m->key)) vsim_fail("contents", "a serialized message was overwritten");
  got(m->id);
  if (m->key % 3 == 0) keepS.push_back(vt::promoteMsg(m));
}
void releaseSome(Rng& g) {
  while (not keepL.empty() and g.chance(60)) {
    std::size_t i = (std::size_t)g.range(0, (int64_t)keepL.size() - 1);
    auto& m = keepL[i];
    if (not matches(m->data, sizeof m->data, m->key)) vsim_fail("contents", "a message was overwritten while a reference to it is kept");
    if (g.chance(30)) { vt::MsgPtr<LocalMsg> copy = m; vt::MsgPtr<LocalMsg> c2 = std::move(copy); m = c2; }
    keepL.erase(keepL.begin() + i);
  }
  while (not keepS.empty() and g.chance(60)) {
    auto& m = keepS.back();
    if (m->v.size() != m->key % 2500 or not matches(m->v.data(), m->v.size(), m->key)) vsim_fail("contents", "a serialized message was overwritten while a reference to it is kept");
    keepS.pop_back();
  }
}
template <int N> void sendSized(Rng& g) {
  auto m = vt::makeMessage<Sized<N>>();
  m->key = g.next(); fill(m->data, N, m->key);
  bool bc = g.chance(20);
  m->id = mkid(bc ? nn() : 1);
  if (bc) vt::theMsg()->broadcastMsg<Sized<N>, hN<N>>(m);
  else vt::theMsg()->sendMsg<Sized<N>, hN<N>>((int)g.range(0, nn() - 1), m);
}

void msgs() {
  auto& o = M();
  int ops = (int)vsim_param("ops", 1, 80);
  for (int i = 0; i < ops; i++) {
    if (not vsim_op_on(i)) continue;
    Rng g("op", i * 64 + me());
    switch (g.range(0, 9)) {
      case 0: case 1: case 2: {
        auto m = vt::makeMessage<LocalMsg>();
        m->key = g.next(); m->hops = (int)g.range(0, 4);
        fill(m->data, sizeof m->data, m->key);
        bool bc = g.chance(25);
        if (bc) m->hops = 0;
        m->id = mkid(bc ? nn() : 1);
        auto key = m->key;
        vt::MsgPtr<LocalMsg> held = m;
        if (bc) vt::theMsg()->broadcastMsg<hL>(m); else vt::theMsg()->sendMsg<hL>((int)g.range(0, nn() - 1), m);
        if (held->key != key) vsim_fail("contents", "a message was overwritten while held by its sender");
        if (g.chance(20)) keepL.push_back(held);
        break;
      }
      case 3: case 4: {
        auto m = vt::makeMessage<SerMsg>();
        m->key = g.next(); m->v.resize(m->key % 2500);
        fill(m->v.data(), m->v.size(), m->key);
        bool bc = g.chance(25);
        m->id = mkid(bc ? nn() : 1);
        if (bc) vt::theMsg()->broadcastMsg<hS>(m); else vt::theMsg()->sendMsg<hS>((int)g.range(0, nn() - 1), m);
        break;
      }
      case 5: sendSized<1>(g); break;
      case 6: sendSized<200>(g); break;
      case 7: sendSized<985>(g); break;
      case 8: sendSized<5000>(g); break;
      default: { int n = (int)g.range(0, 10); while (n-- > 0) vt::theSched()->runSchedulerOnceImpl(); }
    }
    // something of about the same size reuses memory as soon as it is free
    if (g.chance(30)) { auto b = vt::thePool()->alloc(g.range(1, 1000)); memset(b, 0xEE, 1); vt::thePool()->dealloc(b); }
    releaseSome(g);
  }
  o.mains++;
  vsim_touch();
  pumpUntil([&] { return o.mains == nn() and o.pending == 0; });
  Rng g("rel", me());
  while (not keepL.empty() or not keepS.empty()) releaseSome(g);
  // sends complete when the network is done with the buffers
  pumpUntil([&] { return o.alive[me()].empty(); });
  meet("end");
  vt::finalize();
  if (me() == 0) {
    for (std::size_t i = 0; i < o.runs.size(); i++) if (o.runs[i] != o.expect[i]) vsim_fail("lost", "message %zu ran %d times, sent to %d", i, o.runs[i], o.expect[i]);
  }
}
void describe(char* b, uint64_t n) { snprintf(b, n, "mains=%d pending=%ld messages alive=%ld", M().mains, (long)M().pending, (long)(M().ctor - M().dtor)); }

} // namespace

WL_ENTRY {
  std::string mode = mode_c;
  init();
  if (me() == 0) vsim_describe(describe);
  if (mode == "msgs") { msgs(); vsim_done(); return; }
  int n = (int)vsim_param("ops", 50, 2500);
  Rng g("pool", me());
  auto own = std::make_unique<vt::pool::Pool>();
  Hist<vt::pool::Pool> h1{own.get(), "pool", false, 0}, h2{vt::thePool(), "thePool", false, 0};
  using P1 = vt::pool::MemoryPoolEqual<96, false>;
  using P2 = vt::pool::MemoryPoolEqual<200, true>;
  auto p1 = std::make_unique<P1>(g.range(2, 64));
  auto p2 = std::make_unique<P2>(g.range(2, 64));
  Hist<P1> e1{p1.get(), "fixed pool", true, 96};
  Hist<P2> e2{p2.get(), "fixed pool with headers", false, 200};
  meet("start");
  int parts = 10;
  for (int i = 0; i < parts; i++) {
    poolOps(h1, g, n / parts);
    poolOps(h2, g, n / parts / 4 + 1);
    equalOps(e1, g, n / parts / 4 + 1, 96);
    equalOps(e2, g, n / parts / 4 + 1, 200);
    for (int k = 0; k < 5; k++) vt::theSched()->runSchedulerOnceImpl();
  }
  for (auto& x : h1.live) h1.verify(x.second);
  for (auto& x : h2.live) h2.verify(x.second);
  drain(h2);
  drain(h1);
  while (not e1.live.empty()) { e1.verify(e1.live.begin()->second); p1->dealloc(e1.live.begin()->second.p); e1.live.erase(e1.live.begin()); }
  while (not e2.live.empty()) { e2.verify(e2.live.begin()->second); p2->dealloc(e2.live.begin()->second.p); e2.live.erase(e2.live.begin()); }
  p1.reset();
  p2.reset();
  own.reset();
  meet("end");
  vt::finalize();
  vsim_done();
}
