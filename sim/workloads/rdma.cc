// C17: registered RDMA.  Modes: memory (buffers under the default functions),
// functions (user functions registered, removed and registered again while
// requests arrive), region (one array spread over all nodes).
#include "wl.h"
#include <functional>
#include <memory>
using namespace wl;
using vt::ByteType;
using vt::NodeType;
using vt::RDMA_HandleType;
using vt::TagType;

namespace {

uint64_t const INF = ~0ull;
struct W { uint8_t val; uint64_t start, end; };
struct Mem {                           // a range of bytes and everything ever written there
  int id, owner; std::size_t n, elm; RDMA_HandleType han = 0;
  std::vector<std::vector<W>> h;
};
struct Fop {
  int id, han, from; bool put, cont; TagType tag; ByteType bytes;
  int fn = 0, done = 0; bool tick = false;     // cont: no completion requested
};
struct Slot { TagType tag; bool any; bool on = false; vt::RDMA_HandlerType handler = 0; };
struct FHan { int id, owner; RDMA_HandleType han = 0; bool any, replaced = false; std::vector<Slot> get, put; };
struct State {
  std::map<int, Mem> m; std::map<int, FHan> f; std::deque<Fop> ops;
  uint64_t clock = 1; int pending = 0; uint64_t next = 1;
};
State& S() { static State* s = &shared<State>("rdma"); return *s; }
uint64_t tick() { return S().clock++; }

std::deque<std::vector<std::byte>>& keep() { static std::deque<std::vector<std::byte>> d; return d; }

uint64_t beginWrite(Mem& m, std::size_t at, std::byte const* p, std::size_t n) {
  auto t = tick();
  for (std::size_t i = 0; i < n; i++) m.h[at + i].push_back({(uint8_t)p[i], t, INF});
  return t;
}
void endWrite(Mem& m, std::size_t at, std::size_t n, uint64_t start) {
  auto t = tick();
  for (std::size_t i = 0; i < n; i++) for (auto& w : m.h[at + i]) if (w.start == start) w.end = t;
}
// every byte read must have been there at some time between start and now
void judge(Mem& m, std::size_t at, std::byte const* p, std::size_t n, uint64_t t0, char const* what) {
  auto t1 = tick();
  for (std::size_t i = 0; i < n; i++) {
    bool was = false, ok = false;
    for (auto& w : m.h[at + i]) {
      if (w.val != (uint8_t)p[i] or w.start > t1) continue;
      was = true;
      bool gone = false;
      for (auto& x : m.h[at + i]) if (x.start > w.end and x.end < t0) gone = true;
      if (not gone) ok = true;
    }
    if (not was) vsim_fail("value", "%s: byte %zu of memory %d (%zu bytes from %zu) is %02x, which was never put there", what, at + i, m.id, n, at, (unsigned)p[i]);
    if (not ok) vsim_fail("stale", "%s: byte %zu of memory %d (%zu bytes from %zu) is %02x, overwritten before", what, at + i, m.id, n, at, (unsigned)p[i]);
  }
}
Mem& newMem(int id, int owner, std::size_t n, std::size_t elm) {
  auto& m = S().m[id];
  m.id = id; m.owner = owner; m.n = n; m.elm = elm; m.h.resize(n);
  return m;
}
void initMem(Mem& m, std::size_t at, std::byte* p, std::size_t n) {
  fill((uint8_t*)p, n, S().next++ * 977);
  auto s = beginWrite(m, at, p, n);
  endWrite(m, at, n, s);
}
std::byte* fresh(std::size_t n) {
  keep().emplace_back(n + 16, std::byte{0xee});
  fill((uint8_t*)keep().back().data() + 8, n, S().next++ * 977 + 1);
  return keep().back().data() + 8;
}
void canary(std::byte const* p, std::size_t n) {
  for (int i = 1; i <= 8; i++) if (p[-i] != std::byte{0xee} or p[n + (std::size_t)i - 1] != std::byte{0xee}) vsim_fail("overrun", "a transfer of %zu bytes wrote outside its buffer", n);
}
void fired(std::shared_ptr<int> c) {
  if (++*c != 1) vsim_fail("twice", "the completion of one operation ran %d times", *c);
}
void done() { S().pending--; vsim_touch(); }

// start `left` operations one after the other (the next from the completion of the last)
using Next = std::function<void()>;

std::size_t someSize(Rng& g, std::size_t max) {
  auto k = g.range(0, 9);
  std::size_t n = k < 4 ? (std::size_t)g.range(1, 63) : k < 5 ? (std::size_t)g.range(62, 66) : k < 8 ? (std::size_t)g.range(64, 300) : (std::size_t)g.range(900, 5000);
  return std::min(n, max);
}

void memOp(uint64_t seed, Next next) {
  Rng g(seed);
  auto it = S().m.begin();
  std::advance(it, g.range(0, (int64_t)S().m.size() - 1));
  Mem& m = it->second;
  auto n = someSize(g, m.n);
  auto at = (std::size_t)g.range(0, (int64_t)(m.n - n));
  n = std::max<std::size_t>(m.elm, n / m.elm * m.elm); at = at / m.elm * m.elm;
  auto tag = g.chance(30) ? (TagType)g.range(1, 50) : vt::no_tag;
  auto c = std::make_shared<int>(0);
  bool local = m.owner == me();
  auto k = g.range(0, 7);
  if (k <= 2) {                                       // put
    if (k == 2) at = 0;
    auto p = fresh(n);
    auto s = beginWrite(m, at, p, n);
    vsim_log("put %zu bytes at %zu of memory %d tag %d %s", n, at, m.id, tag, local ? "local" : "");
    if (local) vsim_probe("put-local"); else if (n < 64) vsim_probe("put-small"); else if (n > 1024) vsim_probe("put-big"); else vsim_probe("put");
    auto act = [=, &m] {
      fired(c); endWrite(m, at, n, s);
      vsim_log("done: put %zu bytes at %zu of memory %d", n, at, m.id);
      for (std::size_t i = 0; i < n; i++) p[i] = std::byte{0xdd};
      next(); done();
    };
    S().pending++;
    if (k == 2) vt::theRDMA()->putData(m.han, p, n, act);
    else if (m.elm == 4) vt::theRDMA()->putTypedData(m.han, reinterpret_cast<int32_t*>(p), n / 4, at / 4, tag, act);
    else vt::theRDMA()->putData(m.han, p, n, at, tag, vt::rdma::rdma_default_byte_size, act);
  } else if (k == 3) {                                // put, nobody told
    auto p = fresh(n);
    beginWrite(m, at, p, n);
    vsim_log("put without action %zu bytes at %zu of memory %d", n, at, m.id);
    vsim_probe("put-no-action");
    vt::theRDMA()->putData(m.han, p, n, at, tag);
    next();
  } else if (k <= 5) {                                // get into a buffer
    auto p = fresh(n);
    auto s = tick();
    vsim_log("get into buffer %zu bytes at %zu of memory %d", n, at, m.id);
    vsim_probe(local ? "get-buffer-local" : "get-buffer");
    auto act = [=, &m] { fired(c); canary(p, n); judge(m, at, p, n, s, "get into buffer"); next(); done(); };
    S().pending++;
    if (m.elm == 4) vt::theRDMA()->getTypedDataInfoBuf(m.han, reinterpret_cast<int32_t*>(p), n / 4, at / 4, tag, act);
    else vt::theRDMA()->getDataIntoBuf(m.han, p, n, at, tag, act);
  } else {                                            // get with a continuation
    bool all = g.chance(25);
    auto s = tick();
    vsim_log("get %zu bytes at %zu of memory %d %s", n, at, m.id, all ? "all" : "");
    vsim_probe(all ? "get-all" : local ? "get-local" : "get");
    auto act = [=, &m](std::byte* p, std::size_t len) {
      fired(c);
      if (len != (all ? m.n : n)) vsim_fail("length", "get of %zu bytes is given %zu", all ? m.n : n, len);
      judge(m, all ? 0 : at, p, len, s, "get"); next(); done();
    };
    S().pending++;
    if (all) vt::theRDMA()->getData(m.han, act);
    else vt::theRDMA()->getData(m.han, tag, n, at, act);
  }
}

struct GoMsg : vt::Message { uint64_t seed; int n; };
void chain(uint64_t seed, int n, void (*op)(uint64_t, Next));
void goHan(GoMsg* m) { chain(m->seed, m->n, memOp); }
void chain(uint64_t seed, int n, void (*op)(uint64_t, Next)) {
  if (n == 0) { done(); return; }
  op(vsim_hash("op", seed), [=] { chain(seed * 31 + 7, n - 1, op); });
}

void drive(char const* what, void (*op)(uint64_t, Next)) {
  int chains = (int)vsim_param("chains", 1, 6), len = (int)vsim_param("length", 1, 6);
  for (int i = 0; i < chains; i++) {
    if (not vsim_op_on((uint64_t)(me() * 50 + i))) continue;
    Rng g(what, (uint64_t)(me() * 50 + i));
    auto seed = g.next();
    S().pending++;
    if (op == memOp and g.chance(30)) {
      auto m = vt::makeMessage<GoMsg>();
      m->seed = seed; m->n = len;
      vt::theMsg()->sendMsg<goHan>((NodeType)((me() + 1) % nn()), m);
    } else {
      chain(seed, len, op);
    }
    if (g.chance(40)) for (auto k = g.range(1, 4); k > 0; k--) vt::theSched()->runSchedulerOnceImpl();
  }
}

void memoryMode() {
  init();
  vt::theTerm()->produce();
  std::vector<Mem*> mine;
  std::vector<std::byte*> buf;
  int cnt = (int)vsim_param("buffers", 1, 3);
  for (int i = 0; i < cnt; i++) {
    Rng g("buffer", (uint64_t)(me() * 10 + i));
    auto elm = g.chance(40) ? 4ul : 1ul;
    auto n = (g.chance(25) ? (std::size_t)g.range(2000, 6000) : (std::size_t)g.range(8, 400)) / elm * elm;
    auto& m = newMem(me() * 10 + i, me(), n, elm);
    auto p = fresh(n);
    initMem(m, 0, p, n);
    if (elm == 4) m.han = vt::theRDMA()->registerNewTypedRdmaHandler(reinterpret_cast<int32_t*>(p), n / 4);
    else m.han = vt::theRDMA()->registerNewRdmaHandler(true, p, n);
    for (auto& [j, x] : S().m) if (j != m.id and x.han == m.han and x.han != 0) vsim_fail("handle", "handles of memory %d and %d are equal", m.id, j);
    mine.push_back(&m); buf.push_back(p);
  }
  meet("registered");
  drive("memory", memOp);
  meet("driven");
  pumpUntil([] { return S().pending == 0; });
  vt::theTerm()->consume();
  vt::finalize();
  auto t = tick();
  for (auto& [j, m] : S().m) for (auto& h : m.h) for (auto& w : h) if (w.end == INF) w.end = t;
  for (std::size_t i = 0; i < mine.size(); i++) { canary(buf[i], mine[i]->n); judge(*mine[i], 0, buf[i], mine[i]->n, tick(), "memory at the end"); }
}

// ------------------------------------------------------------------ functions

struct HMsg : vt::Message { int h = -1; };

Fop& opOf(HMsg* msg, ByteType bytes, ByteType offset, TagType tag, bool local, int slot, bool put) {
  if (offset >= S().ops.size()) vsim_fail("args", "function is given offset %llu", (unsigned long long)offset);
  auto& o = S().ops[(std::size_t)offset];
  if (msg->h != o.han) vsim_fail("args", "function of handle %d is called for handle %d", msg->h, o.han);
  if (o.put != put or o.bytes != bytes or o.tag != tag) vsim_fail("args", "%s of %llu bytes with tag %d calls the %s function with %llu bytes, tag %d", o.put ? "put" : "get", (unsigned long long)o.bytes, o.tag, put ? "put" : "get", (unsigned long long)bytes, tag);
  auto& f = S().f[o.han];
  if (f.owner != me()) vsim_fail("node", "function of a handle of %d runs on %d", f.owner, me());
  if (local != (o.from == me())) vsim_fail("args", "local flag is %d for a request of %d", local, o.from);
  auto& s = (put ? f.put : f.get)[(std::size_t)slot];
  if (not s.any and s.tag != tag) vsim_fail("tag", "request with tag %d calls the function of tag %d", tag, s.tag);
  if (not s.on) vsim_fail("unregistered", "request of operation %d calls a function that is not registered", o.id);
  if (++o.fn != 1) vsim_fail("twice", "operation %d calls its function %d times", o.id, o.fn);
  vsim_log("operation %d runs its function", o.id);
  return o;
}
template <int K> vt::RDMA_GetType getFn(HMsg* msg, ByteType bytes, ByteType offset, TagType tag, bool local) {
  auto& o = opOf(msg, bytes, offset, tag, local, K, false);
  keep().emplace_back(bytes);
  fill((uint8_t*)keep().back().data(), bytes, (uint64_t)o.id * 13 + 5);
  return vt::RDMA_GetType{keep().back().data(), bytes};
}
template <int K> void putFn(HMsg* msg, vt::RDMA_PtrType p, ByteType bytes, ByteType offset, TagType tag, bool local) {
  auto& o = opOf(msg, bytes, offset, tag, local, K, true);
  if (not matches((uint8_t*)p, bytes, (uint64_t)o.id * 13 + 5)) vsim_fail("data", "put function is given other data than were put (operation %d, %llu bytes)", o.id, (unsigned long long)bytes);
  o.tick = true;
  if (o.cont) { o.done++; done(); }      // nobody is told
}
template <int K> void associate(FHan& f, HMsg* msg, bool put) {
  auto& s = (put ? f.put : f.get)[K];
  s.on = true;
  vsim_log("register %s function of handle %d tag %d", put ? "put" : "get", f.id, s.tag);
  s.handler = put
    ? vt::theRDMA()->associatePutFunction<HMsg, putFn<K>>(msg, f.han, putFn<K>, s.any, s.tag)
    : vt::theRDMA()->associateGetFunction<HMsg, getFn<K>>(msg, f.han, getFn<K>, s.any, s.tag);
}
void setOn(FHan& f, HMsg* msg, bool put, int k) {
  if (k == 0) associate<0>(f, msg, put); else if (k == 1) associate<1>(f, msg, put); else associate<2>(f, msg, put);
}

void fnOp(uint64_t seed, Next next) {
  Rng g(seed);
  auto it = S().f.begin();
  std::advance(it, g.range(0, (int64_t)S().f.size() - 1));
  FHan& f = it->second;
  bool put = g.chance(50);
  auto n = someSize(g, 5000);
  auto& slots = put ? f.put : f.get;
  auto tag = f.any ? (g.chance(50) ? vt::no_tag : (TagType)g.range(1, 50)) : slots[(std::size_t)g.range(0, (int64_t)slots.size() - 1)].tag;
  S().ops.push_back({(int)S().ops.size(), f.id, me(), put, false, tag, n});
  auto& o = S().ops.back();
  auto c = std::make_shared<int>(0);
  S().pending++;
  if (put) {
    auto p = fresh(n);
    fill((uint8_t*)p, n, (uint64_t)o.id * 13 + 5);
    bool act = g.chance(70);
    vsim_log("operation %d: put %zu bytes to handle %d tag %d", o.id, n, f.id, tag);
    vsim_probe(act ? "put-fn" : "put-fn-no-action");
    if (act) {
      vt::theRDMA()->putData(f.han, p, n, (ByteType)o.id, tag, vt::rdma::rdma_default_byte_size, [=, &o] {
        fired(c);
        if (not o.tick) vsim_fail("early", "completion of put %d runs before its function", o.id);
        for (std::size_t i = 0; i < n; i++) p[i] = std::byte{0xdd};
        o.done++; next(); done();
      });
    } else {
      o.cont = true;
      vt::theRDMA()->putData(f.han, p, n, (ByteType)o.id, tag);
      next();
    }
  } else if (g.chance(50)) {
    auto p = fresh(n);
    vsim_log("operation %d: get into buffer %zu bytes of handle %d tag %d", o.id, n, f.id, tag);
    vsim_probe("get-fn-buffer");
    vt::theRDMA()->getDataIntoBuf(f.han, p, n, (ByteType)o.id, tag, [=, &o] {
      fired(c); canary(p, n);
      if (o.fn != 1) vsim_fail("early", "completion of get %d runs before its function", o.id);
      if (not matches((uint8_t*)p, n, (uint64_t)o.id * 13 + 5)) vsim_fail("data", "get %d delivers other data than its function returned", o.id);
      o.done++; next(); done();
    });
  } else {
    vsim_log("operation %d: get %zu bytes of handle %d tag %d", o.id, n, f.id, tag);
    vsim_probe("get-fn");
    vt::theRDMA()->getData(f.han, tag, n, (ByteType)o.id, [=, &o](std::byte* p, std::size_t len) {
      fired(c);
      if (o.fn != 1) vsim_fail("early", "continuation of get %d runs before its function", o.id);
      if (len != n) vsim_fail("length", "get %d of %zu bytes is given %zu", o.id, n, len);
      if (not matches((uint8_t*)p, n, (uint64_t)o.id * 13 + 5)) vsim_fail("data", "get %d delivers other data than its function returned", o.id);
      o.done++; next(); done();
    });
  }
}

void functionMode() {
  init();
  vt::theTerm()->produce();
  auto msg = std::vector<vt::MsgPtr<HMsg>>();
  std::vector<FHan*> mine;
  int cnt = (int)vsim_param("handles", 1, 2);
  for (int i = 0; i < cnt; i++) {
    Rng g("fhandle", (uint64_t)(me() * 10 + i));
    auto& f = S().f[me() * 10 + i];
    f.id = me() * 10 + i; f.owner = me(); f.any = g.chance(40);
    if (g.chance(25)) {
      // Registered with a buffer; its functions replace those of the buffer
      vsim_probe("replaced");
      f.replaced = true;
      f.han = vt::theRDMA()->registerNewRdmaHandler(true, fresh(64), 64);
    } else {
      f.han = vt::theRDMA()->registerNewRdmaHandler();
    }
    if (f.replaced) { f.get = {{vt::no_tag, f.any}}; f.put = f.get; }
    else if (f.any) { f.get = {{vt::no_tag, true}}; f.put = f.get; }
    else { f.get = {{vt::no_tag, false}, {5, false}, {9, false}}; f.put = f.get; }
    msg.push_back(vt::makeMessage<HMsg>());
    msg.back()->h = f.id;
    mine.push_back(&f);
    if (f.replaced) { setOn(f, msg.back().get(), true, 0); setOn(f, msg.back().get(), false, 0); }
  }
  meet("registered");
  Rng g("toggle", (uint64_t)me());
  int toggles = (int)vsim_param("toggles", 0, 8);
  auto toggle = [&] {
    auto i = (std::size_t)g.range(0, (int64_t)mine.size() - 1);
    auto& f = *mine[i];
    if (f.replaced) return;
    bool put = g.chance(50);
    auto& v = put ? f.put : f.get;
    auto k = (int)g.range(0, (int64_t)v.size() - 1);
    auto& s = v[(std::size_t)k];
    if (not s.on) { setOn(f, msg[i].get(), put, k); return; }
    s.on = false;
    vsim_log("unregister %s function of handle %d tag %d", put ? "put" : "get", f.id, s.tag);
    vsim_probe("unregister");
    if (g.chance(50)) vt::theRDMA()->unregisterRdmaHandler(f.han, put ? vt::rdma::Type::Put : vt::rdma::Type::Get, s.tag);
    else vt::theRDMA()->unregisterRdmaHandler(f.han, s.handler, s.tag);
  };
  for (int i = 0; i < toggles / 2; i++) toggle();
  drive("functions", fnOp);
  for (int i = toggles / 2; i < toggles; i++) {
    for (auto k = g.range(0, 30); k > 0; k--) vt::theSched()->runSchedulerOnceImpl();
    toggle();
  }
  for (std::size_t i = 0; i < mine.size(); i++) for (int put = 0; put < 2; put++) {
    auto& v = put ? mine[i]->put : mine[i]->get;
    for (int k = 0; k < (int)v.size(); k++) if (not v[(std::size_t)k].on) setOn(*mine[i], msg[i].get(), put, k);
  }
  meet("driven");
  pumpUntil([] { return S().pending == 0; });
  vt::theTerm()->consume();
  msg.clear();
  vt::finalize();
  for (auto& o : S().ops) if (o.fn != 1 or o.done != 1) vsim_fail("lost", "operation %d (%s, handle %d, tag %d): function ran %d times, completion %d times", o.id, o.put ? "put" : "get", o.han, o.tag, o.fn, o.done);
}

// --------------------------------------------------------------------- region

void regOp(uint64_t seed, Next next) {
  Rng g(seed);
  auto it = S().m.begin();
  std::advance(it, g.range(0, (int64_t)S().m.size() - 1));
  Mem& m = it->second;
  auto total = m.n / m.elm;
  auto lo = (std::size_t)g.range(0, (int64_t)total - 1);
  auto hi = (std::size_t)g.range((int64_t)lo + 1, (int64_t)std::min(total, g.chance(50) ? total : lo + 20));
  auto n = (hi - lo) * m.elm, at = lo * m.elm;
  auto p = fresh(n);
  auto c = std::make_shared<int>(0);
  S().pending++;
  auto k = g.range(0, 3);
  if (k <= 1) {
    auto s = beginWrite(m, at, p, n);
    auto act = [=, &m] { fired(c); endWrite(m, at, n, s); for (std::size_t i = 0; i < n; i++) p[i] = std::byte{0xdd}; next(); done(); };
    vsim_log("put elements %zu-%zu of array %d", lo, hi, m.id);
    vsim_probe("put-region");
    if (k == 0) vt::theRDMA()->putRegionTypeless(m.han, p, vt::rdma::Region{lo, hi, 1, (int)m.elm}, act);
    else if (m.elm == 4) vt::theRDMA()->putTypedData(m.han, reinterpret_cast<int32_t*>(p), hi - lo, lo, vt::no_tag, act);
    else if (m.elm == 8) vt::theRDMA()->putTypedData(m.han, reinterpret_cast<double*>(p), hi - lo, lo, vt::no_tag, act);
    else vt::theRDMA()->putTypedData(m.han, p, hi - lo, lo, vt::no_tag, act);
  } else {
    auto s = tick();
    auto act = [=, &m] { fired(c); canary(p, n); judge(m, at, p, n, s, "get of a region"); next(); done(); };
    vsim_log("get elements %zu-%zu of array %d", lo, hi, m.id);
    vsim_probe("get-region");
    vt::rdma::Region r{lo, hi};
    if (k == 2) {
      if (m.elm == 4) vt::theRDMA()->getRegion(m.han, reinterpret_cast<int32_t*>(p), r, act);
      else if (m.elm == 8) vt::theRDMA()->getRegion(m.han, reinterpret_cast<double*>(p), r, act);
      else vt::theRDMA()->getRegion(m.han, p, r, act);
    }
    else if (m.elm == 4) vt::theRDMA()->getTypedDataInfoBuf(m.han, reinterpret_cast<int32_t*>(p), hi - lo, lo, vt::no_tag, act);
    else if (m.elm == 8) vt::theRDMA()->getTypedDataInfoBuf(m.han, reinterpret_cast<double*>(p), hi - lo, lo, vt::no_tag, act);
    else vt::theRDMA()->getTypedDataInfoBuf(m.han, p, hi - lo, lo, vt::no_tag, act);
  }
}

void regionMode() {
  init();
  vt::theTerm()->produce();
  int cnt = (int)vsim_param("arrays", 1, 3);
  struct Part { Mem* m; std::byte* p; std::size_t at, n; };
  std::vector<Part> mine;
  std::vector<RDMA_HandleType> hans;
  for (int i = 0; i < cnt; i++) {
    Rng g("array", (uint64_t)i);
    auto elm = (std::size_t)((int[]){1, 4, 8}[g.range(0, 2)]);
    auto each = (std::size_t)(g.chance(20) ? g.range(300, 900) : g.range(1, 40));
    bool rev = g.chance(40);
    auto total = each * (std::size_t)nn();
    auto& m = S().m.count(i) ? S().m[i] : newMem(i, -1, total * elm, elm);
    auto blk = (std::size_t)(rev ? nn() - 1 - me() : me());
    auto p = fresh(each * elm);
    initMem(m, blk * each * elm, p, each * elm);
    vt::rdma::Map map = vt::rdma::default_map;
    if (rev) map.block_map = [](vt::RDMA_BlockType b, vt::RDMA_BlockType num) -> NodeType { return (NodeType)(num - 1 - b); };
    RDMA_HandleType h;
    if (elm == 4) h = vt::theRDMA()->registerCollectiveTyped(reinterpret_cast<int32_t*>(p), total, each, map);
    else if (elm == 8) h = vt::theRDMA()->registerCollectiveTyped(reinterpret_cast<double*>(p), total, each, map);
    else h = vt::theRDMA()->registerCollectiveTyped(p, total, each, map);
    if (m.han != 0 and m.han != h) vsim_fail("handle", "array %d has different handles on two nodes", i);
    m.han = h;
    mine.push_back({&m, p, blk * each * elm, each * elm});
  }
  meet("registered");
  drive("region", regOp);
  meet("driven");
  pumpUntil([] { return S().pending == 0; });
  vt::theTerm()->consume();
  vt::finalize();
  for (auto& x : mine) { canary(x.p, x.n); judge(*x.m, x.at, x.p, x.n, tick(), "memory at the end"); }
}

} // namespace

WL_ENTRY {
  std::string mode = mode_c;
  if (mode == "functions") functionMode(); else if (mode == "region") regionMode(); else memoryMode();
  vsim_done();
}
