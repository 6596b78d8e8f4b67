// C04: active messages. All nodes send messages of all kinds and sizes at once,
// from outside and from handlers, to each other and to themselves, directly and
// as broadcasts. Oracle: one record per message, shared by the simulated nodes.
#include "wl.h"
#include <array>
#include <utility>
using namespace wl;
using vt::NodeType;

namespace {

constexpr int kHan = 5;                      // handlers of each kind
enum Kind { kPlain, kFunctor, kBig, kSer, kPut, kParam, kRef, kMix, kKinds };
char const* kindName[] = {"plain", "functor", "big", "serialized", "payload", "parameters", "self-describing", "serialized+nested"};

struct Sent { int from, to, kind, han; uint64_t key; std::size_t size; std::vector<int> got; int deferred = 0; };
struct State { std::vector<Sent> sent; int64_t outstanding = 0; int budget = 0; };
State& S() { static State* s = &shared<State>("am"); return *s; }

struct Plain : vt::Message { int id = 0; uint64_t key = 0; uint8_t d[48]; };
struct Big : vt::Message { int id = 0; uint64_t key = 0; uint8_t d[12000]; };
struct Ser : vt::Message {
  using MessageParentType = vt::Message;
  vt_msg_serialize_required();
  int id = 0; uint64_t key = 0; std::vector<uint8_t> v; std::string s;
  template <class Z> void serialize(Z& z) { MessageParentType::serialize(z); z | id | key | v | s; }
};
struct Nested : Ser {
  using MessageParentType = Ser;
  vt_msg_serialize_required();
  std::map<int, std::vector<uint8_t>> m;
  template <class Z> void serialize(Z& z) { MessageParentType::serialize(z); z | m; }
};
struct Put : vt::PayloadMessage { int id = 0; uint64_t key = 0; uint8_t d[16]; };
// a message of varying size
struct Var : vt::Message { int id = 0; uint64_t key = 0; std::size_t n = 0; uint8_t* data() { return reinterpret_cast<uint8_t*>(this + 1); } };

void act(uint64_t key, int depth_of);
std::string name(int id) {
  auto& t = S().sent[(std::size_t)id];
  return std::string(kindName[t.kind]) + " message " + std::to_string(id) + " (" + std::to_string(t.size) + " bytes) from " + std::to_string(t.from) + (t.to < 0 ? " to all" : " to " + std::to_string(t.to));
}
void arrive(int kind, int han, int id, uint64_t key, bool ok) {
  auto& o = S();
  if (id < 0 or (std::size_t)id >= o.sent.size()) vsim_fail("contents", "node %d got the unknown message %d", me(), id);
  auto& t = o.sent[(std::size_t)id];
  vsim_log("node %d got %s", me(), name(id).c_str());
  if (t.kind != kind or t.han != han) vsim_fail("handler", "%s ran %s handler %d", name(id).c_str(), kindName[kind], han);
  if (t.to >= 0 and t.to != me()) vsim_fail("misdirected", "%s arrived at %d", name(id).c_str(), me());
  if (key != t.key or not ok) vsim_fail("contents", "%s arrived with other contents", name(id).c_str());
  if (++t.got[(std::size_t)me()] > 1) vsim_fail("duplicate", "%s arrived %d times at %d", name(id).c_str(), t.got[(std::size_t)me()], me());
  if (t.deferred) vsim_fail("early", "%s arrived before it was sent", name(id).c_str());
  auto from = vt::theContext()->getFromNodeCurrentTask();
  if (from != t.from) vsim_fail("sender", "%s names %d as its sender", name(id).c_str(), from);
  o.outstanding--;
  vsim_touch();
  act(vsim_hash("act", key + (uint64_t)me()), id);
}
template <int K> void hPlain(Plain* m) { arrive(kPlain, K, m->id, m->key, matches(m->d, sizeof m->d, m->key)); }
template <int K> struct FPlain { void operator()(Plain* m) { arrive(kFunctor, K, m->id, m->key, matches(m->d, sizeof m->d, m->key)); } };
template <int K> void hBig(Big* m) { arrive(kBig, K, m->id, m->key, matches(m->d, sizeof m->d, m->key)); }
bool serOk(Ser* m) {
  auto const& t = S().sent[(std::size_t)m->id];
  return m->v.size() == t.size and matches(m->v.data(), m->v.size(), m->key) and m->s == std::to_string(m->key);
}
template <int K> void hSer(Ser* m) { arrive(kSer, K, m->id, m->key, serOk(m)); }
template <int K> void hNested(Nested* m) {
  bool ok = serOk(m) and m->m.size() == m->key % 5;
  for (auto& kv : m->m) ok = ok and matches(kv.second.data(), kv.second.size(), m->key + (uint64_t)kv.first);
  arrive(kMix, K, m->id, m->key, ok);
}
template <int K> void hPut(Put* m) {
  auto const& t = S().sent[(std::size_t)m->id];
  if (m->getPutSize() != t.size) vsim_fail("contents", "%s carries %zu bytes at %d", name(m->id).c_str(), m->getPutSize(), me());
  arrive(kPut, K, m->id, m->key, matches(m->d, sizeof m->d, m->key) and matches(reinterpret_cast<uint8_t*>(m->getPut()), m->getPutSize(), m->key));
}
template <int K> void hParam(int id, uint64_t key, std::vector<uint8_t> v, std::string s) {
  auto const& t = S().sent[(std::size_t)id];
  arrive(kParam, K, id, key, v.size() == t.size and matches(v.data(), v.size(), key) and s == std::to_string(key));
}
template <int K> void hVar(Var* m) {
  auto const& t = S().sent[(std::size_t)m->id];
  arrive(kRef, K, m->id, m->key, m->n == t.size and matches(m->data(), m->n, m->key));
}

template <class F, int... K> void withHan(int k, F f, std::integer_sequence<int, K...>) {
  ((K == k ? (f(std::integral_constant<int, K>{}), 0) : 0), ...);
}
template <class F> void withHan(int k, F f) { withHan(k, f, std::make_integer_sequence<int, kHan>{}); }

std::size_t pickSize(Rng& g) {
  auto max = (int64_t)vt::theConfig()->vt_max_mpi_send_size;
  auto around = max < 100000 ? max * g.range(1, 3) + g.range(-200, 60) : g.range(0, 20000);
  auto s = g.range(0, 3) == 0 ? g.range(0, 64) : g.range(0, 2) == 0 ? g.range(0, 3000) : around;
  return (std::size_t)(s < 0 ? 0 : s);
}

using Pending = std::unique_ptr<vt::messaging::PendingSend>;
Pending transmit(int id) {
  auto& t = S().sent[(std::size_t)id];
  auto key = t.key;
  NodeType to = (NodeType)t.to;
  Pending p;
  auto plain = [&](auto m) { m->id = id; m->key = key; fill(m->d, sizeof m->d, key); return m; };
  auto ser = [&](auto m) { m->id = id; m->key = key; m->v.resize(t.size); fill(m->v.data(), t.size, key); m->s = std::to_string(key); return m; };
  withHan(t.han, [&](auto c) {
    constexpr int K = decltype(c)::value;
    switch (t.kind) {
      case kPlain: {
        auto m = plain(vt::makeMessage<Plain>());
        p = std::make_unique<vt::messaging::PendingSend>(to < 0 ? vt::theMsg()->broadcastMsg<hPlain<K>>(m) : vt::theMsg()->sendMsg<hPlain<K>>(to, m));
        break;
      }
      case kFunctor: {
        auto m = plain(vt::makeMessage<Plain>());
        p = std::make_unique<vt::messaging::PendingSend>(to < 0 ? vt::theMsg()->broadcastMsg<FPlain<K>>(m) : vt::theMsg()->sendMsg<FPlain<K>>(to, m));
        break;
      }
      case kBig: {
        auto m = plain(vt::makeMessage<Big>());
        p = std::make_unique<vt::messaging::PendingSend>(to < 0 ? vt::theMsg()->broadcastMsg<hBig<K>>(m) : vt::theMsg()->sendMsg<hBig<K>>(to, m));
        break;
      }
      case kSer: {
        auto m = ser(vt::makeMessage<Ser>());
        p = std::make_unique<vt::messaging::PendingSend>(to < 0 ? vt::theMsg()->broadcastMsg<hSer<K>>(m) : vt::theMsg()->sendMsg<hSer<K>>(to, m));
        break;
      }
      case kMix: {
        auto m = ser(vt::makeMessage<Nested>());
        for (int i = 0; i < (int)(key % 5); i++) { auto& v = m->m[i]; v.resize((key >> i) % 300); fill(v.data(), v.size(), key + (uint64_t)i); }
        p = std::make_unique<vt::messaging::PendingSend>(to < 0 ? vt::theMsg()->broadcastMsg<hNested<K>>(m) : vt::theMsg()->sendMsg<hNested<K>>(to, m));
        break;
      }
      case kPut: {
        static std::deque<std::vector<uint8_t>> keep;       // until the end of the run
        keep.emplace_back(t.size + 1);
        fill(keep.back().data(), t.size, key);
        auto m = plain(vt::makeMessage<Put>());
        m->setPut(reinterpret_cast<std::byte*>(keep.back().data()), t.size);
        p = std::make_unique<vt::messaging::PendingSend>(to < 0 ? vt::theMsg()->broadcastMsg<hPut<K>>(m) : vt::theMsg()->sendMsg<hPut<K>>(to, m));
        break;
      }
      case kParam: {
        std::vector<uint8_t> v(t.size);
        fill(v.data(), t.size, key);
        p = std::make_unique<vt::messaging::PendingSend>(to < 0 ? vt::theMsg()->broadcast<hParam<K>>(id, key, v, std::to_string(key)) : vt::theMsg()->send<hParam<K>>(vt::Node{to}, id, key, v, std::to_string(key)));
        break;
      }
      case kRef: {
        auto m = vt::makeMessageSz<Var>(t.size);
        m->id = id; m->key = key; m->n = t.size; fill(m->data(), t.size, key);
        p = std::make_unique<vt::messaging::PendingSend>(to < 0 ? vt::theMsg()->broadcastMsg<hVar<K>>(m) : vt::theMsg()->sendMsg<hVar<K>>(to, m));
        break;
      }
    }
  });
  return p;
}

struct Held { Pending p; int id; };
std::vector<Held>& held() { static std::vector<Held> h; return h; }

void post(Rng& g, bool allow_bcast, bool hold) {
  auto& o = S();
  Sent t;
  t.from = me();
  t.to = allow_bcast and g.chance(25) ? -1 : (int)g.range(0, nn() - 1);
  t.kind = (int)g.range(0, kKinds - 1);
  t.han = (int)g.range(0, kHan - 1);
  t.key = g.next() >> 1;
  t.size = pickSize(g);
  t.got.assign((std::size_t)nn(), 0);
  hold = hold and g.chance(25);
  t.deferred = hold;
  auto id = (int)o.sent.size();
  o.sent.push_back(t);
  o.outstanding += t.to < 0 ? nn() : 1;
  vsim_log("send %s%s", name(id).c_str(), hold ? ", held" : "");
  vsim_probe(kindName[t.kind]);
  if (t.to < 0) vsim_probe("broadcast");
  auto p = transmit(id);
  if (hold) held().push_back(Held{std::move(p), id});
  else p->release();
}
// what a handler does
void act(uint64_t key, int id) {
  (void)id;
  Rng g(key);
  auto& o = S();
  auto n = g.range(0, 5);
  if (n > 2) n = 0;
  for (int i = 0; i < n and o.budget > 0; i++) {
    o.budget--;
    post(g, g.chance(10), false);
  }
}

void checkAll() {
  auto& o = S();
  for (std::size_t i = 0; i < o.sent.size(); i++) {
    auto& t = o.sent[i];
    for (int n = 0; n < nn(); n++) if ((t.to < 0 or t.to == n) and t.got[(std::size_t)n] != 1) vsim_fail("lost", "%s did not arrive at %d", name((int)i).c_str(), n);
  }
}

void system() {
  init();
  vt::theTerm()->produce();                    // the runtime stays up in between
  auto& o = S();
  vsim_describe([](char* b, uint64_t n) { snprintf(b, n, "%ld deliveries outstanding", (long)S().outstanding); });
  auto rounds = (int)vsim_param("rounds", 1, 3);
  for (int r = 0; r < rounds; r++) {
    auto R = std::to_string(r);
    o.budget = (int)vsim_param("chain", 0, 60);
    meet(("go " + R).c_str());
    Rng how("how", (uint64_t)r);
    bool rooted = how.chance(25);
    auto work = [&] {
      auto ops = (int)vsim_param("ops", 1, 10);
      for (int i = 0; i < ops; i++) {
        uint64_t op = (uint64_t)(r * 1000 + me() * 100 + i);
        if (not vsim_op_on(op)) continue;
        Rng g("op", op);
        post(g, true, true);
        if (g.chance(30)) vt::theSched()->runSchedulerOnceImpl();
        if (g.chance(40)) {
          // those held back go out now, in any order
          while (not held().empty()) {
            auto k = (std::size_t)g.range(0, (int64_t)held().size() - 1);
            o.sent[(std::size_t)held()[k].id].deferred = 0;
            vsim_log("release message %d", held()[k].id);
            held()[k].p->release();
            held().erase(held().begin() + (std::ptrdiff_t)k);
          }
        }
      }
      for (auto& h : held()) { o.sent[(std::size_t)h.id].deferred = 0; h.p->release(); }
      held().clear();
    };
    if (rooted) vt::runInEpochRooted(work); else vt::runInEpochCollective(work);
    meet(("over " + R).c_str());
    if (o.outstanding != 0) checkAll();
    checkAll();
    meet(("checked " + R).c_str());
  }
  vt::theTerm()->consume();
  vt::finalize();
  if (o.outstanding != 0) vsim_fail("duplicate", "%ld deliveries outstanding at the end", (long)o.outstanding);
}

} // namespace

WL_ENTRY {
  (void)mode_c;
  system();
  vsim_done();
}
