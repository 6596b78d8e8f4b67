// C08: collective scopes.  Every node posts the operations of several scopes in
// its own relative order, from the main program and from handlers; the actions
// call MPI collectives.  Oracle: one global sequence of executed operations.
#include "wl.h"
#include <algorithm>
#include <array>
#include <memory>
#include <functional>
using namespace wl;
using vt::NodeType;
using vt::TagType;
using ScopeT = vt::collective::CollectiveScope;

namespace {

struct OpRec {
  int scope, gen, k, kind, root, round;
  std::vector<int> posted, ran;
  std::vector<vt::EpochType> epoch;
  std::vector<TagType> tag;
  int nposted = 0;
};
struct State {
  std::vector<OpRec> ops;
  std::map<std::array<int, 3>, int> index;
  std::vector<int> order;                     // the first node to run decides
  std::vector<int> pos;
  int64_t pend = 0;
};
State& S() { static State* s = &shared<State>("scope"); return *s; }

struct Scope {
  std::unique_ptr<ScopeT> sc;
  bool user = false; TagType bits = -1;
  int gen = 0;
};
std::vector<Scope>& mine() { static std::vector<Scope> v; return v; }
bool g_in = false;

std::string name(int i) {
  auto& t = S().ops[(std::size_t)i];
  return "operation " + std::to_string(t.k) + " of scope " + std::to_string(t.scope) + "." + std::to_string(t.gen);
}
int opOf(int scope, int gen, int k, int round) {
  auto& o = S();
  auto it = o.index.find({scope, gen, k});
  if (it != o.index.end()) return it->second;
  auto i = (int)o.ops.size();
  Rng g("op", (uint64_t)(scope * 10000 + gen * 1000 + k));
  OpRec t{};
  t.scope = scope; t.gen = gen; t.k = k; t.kind = (int)g.range(0, 4); t.root = (int)g.range(0, nn() - 1); t.round = round;
  t.posted.assign((std::size_t)nn(), 0); t.ran = t.posted; t.tag.assign((std::size_t)nn(), -1);
  t.epoch.assign((std::size_t)nn(), vt::no_epoch);
  o.ops.push_back(t);
  o.index[{scope, gen, k}] = i;
  return i;
}

void run(int i) {
  auto& o = S();
  auto& t = o.ops[(std::size_t)i];
  auto m = (std::size_t)me();
  vsim_log("run %s", name(i).c_str());
  if (g_in) vsim_fail("nested", "%s starts while another operation is running at %d", name(i).c_str(), me());
  g_in = true;
  if (not t.posted[m]) vsim_fail("unposted", "%s runs at %d, which has not posted it", name(i).c_str(), me());
  if (t.nposted != nn()) vsim_fail("early", "%s runs at %d although only %d of %d nodes have posted it", name(i).c_str(), me(), t.nposted, nn());
  if (++t.ran[m] > 1) vsim_fail("twice", "%s runs %d times at %d", name(i).c_str(), t.ran[m], me());
  auto p = (std::size_t)o.pos[m]++;
  if (p == o.order.size()) o.order.push_back(i);
  else if (o.order[p] != i) vsim_fail("order", "the operation number %zu to run at %d is %s, elsewhere it is %s", p, me(), name(i).c_str(), name(o.order[p]).c_str());
  if (vt::theMsg()->getEpoch() != t.epoch[m]) vsim_fail("epoch", "%s runs in another epoch than it was posted in", name(i).c_str());
  auto comm = vt::theContext()->getComm();
  switch (t.kind) {
    case 0: MPI_Barrier(comm); break;
    case 1: {
      int v = me() == t.root ? i * 7 + 1 : -1;
      MPI_Bcast(&v, 1, MPI_INT, t.root, comm);
      if (v != i * 7 + 1) vsim_fail("value", "the broadcast of %s gives %d", name(i).c_str(), v);
      break;
    }
    case 2: {
      int in = me() + i * 3, out = 0;
      MPI_Allreduce(&in, &out, 1, MPI_INT, MPI_SUM, comm);
      if (out != nn() * (nn() - 1) / 2 + nn() * i * 3) vsim_fail("value", "the sum of %s is %d", name(i).c_str(), out);
      break;
    }
    case 3: {
      int in = i, lo = 0, hi = 0;
      MPI_Allreduce(&in, &lo, 1, MPI_INT, MPI_MIN, comm);
      MPI_Allreduce(&in, &hi, 1, MPI_INT, MPI_MAX, comm);
      if (lo != i or hi != i) vsim_fail("value", "%s meets other operations: %d to %d", name(i).c_str(), lo, hi);
      break;
    }
    case 4: {
      // point to point around the ring: a closed set of operations
      int v = i, r = -1;
      MPI_Request q;
      MPI_Isend(&v, 1, MPI_INT, (me() + 1) % nn(), 77, comm, &q);
      MPI_Barrier(comm);
      MPI_Recv(&r, 1, MPI_INT, (me() + nn() - 1) % nn(), 77, comm, MPI_STATUS_IGNORE);
      MPI_Wait(&q, MPI_STATUS_IGNORE);
      if (r != i) vsim_fail("value", "%s receives the data of operation %d", name(i).c_str(), r);
      break;
    }
  }
  g_in = false;
  o.pend--;
  vsim_touch();
}

void post(int s, int k, int round) {
  auto& o = S();
  auto& me_ = mine()[(std::size_t)s];
  auto i = opOf(s, me_.gen, k, round);
  auto& t = o.ops[(std::size_t)i];
  auto m = (std::size_t)me();
  if (t.posted[m]) vsim_fail("harness", "posted twice");
  t.posted[m] = 1; t.nposted++;
  t.epoch[m] = vt::theMsg()->getEpoch();
  o.pend++;
  vsim_log("post %s", name(i).c_str());
  auto tag = me_.sc->mpiCollectiveAsync([i] { run(i); });
  auto& u = o.ops[(std::size_t)i];
  u.tag[m] = tag;
  for (int n = 0; n < nn(); n++) if (u.tag[(std::size_t)n] != -1 and u.tag[(std::size_t)n] != tag) vsim_fail("tag", "%s has the tag %d here and %d at %d", name(i).c_str(), tag, u.tag[(std::size_t)n], n);
}
bool done(int s, int i) {
  auto& sc = *mine()[(std::size_t)s].sc;
  auto m = (std::size_t)me();
  auto before = S().ops[(std::size_t)i].ran[m];
  auto d = sc.isCollectiveDone(S().ops[(std::size_t)i].tag[m]);
  if (d and not before) vsim_fail("done", "%s is reported done before it ran", name(i).c_str());
  if (d and g_in) return d;
  return d;
}

// work posted from handlers
std::deque<std::function<void()>>& queue() { static std::deque<std::function<void()>> q; return q; }
struct Go : vt::Message { int n; };
void goHandler(Go* m) {
  for (int i = 0; i < m->n and not queue().empty(); i++) { auto f = queue().front(); queue().pop_front(); f(); }
}
struct Noise : vt::Message { int ttl; };
void noise(Noise* m) {
  vsim_advance((uint64_t)m->ttl * 300);
  if (m->ttl > 0) {
    auto n = vt::makeMessage<Noise>();
    n->ttl = m->ttl - 1;
    vt::theMsg()->sendMsg<noise>((NodeType)((me() + m->ttl) % nn()), n);
  }
}

void make(int s) {
  auto& t = mine()[(std::size_t)s];
  Rng g("scope", (uint64_t)s);
  bool user = g.chance(50);
  // the tags of user scopes are often the numbers that system scopes have, too
  TagType tag = (TagType)(s + 1 + (g.chance(30) ? 1000 : 0));
  auto sc = user ? vt::theCollective()->makeCollectiveScope(tag) : vt::theCollective()->makeCollectiveScope();
  t.user = user; t.bits = sc.getScopeBits();
  if (sc.isUserTag() != user or (user and t.bits != tag)) vsim_fail("scope", "the scope %d has the wrong identity", s);
  t.sc = std::make_unique<ScopeT>(std::move(sc));       // moved-from: nothing may be released
  if (vt::theCollective()->isDeallocated(t.user, t.bits)) vsim_fail("scope", "a live scope is gone");
}

void system() {
  init();
  vt::theTerm()->produce();
  auto& o = S();
  if (o.pos.empty()) o.pos.assign((std::size_t)nn(), 0);
  vsim_describe([](char* b, uint64_t n) {
    std::string s;
    for (std::size_t i = 0; i < S().ops.size(); i++) {
      auto& t = S().ops[i];
      int r = 0; for (auto x : t.ran) r += x;
      if (r != nn()) s += name((int)i) + ": posted by " + std::to_string(t.nposted) + ", ran at " + std::to_string(r) + "; ";
    }
    snprintf(b, n, "%s", s.c_str());
  });
  auto nsc = (int)vsim_param("scopes", 1, 4);
  auto rounds = (int)vsim_param("rounds", 1, 3);
  mine().resize((std::size_t)nsc);
  for (int s = 0; s < nsc; s++) make(s);
  std::vector<int> next((std::size_t)nsc, 0);
  Rng w("what", (uint64_t)me());
  std::vector<int> ids;
  for (int r = 0; r < rounds; r++) {
    Rng how("how", (uint64_t)r);                   // the same on all nodes
    bool epoch = how.chance(60);
    auto posted = std::make_shared<std::vector<std::pair<int, int>>>();
    auto left = std::make_shared<int>(0);
    auto body = [&] {
      // the sequences of all scopes, merged in this node's own order
      std::vector<std::vector<int>> seq((std::size_t)nsc);
      int total = 0;
      for (int s = 0; s < nsc; s++) {
        auto n = (int)Rng("len", (uint64_t)(r * 10 + s)).range(0, 4);
        for (int i = 0; i < n; i++) {
          auto k = next[(std::size_t)s];
          if (not vsim_op_on((uint64_t)(s * 100 + r * 10 + i))) continue;
          next[(std::size_t)s]++;
          seq[(std::size_t)s].push_back(k); total++;
        }
      }
      *left = total;
      std::vector<std::size_t> at((std::size_t)nsc, 0);
      auto batch = w.chance(60);                   // one scope after the other or all mixed
      int s = 0;
      // from a handler the posting order of a scope must still be its sequence
      bool handlers = w.chance(40);
      int deferred = 0;
      for (int n = 0; n < total; n++) {
        if (not batch or at[(std::size_t)s] >= seq[(std::size_t)s].size() or w.chance(30)) {
          do s = (int)w.range(0, nsc - 1); while (at[(std::size_t)s] >= seq[(std::size_t)s].size());
        }
        auto k = seq[(std::size_t)s][at[(std::size_t)s]++];
        auto f = [s, k, r, posted, left] { post(s, k, r); posted->emplace_back(s, k); --*left; };
        if (handlers and (deferred or w.chance(50))) {
          queue().push_back(f); deferred++;
          auto m = vt::makeMessage<Go>(); m->n = (int)w.range(1, 2);
          vt::theMsg()->sendMsg<goHandler>((NodeType)me(), m);
          vsim_probe("posted from a handler");
        } else {
          f();
        }
        if (w.chance(20)) { auto m = vt::makeMessage<Noise>(); m->ttl = (int)w.range(0, 4); vt::theMsg()->sendMsg<noise>((NodeType)w.range(0, nn() - 1), m); }
        if (w.chance(25)) vsim_advance((uint64_t)w.range(1, 40000));
        if (w.chance(30)) vt::theSched()->runSchedulerOnceImpl();
        if (not posted->empty() and w.chance(20)) { auto p = (*posted)[(std::size_t)w.range(0, (int64_t)posted->size() - 1)]; done(p.first, opOf(p.first, mine()[(std::size_t)p.first].gen, p.second, r)); }
      }
      pumpUntil([&] { return *left == 0; });
    };
    if (epoch) {
      vt::runInEpochCollective(body);
      for (std::size_t i = 0; i < o.ops.size(); i++) {
        auto& t = o.ops[i];
        if (t.round != r) continue;
        for (int n = 0; n < nn(); n++) if (not t.ran[(std::size_t)n]) vsim_fail("epoch", "the epoch of %s has ended, and it has not run at %d", name((int)i).c_str(), n);
      }
      vsim_probe("round in an epoch");
    } else {
      body();
    }
    // wait for some of them, in any order
    while (not posted->empty() and (epoch or w.chance(60))) {
      auto q = w.range(0, (int64_t)posted->size() - 1);
      auto p = (*posted)[(std::size_t)q];
      posted->erase(posted->begin() + q);
      auto i = opOf(p.first, mine()[(std::size_t)p.first].gen, p.second, r);
      mine()[(std::size_t)p.first].sc->waitCollective(o.ops[(std::size_t)i].tag[(std::size_t)me()]);
      if (not o.ops[(std::size_t)i].ran[(std::size_t)me()]) vsim_fail("wait", "the wait for %s returns before it ran", name(i).c_str());
      if (not done(p.first, i)) vsim_fail("done", "%s ran and is reported not done", name(i).c_str());
    }
    // a blocking one at the same point everywhere
    for (int s = 0; s < nsc; s++) {
      if (not how.chance(25) or not vsim_op_on((uint64_t)(s * 100 + r * 10 + 9))) continue;
      auto k = next[(std::size_t)s]++;
      auto i = opOf(s, mine()[(std::size_t)s].gen, k, -1);
      auto& t = o.ops[(std::size_t)i];
      t.posted[(std::size_t)me()] = 1; t.nposted++;
      t.epoch[(std::size_t)me()] = vt::theMsg()->getEpoch();
      o.pend++;
      mine()[(std::size_t)s].sc->mpiCollectiveWait([i] { run(i); });
      if (not o.ops[(std::size_t)i].ran[(std::size_t)me()]) vsim_fail("wait", "the blocking %s returns before it ran", name(i).c_str());
      vsim_probe("blocking");
    }
    // a scope is given up, perhaps with operations still planned, and made again
    for (int s = 0; s < nsc; s++) {
      if (not how.chance(r + 1 == rounds ? 60 : 20)) continue;
      auto& t = mine()[(std::size_t)s];
      t.sc.reset();
      vsim_probe("scope destroyed");
      auto gone = [&] {
        bool all = true;
        for (auto& x : o.ops) if (x.scope == s and x.gen == t.gen and x.posted[(std::size_t)me()] and not x.ran[(std::size_t)me()]) all = false;
        return all;
      };
      if (gone() != vt::theCollective()->isDeallocated(t.user, t.bits) and not g_in) vsim_fail("released", "the destroyed scope %d with%s planned operations is%s released", s, gone() ? "out" : "", gone() ? " not" : "");
      if (r + 1 == rounds) continue;
      pumpUntil([&] { return vt::theCollective()->isDeallocated(t.user, t.bits); });
      if (not gone()) vsim_fail("released", "the scope %d is released with operations planned", s);
      t.gen++; next[(std::size_t)s] = 0;
      make(s);
      vsim_probe("scope made again");
    }
  }
  auto all = [&] { for (auto& t : o.ops) for (auto x : t.ran) if (not x) return false; return true; };
  meet("posted");
  pumpUntil([&] { return o.pend == 0 and all(); });
  meet("over");
  // those destroyed with operations planned are released by now
  pumpUntil([&] { for (auto& t : mine()) if (not t.sc and not vt::theCollective()->isDeallocated(t.user, t.bits)) return false; return true; });
  for (auto& t : mine()) if (t.sc and vt::theCollective()->isDeallocated(t.user, t.bits)) vsim_fail("released", "a live scope was released");
  mine().clear();
  meet("checked");
  vt::theTerm()->consume();
  vt::finalize();
  if (o.order.size() != o.ops.size()) vsim_fail("lost", "%zu of %zu operations ran", o.order.size(), o.ops.size());
}

} // namespace

WL_ENTRY {
  (void)mode_c;
  system();
  vsim_done();
}
