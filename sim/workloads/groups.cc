// Groups: rooted (range, list), collective, and the region algebra below them.
#include "wl.h"
#include <vt/group/region/group_range.h>
#include <vt/group/region/group_list.h>
#include <vt/group/region/group_shallow_list.h>
#include <vt/group/group_manager.h>
#include <vt/group/group_headers.h>
#include <algorithm>
using namespace wl;
namespace rg = vt::group::region;
using vt::GroupType;
using vt::NodeType;

namespace {

// ---------------------------------------------------------------- region algebra
using Set = std::vector<NodeType>;
std::string show(Set const& s) { std::string r; for (auto x : s) r += (r.empty() ? "" : ",") + std::to_string(x); return "{" + r + "}"; }

struct Spec { int kind; int lo, hi, stride; Set list; Set members; };   // kind 0 range, 1 list
Spec makeSpec(Rng& g, int n) {
  Spec s{};
  s.kind = (int)g.range(0, 2) == 0 ? 1 : 0;
  if (s.kind == 0) {
    s.lo = (int)g.range(0, n - 1);
    s.hi = (int)g.range(s.lo + 1, n);
    s.stride = g.chance(40) ? 1 : (int)g.range(1, 4);
    for (int i = s.lo; i < s.hi; i += s.stride) s.members.push_back((NodeType)i);
  } else {
    int pct = (int)g.range(10, 95);
    for (int i = 0; i < n; i++) if (g.chance(pct)) s.list.push_back((NodeType)i);
    if (s.list.empty()) s.list.push_back((NodeType)g.range(0, n - 1));
    if (g.chance(60)) for (std::size_t i = s.list.size(); i > 1; i--) std::swap(s.list[i - 1], s.list[g.range(0, (int64_t)i - 1)]);
    s.members = s.list;
    std::sort(s.members.begin(), s.members.end());
  }
  return s;
}
std::unique_ptr<rg::Region> makeRegion(Spec const& s) {
  if (s.kind == 0) {
    if (s.stride == 1 and s.lo % 2) return std::make_unique<rg::Range>(s.lo, s.hi);
    return std::make_unique<rg::Range>(s.lo, s.hi, s.stride);
  }
  return std::make_unique<rg::List>(s.list);
}
std::string what(Spec const& s) {
  if (s.kind == 0) return "range " + std::to_string(s.lo) + ".." + std::to_string(s.hi) + " by " + std::to_string(s.stride);
  return "list " + show(s.list);
}

// Takes a region apart by random operations; what is left must be the model set.
void algebra(rg::Region& r, Set m, Rng& g, int depth, std::string const& w) {
  if (r.getSize() != m.size()) vsim_fail("region", "%s: size %zu, has elements %s", w.c_str(), (std::size_t)r.getSize(), show(m).c_str());
  if (m.empty()) return;
  if (r.head() != m.front()) vsim_fail("region", "%s: head is %d, elements %s", w.c_str(), (int)r.head(), show(m).c_str());
  Set sorted = m;
  std::sort(sorted.begin(), sorted.end());
  for (int i = 0; i < 6; i++) {
    NodeType x = (NodeType)g.range(0, sorted.back() + 2);
    bool in = std::binary_search(sorted.begin(), sorted.end(), x);
    if (r.contains(x) != in) vsim_fail("region", "%s: node %d is %s, elements %s", w.c_str(), (int)x, in ? "not found" : "found", show(m).c_str());
  }
  bool shallow = dynamic_cast<rg::ShallowList*>(&r) != nullptr;
  if (not shallow and g.chance(40)) {
    auto const& l = r.makeList();
    if (not(Set(l.begin(), l.end()) == m)) vsim_fail("region", "%s: lists %s, elements %s", w.c_str(), show(Set(l.begin(), l.end())).c_str(), show(m).c_str());
  }
  if (not shallow and g.chance(30)) { r.sort(); m = sorted; if (r.head() != m.front()) vsim_fail("region", "%s: head after sorting is not the least element", w.c_str()); }
  if (depth <= 0) return;
  switch (g.range(0, 4)) {
    case 0: { auto t = r.tail(); algebra(*t, Set(m.begin() + 1, m.end()), g, depth - 1, w + " tail"); break; }
    case 1:
      if (m.size() >= 2) {
        auto s = r.split();
        auto& a = std::get<0>(s); auto& b = std::get<1>(s);
        std::size_t na = a->getSize();
        if (na == 0 or na >= m.size() or na + b->getSize() != m.size()) vsim_fail("region", "%s: split into %zu and %zu of %zu elements", w.c_str(), na, (std::size_t)b->getSize(), m.size());
        algebra(*a, Set(m.begin(), m.begin() + na), g, depth - 1, w + " split-low");
        algebra(*b, Set(m.begin() + na, m.end()), g, depth - 1, w + " split-high");
      }
      break;
    case 2: {
      int n = (int)g.range(1, 5);
      std::size_t at = 0;
      int parts = 0;
      r.splitN(n, [&](std::unique_ptr<rg::Region> c) {
        std::size_t sz = c->getSize();
        if (sz == 0 or at + sz > m.size()) vsim_fail("region", "%s: a split in %d has a part of %zu of %zu elements", w.c_str(), n, sz, m.size());
        algebra(*c, Set(m.begin() + at, m.begin() + at + sz), g, depth - 1, w + " part");
        at += sz;
        parts++;
      });
      if (at != m.size() or parts > n) vsim_fail("region", "%s: a split in %d covers %zu of %zu elements", w.c_str(), n, at, m.size());
      break;
    }
    case 3: { auto c = r.copy(); algebra(*c, m, g, depth - 1, w + " copy"); break; }
    default: {
      if (not(m == sorted)) break;   // shallow lists are views of sorted lists only
      Set keep = m;
      std::vector<NodeType> store(keep.begin(), keep.end());
      rg::ShallowList sl(store.data(), store.size());
      algebra(sl, m, g, depth - 1, w + " shallow");
    }
  }
}

// ---------------------------------------------------------------- groups
struct Grp {
  bool coll = false, ready = false, mpi = false;
  Set members;
  GroupType id = vt::no_group;
  int ready_runs = 0; std::set<int> ready_on;
  int root = -1; int creator = 0;
  uint64_t red_expect = 0; int red_got = 0;
  std::string w;
};
struct Mc { int grp; uint64_t key; std::map<int, int> got; bool may_drop = false; };
struct GO {
  std::deque<Grp> grps;
  std::deque<Mc> mcs;
  int64_t pending = 0;
  int mains = 0;
  int reds = 0;
};
GO& G() { return shared<GO>("groups"); }
std::map<int, GroupType> collId;          // this node's identifiers of collective groups

struct Msg : vt::Message { int id; uint64_t key; int from; uint8_t data[24]; };
template <int N> struct Big : vt::Message { int id; uint64_t key; int from; uint8_t data[N]; };
struct Ser : vt::Message {
  using MessageParentType = vt::Message;
  vt_msg_serialize_required();
  int id = 0, from = 0; uint64_t key = 0; std::vector<uint8_t> v;
  template <class S> void serialize(S& s) { MessageParentType::serialize(s); s | id | from | key | v; }
};
struct Put : vt::PayloadMessage { int id; uint64_t key; int from; };

void arrived(int id) {
  auto& o = G();
  auto& mc = o.mcs[id];
  auto& gr = o.grps[mc.grp];
  if (not std::binary_search(gr.members.begin(), gr.members.end(), (NodeType)me()))
    vsim_fail("non-member", "a message to the group %s (members %s) ran on node %d", gr.w.c_str(), show(gr.members).c_str(), me());
  if (++mc.got[me()] > 1) vsim_fail("duplicate", "a message to the group %s ran twice on node %d", gr.w.c_str(), me());
  o.pending--;
  vsim_touch();
}
template <class M> void hRaw(M* m) {
  if (not matches(m->data, sizeof m->data, m->key)) vsim_fail("contents", "a group message arrived with other contents on node %d", me());
  arrived(m->id);
}
void hSer(Ser* m) {
  if (not matches(m->v.data(), m->v.size(), m->key)) vsim_fail("contents", "a serialized group message arrived with other contents on node %d", me());
  arrived(m->id);
}
std::deque<std::vector<uint8_t>> putStore;
void hPut(Put* m) {
  if (not matches(reinterpret_cast<uint8_t*>(const_cast<std::byte*>(reinterpret_cast<std::byte const*>(m->getPut()))), m->getPutSize(), m->key)) vsim_fail("contents", "a group message's payload arrived with other contents on node %d", me());
  arrived(m->id);
}

void multicast(int grp, GroupType id, Rng& g) {
  auto& o = G();
  int mid = (int)o.mcs.size();
  o.mcs.push_back({grp, g.next(), {}, false});
  o.pending += (int64_t)o.grps[grp].members.size();
  uint64_t key = o.mcs[mid].key;
  switch (g.range(0, 4)) {
    case 0: case 1: {
      auto m = vt::makeMessage<Msg>();
      m->id = mid; m->key = key; fill(m->data, sizeof m->data, key);
      vt::envelopeSetGroup(m->env, id);
      vt::theMsg()->broadcastMsg<hRaw<Msg>>(m);
      break;
    }
    case 2: {
      auto m = vt::makeMessage<Big<3000>>();
      m->id = mid; m->key = key; fill(m->data, sizeof m->data, key);
      vt::envelopeSetGroup(m->env, id);
      vt::theMsg()->broadcastMsg<hRaw<Big<3000>>>(m);
      break;
    }
    case 3: {
      auto m = vt::makeMessage<Ser>();
      m->id = mid; m->key = key; m->v.resize(g.range(0, 300)); fill(m->v.data(), m->v.size(), key);
      vt::envelopeSetGroup(m->env, id);
      vt::theMsg()->broadcastMsg<hSer>(m);
      break;
    }
    default: {
      auto m = vt::makeMessage<Msg>();
      m->id = mid; m->key = key; fill(m->data, sizeof m->data, key);
      vt::envelopeSetGroup(m->env, id);
      vt::theGroup();
      vt::theMsg()->broadcastMsg<hRaw<Msg>>(m, true);
    }
  }
}

struct RedMsg : vt::collective::ReduceTMsg<uint64_t> {
  RedMsg() = default;
  RedMsg(uint64_t v, int gi) : vt::collective::ReduceTMsg<uint64_t>(v), grp(gi) {}
  int grp = 0;
};
struct RedDone {
  void operator()(RedMsg* m) {
    auto& o = G();
    auto& gr = o.grps[m->grp];
    if (me() != gr.members.front()) vsim_fail("reduce", "a group reduction arrived on node %d instead of %d", me(), (int)gr.members.front());
    if (++gr.red_got > 1) vsim_fail("reduce", "a group reduction arrived twice");
    if (m->getConstVal() != gr.red_expect) vsim_fail("reduce", "a reduction over the group %s gave %lx, the contributions of its members combine to %lx", gr.w.c_str(), (unsigned long)m->getConstVal(), (unsigned long)gr.red_expect);
    o.reds--;
    vsim_touch();
  }
};

void newRooted(Rng g) {
  auto& o = G();
  auto s = makeSpec(g, nn());
  int gi = (int)o.grps.size();
  o.grps.emplace_back();
  auto& gr = o.grps[gi];
  gr.members = s.members; gr.creator = me(); gr.w = what(s) + " of node " + std::to_string(me());
  vsim_probe(s.kind == 0 ? (s.members.size() >= 4 ? "range-group" : "small-range-group") : "list-group");
  o.pending++;
  Rng g2(g.next());
  vt::theGroup()->newGroup(makeRegion(s), [gi, g2](GroupType id) mutable {
    auto& o = G();
    auto& gr = o.grps[gi];
    if (gr.ready_runs++) vsim_fail("ready", "the completion action of the group %s ran twice", gr.w.c_str());
    if (me() != gr.creator) vsim_fail("ready", "the completion action of a rooted group ran on another node");
    gr.id = id;
    gr.ready = true;
    int n = (int)g2.range(0, 3);
    for (int i = 0; i < n; i++) multicast(gi, id, g2);
    o.pending--;
    vsim_touch();
  });
}

void newColl(int k, Rng g) {
  auto& o = G();
  // the same choice on all nodes
  Rng c("coll", k);
  int pat = (int)c.range(0, 5);
  int pct = (int)c.range(10, 90);
  Set mem;
  for (int i = 0; i < nn(); i++) {
    bool in = pat == 0 ? true : pat == 1 ? false : pat == 2 ? i != 0 : pat == 3 ? i % 2 == (k & 1) : c.chance(pct);
    if (in) mem.push_back((NodeType)i);
  }
  bool in = std::binary_search(mem.begin(), mem.end(), (NodeType)me());
  bool mpi = c.chance(25);
  bool red = c.chance(50) and not mem.empty();
  auto& slot = shared<std::map<int, int>>("collmap");
  if (not slot.count(k)) {
    slot[k] = (int)o.grps.size();
    o.grps.emplace_back();
    auto& gr = o.grps.back();
    gr.coll = true; gr.members = mem; gr.mpi = mpi; gr.w = "collective " + show(mem);
    for (auto m : mem) gr.red_expect += vsim_hash("contrib", (uint64_t)k * 100 + m);
    if (red) o.reds++;
    if (mem.empty()) vsim_probe("empty-group"); else if ((int)mem.size() == nn()) vsim_probe("full-group"); else vsim_probe(mem.front() == 0 ? "partial-group" : "group-without-node-0");
  }
  int gi = slot[k];
  o.pending++;
  Rng g2(g.next());
  // optionally multicast at once: a member may send before the group is ready
  bool early = in and g.chance(30);
  bool done_in_call = false;
  (void)done_in_call;
  auto id = vt::theGroup()->newGroupCollective(in, [gi, g2, in, red, k, mpi](GroupType id) mutable {
    auto& o = G();
    auto& gr = o.grps[gi];
    if (not gr.ready_on.insert(me()).second) vsim_fail("ready", "the completion action of the group %s ran twice on node %d", gr.w.c_str(), me());
    if (vt::theGroup()->inGroup(id) != in) vsim_fail("query", "inGroup is wrong on node %d for the group %s", me(), gr.w.c_str());
    collId[gi] = id;
    bool def = vt::theGroup()->isGroupDefault(id);
    if (def and (int)gr.members.size() != nn()) vsim_fail("query", "the group %s claims to be the default group", gr.w.c_str());
    if (not gr.members.empty()) {
      int root = vt::theGroup()->groupRoot(id);
      if (not std::binary_search(gr.members.begin(), gr.members.end(), (NodeType)root)) vsim_fail("query", "the root %d of the group %s is no member", root, gr.w.c_str());
      if (gr.root >= 0 and gr.root != root) vsim_fail("query", "nodes disagree on the root of the group %s", gr.w.c_str());
      gr.root = root;
      if (mpi) {
        int sz = -1;
        MPI_Comm_size(vt::theGroup()->getGroupComm(id), &sz);
        int want = in ? (int)gr.members.size() : nn() - (int)gr.members.size();
        if (sz != want) vsim_fail("query", "the communicator of the group %s has %d nodes instead of %d", gr.w.c_str(), sz, want);
      }
      int n = (int)g2.range(0, 2);
      for (int i = 0; i < n; i++) multicast(gi, id, g2);
      if (red and in) {
        auto m = vt::makeMessage<RedMsg>(vsim_hash("contrib", (uint64_t)k * 100 + me()), gi);
        // a group of all nodes shares the reducer of the whole job, where the nodes'
        // completion actions may come in any order: name the reduction
        using namespace vt::collective::reduce;
        auto red = vt::theGroup()->groupReducer(id);
        if ((int)gr.members.size() == nn()) red->reduce<vt::collective::PlusOp<uint64_t>, RedDone>(gr.members.front(), m.get(), makeStamp<StrongUserID>((uint64_t)k + 77000));
        else red->reduce<vt::collective::PlusOp<uint64_t>, RedDone>(gr.members.front(), m.get());
      }
    }
    o.pending--;
    vsim_touch();
  }, mpi);
  if (early and collId.count(gi) == 0) { vsim_probe("send-before-ready"); multicast(gi, id, g); }
}

void describe(char* b, uint64_t n) {
  auto& o = G();
  int nr = 0;
  std::string un;
  for (auto& g : o.grps) {
    if (g.coll ? (int)g.ready_on.size() != nn() : not g.ready) { nr++; un = g.w; }
  }
  std::string lost;
  for (auto& m : o.mcs) if (m.got.size() != o.grps[m.grp].members.size()) lost = o.grps[m.grp].w;
  snprintf(b, n, "mains=%d pending=%ld reductions=%d groups not ready=%d %s, incomplete multicast to %s", o.mains, (long)o.pending, o.reds, nr, un.c_str(), lost.c_str());
}

} // namespace

WL_ENTRY {
  std::string mode = mode_c;
  init();
  if (me() == 0) vsim_describe(describe);
  auto& o = G();
  int nops = (int)vsim_param("ops", 2, 24);
  int ncoll = mode == "rooted" ? 0 : (int)vsim_param("colls", 1, 6);
  // the region algebra on spaces larger than this job
  if (mode == "rooted") {
    int nreg = (int)vsim_param("regions", 20, 400);
    for (int i = 0; i < nreg; i++) {
      Rng g("region", (uint64_t)me() * 10000 + i);
      auto s = makeSpec(g, (int)g.range(1, g.chance(20) ? 300 : 24));
      auto r = makeRegion(s);
      Set order = s.kind == 0 ? s.members : s.list;
      algebra(*r, order, g, 4, what(s));
    }
  }
  int kc = 0;
  for (int i = 0; i < nops; i++) {
    uint64_t idx = (uint64_t)i * nn() + me();
    if (not vsim_op_on(idx)) continue;
    Rng g("op", idx);
    vsim_advance((uint64_t)g.range(0, 30000));
    switch (g.range(0, 4)) {
      case 0: if (mode != "coll") newRooted(Rng(g.next())); break;
      case 1: {
        // a group somebody made ready earlier
        std::vector<int> c;
        for (int k = 0; k < (int)o.grps.size(); k++) if (not o.grps[k].coll and o.grps[k].ready) c.push_back(k);
        if (not c.empty()) {
          int k = c[g.range(0, (int64_t)c.size() - 1)];
          if (o.grps[k].creator != me()) vsim_probe("multicast-from-elsewhere");
          multicast(k, o.grps[k].id, g);
        }
        break;
      }
      case 2: {
        std::vector<int> c;
        for (auto& x : collId) if (not o.grps[x.first].members.empty()) c.push_back(x.first);
        if (not c.empty()) { int k = c[g.range(0, (int64_t)c.size() - 1)]; multicast(k, collId[k], g); }
        break;
      }
      default: {
        int n = (int)g.range(0, 12);
        while (n-- > 0) vt::theSched()->runSchedulerOnceImpl();
      }
    }
    // collective creations: the same number and order on every node, at different times
    while (kc < ncoll and g.chance(40)) { newColl(kc, Rng("newcoll", (uint64_t)kc * 100 + me())); kc++; }
  }
  while (kc < ncoll) { newColl(kc, Rng("newcoll", (uint64_t)kc * 100 + me())); kc++; }
  o.mains++;
  vsim_touch();
  pumpUntil([&] { return o.mains == nn() and o.pending == 0 and o.reds == 0; });
  for (int i = 0; i < 20; i++) vt::theSched()->runSchedulerOnceImpl();
  meet("quiet");
  // remove collective groups again (all nodes), more messages to the others
  Rng d("delete", 0);
  for (auto& x : collId) if (d.chance(30) and not o.grps[x.first].mpi and not o.grps[x.first].members.empty()) vt::theGroup()->deleteGroupCollective(x.second);
  meet("end");
  vt::finalize();
  if (me() == 0) {
    for (auto& mc : o.mcs) {
      auto& gr = o.grps[mc.grp];
      for (auto m : gr.members) if (mc.got[m] != 1) vsim_fail("lost", "a message to the group %s ran %d times on node %d", gr.w.c_str(), mc.got[m], (int)m);
    }
  }
  vsim_done();
}
