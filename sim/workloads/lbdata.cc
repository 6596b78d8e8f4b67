// Load and communication data of elements: random recording histories against an
// exact model, moved between nodes in serialized form as migration does.
#include "wl.h"
#include <vt/elm/elm_lb_data.h>
#include <cmath>
#include <memory>
using namespace wl;
using vt::elm::CommKey;
using vt::elm::ElementIDStruct;

namespace {

struct Rec : vt::elm::ElementLBData {
  using vt::elm::ElementLBData::releaseLBDataFromUnneededPhases;
};

// An independent identity for a communication edge
using Edge = std::tuple<int, uint64_t, uint64_t, int, int, int>;
struct Vol { double bytes = 0; uint64_t n = 0; };
using EdgeMap = std::map<Edge, Vol>;
Edge edgeOf(CommKey const& k) {
  return Edge{(int)k.commCategory(), k.fromObj().id, k.toObj().id, (int)(int16_t)k.fromNode(), (int)(int16_t)k.toNode(), k.sharedID()};
}

struct Ph { double load = 0; std::vector<double> sub; EdgeMap comm; std::vector<EdgeMap> subcomm; bool timed = false, communicated = false; };
struct Model {
  std::map<uint64_t, Ph> ph;
  uint64_t cur = 0;
  int sub = 0;
  bool running = false;
  double since = 0;
  void time(double t) {
    auto& p = ph[cur];
    p.load += t;
    p.timed = true;
    if ((int)p.sub.size() <= sub) p.sub.resize(sub + 1);
    p.sub[sub] += t;
  }
  void comm(Edge e, double b) {
    auto& p = ph[cur];
    p.communicated = true;
    p.comm[e].bytes += b;
    p.comm[e].n++;
    if ((int)p.subcomm.size() <= sub) p.subcomm.resize(sub + 1);
    p.subcomm[sub][e].bytes += b;
    p.subcomm[sub][e].n++;
  }
};

bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
double sum(std::vector<double> const& v) { double s = 0; for (auto x : v) s += x; return s; }
double at(std::vector<double> const& v, std::size_t i) { return i < v.size() ? v[i] : 0; }

void sameComm(vt::elm::CommMapType const& a, EdgeMap const& b, char const* what, uint64_t phase) {
  EdgeMap got;
  for (auto& x : a) {
    auto e = edgeOf(x.first);
    if (got.count(e)) vsim_fail("comm-duplicate", "%s of phase %lu has one edge twice", what, phase);
    got[e] = Vol{x.second.bytes, x.second.messages};
  }
  for (auto& x : b) {
    auto it = got.find(x.first);
    if (it == got.end()) vsim_fail("comm-lost", "%s of phase %lu lacks an edge of category %d with %lu messages", what, phase, std::get<0>(x.first), x.second.n);
    if (it->second.n != x.second.n or not near(it->second.bytes, x.second.bytes)) {
      vsim_fail("comm-volume", "%s of phase %lu: an edge of category %d has %lu messages, %.1f bytes; recorded were %lu, %.1f", what, phase, std::get<0>(x.first), it->second.n, it->second.bytes, x.second.n, x.second.bytes);
    }
  }
  if (got.size() != b.size()) vsim_fail("comm-extra", "%s of phase %lu has %zu edges, recorded were %zu", what, phase, got.size(), b.size());
}

void verify(Rec& r, Model& m) {
  if (r.getPhase() != m.cur) vsim_fail("phase", "phase %lu, expected %lu", (uint64_t)r.getPhase(), m.cur);
  if ((int)r.getSubPhase() != m.sub) vsim_fail("subphase", "subphase %d, expected %d", (int)r.getSubPhase(), m.sub);
  for (auto& x : m.ph) {
    auto& p = x.second;
    if (not near(r.getLoad(x.first), p.load)) vsim_fail("load", "load of phase %lu is %.9f, recorded were %.9f", x.first, (double)r.getLoad(x.first), p.load);
    auto st = r.getSubphaseTimes(x.first);
    std::vector<double> sv(st.begin(), st.end());
    if (not near(sum(sv), r.getLoad(x.first))) vsim_fail("subphase-sum", "phase %lu has load %.9f but its subphases sum to %.9f", x.first, (double)r.getLoad(x.first), sum(sv));
    for (std::size_t i = 0; i < std::max(sv.size(), p.sub.size()); i++) {
      if (not near(at(sv, i), at(p.sub, i))) vsim_fail("subphase-load", "load of phase %lu subphase %zu is %.9f, recorded were %.9f", x.first, i, at(sv, i), at(p.sub, i));
      if (i < sv.size() and not near(r.getLoad(x.first, (vt::SubphaseType)i), at(p.sub, i))) vsim_fail("subphase-load", "getLoad(%lu,%zu) is wrong", x.first, i);
    }
    if (not near(r.getLoad(x.first, vt::elm::ElementLBData::no_subphase), p.load)) vsim_fail("load", "getLoad without a subphase is not the total");
    sameComm(r.getComm(x.first), p.comm, "communication", x.first);
    auto sc = r.getSubphaseComm(x.first);
    EdgeMap none;
    for (std::size_t i = 0; i < std::max(sc.size(), p.subcomm.size()); i++) {
      vt::elm::CommMapType empty;
      sameComm(i < sc.size() ? sc[i] : empty, i < p.subcomm.size() ? p.subcomm[i] : none, "subphase communication", x.first);
    }
  }
}

struct Parcel { std::vector<char> buf; };

void history(int h) {
  uint64_t op = (uint64_t)(me() * 100 + h);
  if (not vsim_op_on(op)) return;
  Rng g("hist", op);
  auto r = std::make_unique<Rec>();
  Model m;
  double now = (double)g.range(0, 100000) / 7;
  std::vector<ElementIDStruct> ids;
  for (int i = 0; i < 5; i++) {
    auto node = (vt::NodeType)g.range(0, 6);
    ids.push_back(vt::elm::ElmIDBits::createCollectionImpl(g.chance(70), (uint64_t)g.range(1, 4), node, (vt::NodeType)g.range(0, 6)));
  }
  auto id = [&] { return ids[g.range(0, 4)]; };
  int const n = (int)vsim_param("ops", 1, 250);
  bool backwards = g.chance(40);
  for (int i = 0; i < n; i++) {
    int k = (int)g.range(0, 99);
    now += (double)g.range(0, 100000) / 3e6;
    double bytes = (double)(g.chance(10) ? 0 : g.range(0, 100000));
    if (k < 25) {
      if (not m.running) { r->start(vt::TimeType{now}); m.running = true; m.since = now; }
      else { r->stop(vt::TimeType{now}); m.time(now - m.since); m.running = false; vsim_probe("timed"); }
    } else if (k < 29) {
      r->addTime(0.25); m.time(0.25);
    } else if (k < 31 and not m.running) {
      // stopping without having started (a task of another kind) records nothing
      r->stop(vt::TimeType{now});
    } else if (k < 60) {
      auto a = id(), b = id();
      int nd = (int)g.range(0, 6), sh = (int)g.range(0, 3);
      switch (g.range(0, 9)) {
        case 0: case 1: r->sendToEntity(a, b, bytes); m.comm(Edge{(int)vt::elm::CommCategory::SendRecv, b.id, a.id, vt::uninitialized_destination, vt::uninitialized_destination, -1}, bytes); break;
        case 2: case 3: { bool bc = g.chance(40); r->recvObjData(a, b, bytes, bc); m.comm(Edge{(int)(bc ? vt::elm::CommCategory::Broadcast : vt::elm::CommCategory::SendRecv), b.id, a.id, vt::uninitialized_destination, vt::uninitialized_destination, -1}, bytes); break; }
        case 4: case 5: { bool bc = g.chance(40); r->recvFromNode(a, (vt::NodeType)nd, bytes, bc); m.comm(Edge{(int)(bc ? vt::elm::CommCategory::NodeToCollectionBcast : vt::elm::CommCategory::NodeToCollection), 0, a.id, nd, vt::uninitialized_destination, -1}, bytes); break; }
        case 6: { bool bc = g.chance(40); r->recvToNode((vt::NodeType)nd, a, bytes, bc); m.comm(Edge{(int)(bc ? vt::elm::CommCategory::CollectionToNodeBcast : vt::elm::CommCategory::CollectionToNode), a.id, 0, vt::uninitialized_destination, nd, -1}, bytes); break; }
        case 7: r->addWritableSharedID((vt::NodeType)nd, sh, bytes); m.comm(Edge{(int)vt::elm::CommCategory::WriteShared, 0, 0, vt::uninitialized_destination, nd, sh}, bytes); break;
        case 8: r->addReadOnlySharedID((vt::NodeType)nd, sh, bytes); m.comm(Edge{(int)vt::elm::CommCategory::ReadOnlyShared, 0, 0, vt::uninitialized_destination, nd, sh}, bytes); break;
        default: {
          CommKey key{CommKey::CollectionTag{}, b, a, false};
          if (g.chance(50)) r->sendComm(key, bytes); else r->recvComm(key, bytes);
          m.comm(edgeOf(key), bytes);
        }
      }
      vsim_probe("communicated");
    } else if (k < 70) {
      int s = backwards ? (int)g.range(0, 5) : std::min(9, m.sub + (int)g.range(0, 2));
      if (s < m.sub) vsim_probe("subphase-back");
      r->setSubPhase((vt::SubphaseType)s);
      m.sub = s;
    } else if (k < 76) {
      if (g.chance(80)) { r->updatePhase(1); m.cur++; }
      else { int inc = (int)g.range(1, 3); r->updatePhase((vt::PhaseType)inc); m.cur += (uint64_t)inc; }
      if (not backwards or g.chance(70)) { r->setSubPhase(0); m.sub = 0; }
      vsim_probe("phase");
    } else if (k < 80 and m.cur > 0) {
      // keep `look_back` phases: only the phase that falls out of the window goes
      unsigned lb = (unsigned)g.range(1, 4);
      r->releaseLBDataFromUnneededPhases((vt::PhaseType)m.cur, lb);
      if (m.cur >= lb) m.ph.erase(m.cur - lb);
      if (r->getLoad((vt::PhaseType)(m.cur - (m.cur >= lb ? lb : m.cur))) != 0 and m.cur >= lb) vsim_fail("not-released", "phase %lu is kept although only %u phases are", m.cur - lb, lb);
      vsim_probe("released");
    } else if (k < 83) {
      std::vector<vt::LoadType> sl;
      double t = 0;
      for (int q = (int)g.range(1, 5); q > 0; q--) { sl.push_back(0.5 * (double)g.range(0, 9)); t += sl.back(); }
      r->setTime(t, sl);
      auto& p = m.ph[m.cur];
      p.load = t;
      p.sub.assign(sl.begin(), sl.end());
      if ((int)p.sub.size() < m.sub + 1 and false) p.sub.resize(m.sub + 1);
    } else if (k < 88) {
      // the element moves: its data travel with it
      auto info = checkpoint::serialize(*r);
      vsim_yield();
      std::vector<char> copy(info->getBuffer(), info->getBuffer() + info->getSize());
      info = nullptr;
      r = checkpoint::deserialize<Rec>(copy.data());
      vsim_probe("moved");
    } else {
      verify(*r, m);
    }
  }
  verify(*r, m);
}

// What stays after many phases with a given retention
void retention(int h) {
  uint64_t op = (uint64_t)(5000 + me() * 100 + h);
  if (not vsim_op_on(op)) return;
  Rng g("ret", op);
  Rec r;
  unsigned const lb = (unsigned)g.range(1, 6);
  int const phases = (int)g.range(1, 15);
  std::map<int, double> load;
  for (int p = 0; p < phases; p++) {
    double t = (double)g.range(1, 50);
    r.addTime(t);
    load[p] = t;
    CommKey key{CommKey::CollectionTag{}, vt::elm::ElmIDBits::createCollectionImpl(true, 1, 0, 0), vt::elm::ElmIDBits::createCollectionImpl(true, 2, 0, 0), false};
    r.recvComm(key, t);
    r.updatePhase(1);
    r.releaseLBDataFromUnneededPhases((vt::PhaseType)p, lb);
    for (auto& x : load) {
      bool want = x.first > p - (int)lb;
      double have = r.getLoad((vt::PhaseType)x.first);
      if (want and not near(have, x.second)) vsim_fail("retention", "with %u phases to keep, the load of phase %d is gone after phase %d", lb, x.first, p);
      if (not want and have != 0) vsim_fail("not-released", "with %u phases to keep, phase %d is still there after phase %d", lb, x.first, p);
    }
    auto const most = (std::size_t)lb + 1;
    if (r.getLoadPhaseCount() > most or r.getCommPhaseCount() > most or r.getSubphaseLoadPhaseCount() > most or r.getSubphaseCommPhaseCount() > most) {
      vsim_fail("not-released", "with %u phases to keep, %zu/%zu/%zu/%zu phases are held", lb, r.getLoadPhaseCount(), r.getCommPhaseCount(), r.getSubphaseLoadPhaseCount(), r.getSubphaseCommPhaseCount());
    }
  }
  vsim_probe("retention");
}

} // namespace

WL_ENTRY {
  std::string mode = mode_c;
  for (int h = 0; h < 10; h++) { history(h); vsim_yield(); }
  for (int h = 0; h < 4; h++) retention(h);
  vsim_done();
}
