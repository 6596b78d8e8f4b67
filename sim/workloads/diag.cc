// C25: diagnostics.  The counters, gauges and timers that the runtime keeps are
// compared with what the simulated network saw of each node, and what is
// reported for the job with a model of all values of all nodes.
#include "wl.h"
#include <cmath>
#include <fstream>
#include <mpi.h>
#include <sstream>
#include <vt/runtime/component/diagnostic.h>
#include <vt/runtime/component/diagnostic.impl.h>
#include <vt/runtime/component/diagnostic_value.h>
#include <vt/runtime/component/diagnostic_erased_value.h>
#include <vt/scheduler/scheduler.h>
using namespace wl;
using vt::NodeType;
using vt::TimeType;
namespace rc = vt::runtime::component;
using rc::DiagnosticUpdate;

namespace {

// ---- what the network saw
struct Count { int64_t n = 0, sum = 0, min = 0, max = 0; void add(int64_t v) { min = n ? std::min(min, v) : v; max = n ? std::max(max, v) : v; n++; sum += v; } };
struct Seen { Count amSend, amPost, amRecv, dmSend, dmPost, dmRecv; int64_t bcast = 0, tdSend = 0, tdRecv = 0, amTest = 0, dmTest = 0, probe = 0; };
Seen g_seen;
int g_comm = -1;
bool g_split = false, g_table = false, g_base = true;

struct Key { std::string key; DiagnosticUpdate up; char type; int series; };
// one per meter that the program registers
struct Series { char kind, type; std::string key; std::vector<std::vector<double>> v; };
struct State {
  std::vector<Series> series;
  std::map<std::string, int64_t> before;           // sums over the nodes
  std::map<std::string, int64_t> after;
  int outstanding = 0, ran = 0, sent = 0;
  double live = 0;
};
State& S() { return shared<State>("diag"); }

void observe(int kind, int comm, int tag, void const* buf, uint64_t n) {
  if (g_comm == -1) g_comm = vt::theContext() ? (int)vt::theContext()->getComm() : -1;
  if (comm != g_comm) return;
  bool am = tag == 1;
  auto& s = g_seen;
  switch (kind) {
  case VMPI_SEND:
    (am ? s.amSend : s.dmSend).add((int64_t)n);
    if (am) {
      auto& e = reinterpret_cast<vt::ShortMessage const*>(buf)->env;
      if (vt::messaging::envelopeIsBcast(e)) s.bcast++;
      if (vt::messaging::envelopeIsTerm(e)) s.tdSend++;
    }
    break;
  case VMPI_POST: (am ? s.amPost : s.dmPost).add((int64_t)n); break;
  case VMPI_RECV:
    (am ? s.amRecv : s.dmRecv).add((int64_t)n);
    if (am and vt::messaging::envelopeIsTerm(reinterpret_cast<vt::ShortMessage const*>(buf)->env)) s.tdRecv++;
    break;
  case VMPI_TEST_RECV: (am ? s.amTest : s.dmTest)++; break;
  case VMPI_PROBE: if (am) s.probe++; break;
  }
}

int64_t value(rc::Diagnostic* c, std::string const& key) {
  int64_t out = 0;
  bool found = false;
  c->foreachDiagnostic([&](rc::detail::DiagnosticBase* d) {
    if (d->getKey() != key) return;
    found = true;
    if (auto p = dynamic_cast<rc::detail::DiagnosticValue<int64_t>*>(d)) out = p->get(0);
    else vsim_fail("type", "diagnostic %s has another type", key.c_str());
  });
  if (not found) vsim_fail("missing", "there is no diagnostic %s", key.c_str());
  return out;
}
double seconds(rc::Diagnostic* c, std::string const& key) {
  double out = 0;
  c->foreachDiagnostic([&](rc::detail::DiagnosticBase* d) {
    if (d->getKey() == key) out = dynamic_cast<rc::detail::DiagnosticValue<TimeType>*>(d)->get(0).seconds();
  });
  return out;
}
std::map<std::string, int64_t> values(rc::Diagnostic* c) {
  std::map<std::string, int64_t> m;
  c->foreachDiagnostic([&](rc::detail::DiagnosticBase* d) {
    if (auto p = dynamic_cast<rc::detail::DiagnosticValue<int64_t>*>(d)) m[d->getKey()] = p->get(0);
  });
  return m;
}

// the counters of this node against what it really did
void checkNow(char const* where) {
  auto m = values(vt::theMsg());
  auto& s = g_seen;
  auto same = [&](char const* key, int64_t want) {
    if (m[key] != want) vsim_fail("counter", "%s: %s is %lld, but node %d did %lld", where, key, (long long)m[key], me(), (long long)want);
  };
  auto gauge = [&](std::string key, Count const& c) {
    if (m[key + " [sum]"] != c.sum) vsim_fail("gauge", "%s: %s [sum] is %lld, but on node %d it was %lld", where, key.c_str(), (long long)m[key + " [sum]"], me(), (long long)c.sum);
    if (not c.n) return;
    if (m[key + " [min]"] != c.min or m[key + " [max]"] != c.max or m[key + " [avg]"] != c.sum / c.n)
      vsim_fail("gauge", "%s: %s is min %lld max %lld avg %lld, but on node %d it was %lld %lld %lld", where, key.c_str(), (long long)m[key + " [min]"], (long long)m[key + " [max]"],
        (long long)m[key + " [avg]"], me(), (long long)c.min, (long long)c.max, (long long)(c.sum / c.n));
  };
  same("AM_recv_posted", s.amPost.n); gauge("AM_recv_posted_bytes", s.amPost);
  same("DM_recv_posted", s.dmPost.n); gauge("DM_recv_posted_bytes", s.dmPost);
  same("AM_polls", s.amTest); 
  if (not g_split) {
    same("AM_sent", s.amSend.n); gauge("AM_sent_bytes", s.amSend);
    same("DM_sent", s.dmSend.n); gauge("DM_sent_bytes", s.dmSend);
    same("AM_recv", s.amRecv.n); gauge("AM_recv_bytes", s.amRecv);
    same("DM_recv", s.dmRecv.n); gauge("DM_recv_bytes", s.dmRecv);
    same("DM_polls", s.dmTest);
    same("bcasts_sent", s.bcast);
    same("TD_recv", s.tdRecv);
  } else {
    if (m["AM_sent"] < s.amSend.n or m["AM_recv"] < s.amRecv.n) vsim_fail("counter", "%s: node %d counts %lld messages sent and %lld received, but had %lld and %lld", where, me(),
      (long long)m["AM_sent"], (long long)m["AM_recv"], (long long)s.amSend.n, (long long)s.amRecv.n);
    if (m["DM_sent_bytes [sum]"] != s.dmSend.sum) vsim_fail("gauge", "%s: node %d counts %lld bytes of data sent, but sent %lld", where, me(), (long long)m["DM_sent_bytes [sum]"], (long long)s.dmSend.sum);
  }
  same("TD_sent", s.tdSend);
  if (m["AM_handlers"] + m["AM_forwarded"] > m["AM_recv"]) vsim_fail("counter", "%s: node %d counts %lld messages handled and %lld forwarded, but only %lld received", where, me(),
    (long long)m["AM_handlers"], (long long)m["AM_forwarded"], (long long)m["AM_recv"]);
  if (m["AM_handlers"] + m["AM_forwarded"] + s.dmPost.n < s.amRecv.n) vsim_fail("counter", "%s: node %d counts %lld messages handled and %lld forwarded, but %lld were received", where, me(),
    (long long)m["AM_handlers"], (long long)m["AM_forwarded"], (long long)m["AM_recv"]);
  auto p = value(vt::theSched(), "num_progress");
  if (p != s.probe and p != s.probe - 1) vsim_fail("counter", "%s: num_progress is %lld, but node %d made %lld progress calls", where, (long long)p, me(), (long long)s.probe);
  vsim_probe("counters checked");
}

// ---- scheduler times, measured beside the runtime
struct Span { double sum = 0; int64_t n = 0; double from = 0; int depth = 0;
  double now() { return vt::timing::getCurrentTime().seconds(); }
  void begin() { if (depth++ == 0) from = now(); }
  void end() { if (depth == 0) return; if (--depth == 0) { sum += now() - from; n++; } } };
Span g_loop, g_idle;
double g_loop0, g_idle0;

void checkTimes(char const* where) {
  auto cmp = [&](char const* key, Span& s, double base) {
    auto got = seconds(vt::theSched(), key) - base;
    auto tol = 1e-6 * (double)(s.n + 1) + 1e-6 * std::abs(s.sum);
    if (std::abs(got - s.sum) > tol) vsim_fail("timer", "%s: %s of node %d is %.9f s more than before, but it was %.9f s in %lld periods", where, key, me(), got, s.sum, (long long)s.n);
    if (s.n) vsim_probe("times checked");
  };
  if (g_loop.depth == 0) cmp("sched_loop [sum]", g_loop, g_loop0);
  if (g_idle.depth == 0) cmp("idle_time [sum]", g_idle, g_idle0);
}

// ---- traffic
struct Msg : vt::Message { uint64_t key = 0; int hops = 0; };
struct Pay : vt::PayloadMessage { uint64_t key = 0; };
template <std::size_t N> struct Fat : vt::Message { uint64_t key = 0; uint8_t b[N]; };
void hit() { S().outstanding--; S().ran++; checkNow("in a handler"); vsim_touch(); }
void act(Rng& g, int hops);
void hMsg(Msg* m) { hit(); Rng g(vsim_hash("h", m->key * 64 + (uint64_t)me())); if (m->hops > 0) act(g, m->hops - 1); }
void hBc(Msg*) { hit(); }
void hFat(Fat<3000>*) { hit(); }
void hPay(Pay* m) { (void)m; hit(); }
void hVec(std::vector<int>) { hit(); }
struct Obj { void on(Msg*) { hit(); } void vec(std::vector<int>) { hit(); } };
vt::objgroup::proxy::Proxy<Obj> g_obj;
vt::GroupType g_group = vt::no_group;
int g_members = 0;
int g_depth = 0;

// ---- the program's meters
struct Open : rc::Diagnostic {
  template <class T> static rc::meter::Counter<T> counter(rc::Diagnostic* d, std::string k) { return (d->*(&Open::registerCounterT<T>))(k, "a counter", rc::DiagnosticUnit::Units); }
  template <class T> static rc::meter::Gauge<T> gauge(rc::Diagnostic* d, std::string k) { return (d->*(&Open::registerGaugeT<T>))(k, "a gauge", rc::DiagnosticUnit::Units); }
  template <class T> static rc::meter::Timer<T> timer(rc::Diagnostic* d, std::string k) { return (d->*(&Open::registerTimerT<T>))(k, "a timer", rc::DiagnosticUnit::Seconds); }
};
struct Meter { rc::meter::Counter<int64_t> ci; rc::meter::Counter<double> cd; rc::meter::Gauge<int64_t> gi; rc::meter::Gauge<double> gd; rc::meter::Timer<TimeType> t; };
std::vector<Meter> g_meters;

void meterUp(Rng& g, int i) {
  auto& s = S().series[(std::size_t)i];
  auto& mine = s.v[(std::size_t)me()];
  auto& m = g_meters[(std::size_t)i];
  auto one = [&] {
    double v = s.type == 'i' ? (double)g.range(-30, 1000) : (double)g.range(-3000, 100000) / 16.;
    if (s.kind == 't') v = (double)g.range(0, 1000) / 16.;
    if (g.chance(2)) v = s.type == 'i' ? (double)g.range(0, 1ll << 40) : v * 1e6;
    if (s.kind == 'c') {
      if (v < 0) { if (s.type == 'i') m.ci.decrement((int64_t)-v); else m.cd.decrement(-v); }
      else if (v == 1) m.ci.increment();
      else if (s.type == 'i') m.ci.increment((int64_t)v); else m.cd.increment(v);
    } else if (s.kind == 'g') { if (s.type == 'i') m.gi.update((int64_t)v); else m.gd.update(v); }
    else { auto b = (double)g.range(0, 100); m.t.update(TimeType{b}, TimeType{b + v}); }
    mine.push_back(v);
  };
  if (g.chance(3)) { vsim_probe("many updates"); for (auto k = g.range(30000, 70000); k > 0; k--) one(); }
  else for (auto k = g.range(1, 6); k > 0; k--) one();
}
bool meterOn(int i) { return vsim_hash("meter on", (uint64_t)(i * 64 + me())) % 3 != 0; }

void act(Rng& g, int hops) {
  auto& o = S();
  auto to = (NodeType)g.range(0, nn() - 1);
  auto key = (uint64_t)++o.sent;
  switch (g.range(0, 9)) {
  case 0: case 1: { auto m = vt::makeMessage<Msg>(); m->key = key; m->hops = hops; o.outstanding++; vt::theMsg()->sendMsg<hMsg>(to, m); break; }
  case 2: { auto m = vt::makeMessage<Msg>(); m->key = key; o.outstanding += nn(); vt::theMsg()->broadcastMsg<hBc>(m); vsim_probe("broadcast"); break; }
  case 3: { auto m = vt::makeMessage<Fat<3000>>(); o.outstanding++; vt::theMsg()->sendMsg<hFat>(to, m); break; }
  case 4: {
    static std::vector<uint8_t> data(20000, 7);
    if (to == me()) break;
    auto n = g.chance(50) ? g.range(1, 400) : g.range(600, 20000);
    auto m = vt::makeMessage<Pay>(); m->key = key;
    m->setPut(reinterpret_cast<std::byte const*>(data.data()), (std::size_t)n);
    o.outstanding++; vt::theMsg()->sendMsg<hPay>(to, m); vsim_probe(n > 512 ? "payload apart" : "payload packed");
    break;
  }
  case 5: { std::vector<int> v((std::size_t)(g.chance(70) ? g.range(0, 40) : g.range(500, 5000)), 3); o.outstanding++; vt::theMsg()->send<hVec>(vt::Node{to}, v); vsim_probe("serialised"); break; }
  case 6: {
    if (g_group == vt::no_group) break;
    auto m = vt::makeMessage<Msg>(); m->key = key;
    vt::envelopeSetGroup(m->env, g_group);
    o.outstanding += g_members; vt::theMsg()->broadcastMsg<hBc>(m); vsim_probe("group broadcast");
    break;
  }
  case 7: { o.outstanding++; auto m = vt::makeMessage<Msg>(); if (g.chance(50)) g_obj[to].sendMsg<&Obj::on>(m); else g_obj[to].send<&Obj::vec>(std::vector<int>(20, 1)); break; }
  case 8: {
    if (g_depth > 1) break;
    g_depth++;
    if (g.chance(50)) { vsim_probe("nested epoch"); vt::runInEpochRooted([&] { Rng h(g.next()); act(h, 0); }); }
    else { vsim_probe("nested scheduler"); auto k = g.range(1, 10); vt::theSched()->runSchedulerWhile([&] { return k-- > 0; }); }
    g_depth--;
    checkNow("after a nested scheduler");
    break;
  }
  case 9: { auto i = (int)g.range(0, (int64_t)o.series.size() - 1); if (meterOn(i)) meterUp(g, i); break; }
  }
}

// ---- what is reported
struct Want { double total = 0, min = 0, max = 0, avg = 0, std = 0; bool any = false, valid = false, trunc = false; };
Want expect(Series const& s, DiagnosticUpdate up) {
  Want w;
  double N = 0, mean = 0;
  std::vector<std::pair<double, double>> nv;
  for (auto& v : s.v) {
    if (v.empty()) continue;
    double sum = 0, mn = v[0], mx = v[0];
    for (auto x : v) { sum += x; mn = std::min(mn, x); mx = std::max(mx, x); }
    double val = up == DiagnosticUpdate::Sum ? sum : up == DiagnosticUpdate::Min ? mn : up == DiagnosticUpdate::Max ? mx : sum / (double)v.size();
    double n = 1;
    if (up == DiagnosticUpdate::Avg) { n = (double)v.size(); if (s.type == 'i') { val = std::trunc(val); w.trunc = true; } }
    if (not w.any) { w.min = w.max = val; w.any = true; }
    w.min = std::min(w.min, val); w.max = std::max(w.max, val);
    w.total += val; N += n; mean += n * val;
    nv.push_back({n, val});
  }
  if (not w.any) return w;
  w.avg = mean / N;
  double m2 = 0;
  for (auto& p : nv) m2 += p.first * (p.second - w.avg) * (p.second - w.avg);
  w.std = std::sqrt(m2 / N);
  w.valid = up == DiagnosticUpdate::Min ? true : w.total != 0; // a sum of zero is left out
  return w;
}
double num(rc::DiagnosticErasedValue::UnionValueType const& v) {
  if (auto d = std::get_if<double>(&v)) return *d;
  if (auto i = std::get_if<int64_t>(&v)) return (double)*i;
  return std::get<TimeType>(v).seconds();
}
std::vector<std::pair<std::string, DiagnosticUpdate>> rows(Series const& s) {
  if (s.kind == 'c') return {{s.key, DiagnosticUpdate::Sum}};
  return {{s.key + " [sum]", DiagnosticUpdate::Sum}, {s.key + " [min]", DiagnosticUpdate::Min}, {s.key + " [max]", DiagnosticUpdate::Max}, {s.key + " [avg]", DiagnosticUpdate::Avg}};
}
void near(char const* what, std::string const& key, char const* col, double got, double want, double tol) {
  if (not (std::abs(got - want) <= tol + 1e-7 * std::abs(want)))
    vsim_fail("report", "%s: %s of %s is %.6f, but over all nodes it is %.6f", what, col, key.c_str(), got, want);
}

void reduceCheck(char const* what) {
  std::map<std::string, std::unique_ptr<rc::DiagnosticErasedValue>> out;
  meet((std::string(what) + " ready").c_str());
  vt::runInEpochCollective([&] {
    vt::theMsg()->foreachDiagnostic([&](rc::detail::DiagnosticBase* d) {
      if (d->getKey().compare(0, 3, "my_")) return;
      auto& o = out[d->getKey()];
      o = std::make_unique<rc::DiagnosticErasedValue>();
      d->reduceOver(vt::theMsg(), o.get(), 0);
    });
  });
  if (me() == 0) for (auto& s : S().series) for (auto& r : rows(s)) {
    auto w = expect(s, r.second);
    auto it = out.find(r.first);
    if (it == out.end()) vsim_fail("report", "%s: no value of %s", what, r.first.c_str());
    auto& o = *it->second;
    double big = std::max(std::abs(w.min), std::abs(w.max));
    near(what, r.first, "the total", num(o.sum_), w.total, 1e-6 * (1 + big));
    near(what, r.first, "the minimum", num(o.min_), w.min, 1e-6 * (1 + big));
    near(what, r.first, "the maximum", num(o.max_), w.max, 1e-6 * (1 + big));
    near(what, r.first, "the mean", o.avg_, w.avg, 1e-6 * (1 + big));
    near(what, r.first, "the deviation", o.std_, w.std, 1e-5 * (1 + big));
    if (o.is_valid_value_ != w.valid) vsim_fail("report", "%s: %s is %svalid", what, r.first.c_str(), o.is_valid_value_ ? "" : "not ");
    if (o.hist_.getCount() != nn()) vsim_fail("report", "%s: the histogram of %s has %lld values on %d nodes", what, r.first.c_str(), (long long)o.hist_.getCount(), nn());
    if (o.hist_.getMax() > std::max(w.max, 0.) + 1e-6 * (1 + big) or o.hist_.getMin() < std::min(w.min, 0.) - 1e-6 * (1 + big))
      vsim_fail("report", "%s: the histogram of %s is from %g to %g, its values from %g to %g", what, r.first.c_str(), o.hist_.getMin(), o.hist_.getMax(), w.min, w.max);
    vsim_probe(w.any ? "reduced value" : "reduced value without updates");
  }
  meet((std::string(what) + " checked").c_str());
}

bool number(std::string const& s, double& v) { char* e = nullptr; v = strtod(s.c_str(), &e); return not s.empty() and *e == 0 and std::isfinite(v); }

void readCsv() {
  std::ifstream f("diag.csv");
  std::string line;
  if (not std::getline(f, line) or line.compare(0, 9, "Component")) vsim_fail("csv", "the summary has no header: %s", line.c_str());
  std::map<std::string, std::vector<std::string>> got;
  while (std::getline(f, line)) {
    std::vector<std::string> c;
    std::stringstream ss(line);
    std::string x;
    while (std::getline(ss, x, ',')) c.push_back(x);
    if (c.size() != 10) vsim_fail("csv", "a row has %zu fields: %s", c.size(), line.c_str());
    if (not got.insert({c[0] + "." + c[1], c}).second) vsim_fail("csv", "two rows of %s", c[1].c_str());
    int64_t h = 0;
    { std::stringstream hs(c[9].substr(1)); std::string y; while (std::getline(hs, y, ';')) h += atoll(y.c_str()); }
    if (h != nn()) vsim_fail("csv", "the histogram %s of %s has %lld values on %d nodes", c[9].c_str(), c[1].c_str(), (long long)h, nn());
    double total = 0, mean, mn, mx, sd;
    bool sum = c[3] == "SUM";
    if (not g_base) {
      for (int i = sum ? 4 : 5; i < 9; i++) if (c[(std::size_t)i].empty() or not strchr("0123456789.- ", c[(std::size_t)i][0])) vsim_fail("csv", "a value is missing: %s", line.c_str());
      continue;
    }
    if ((sum and not number(c[4], total)) or not number(c[5], mean) or not number(c[6], mn) or not number(c[7], mx) or not number(c[8], sd))
      vsim_fail("csv", "a value is missing: %s", line.c_str());
    if (mn > mx or mean < mn - 0.06 or mean > mx + 0.06 or sd < 0) vsim_fail("csv", "values do not go together: %s", line.c_str());
  }
  for (auto& s : S().series) for (auto& r : rows(s)) {
    auto w = expect(s, r.second);
    auto it = got.find("ActiveMessenger." + r.first);
    bool want = w.valid or r.second == DiagnosticUpdate::Sum;
    if (want != (it != got.end())) vsim_fail("csv", "%s is %sreported", r.first.c_str(), want ? "not " : "");
    if (not want) continue;
    auto& c = it->second;
    auto name = r.second == DiagnosticUpdate::Sum ? "SUM" : r.second == DiagnosticUpdate::Min ? "MIN" : r.second == DiagnosticUpdate::Max ? "MAX" : "MEAN";
    if (c[3] != name) vsim_fail("csv", "%s is reported as %s", r.first.c_str(), c[3].c_str());
    if (not g_base) continue;
    double v;
    if (name[0] == 'S') { number(c[4], v); near("summary", r.first, "the total", v, w.total, 0.06); }
    number(c[5], v); near("summary", r.first, "the mean", v, w.avg, 0.06);
    number(c[6], v); near("summary", r.first, "the minimum", v, w.min, 0.06);
    number(c[7], v); near("summary", r.first, "the maximum", v, w.max, 0.06);
    number(c[8], v); near("summary", r.first, "the deviation", v, w.std, 0.06 + 1e-5 * std::max(std::abs(w.min), std::abs(w.max)));
    vsim_probe("summary row");
  }
  // what the runtime counts went on until the report was made
  if (g_base) for (auto& b : S().before) {
    auto it = got.find("ActiveMessenger." + b.first);
    if (it == got.end()) vsim_fail("csv", "%s is not reported", b.first.c_str());
    double v;
    number(it->second[4], v);
    if (v < (double)b.second or (S().after.count(b.first) and v > (double)S().after[b.first]))
      vsim_fail("csv", "%s is reported as %.0f, but it was %lld before and %lld after the report", b.first.c_str(), v, (long long)b.second, (long long)S().after[b.first]);
    vsim_probe("summary of a counter");
  }
}

} // namespace

WL_ENTRY {
  std::string mode = mode_c;
  Rng c("diag", 0);
  auto rounds = (int)vsim_param("rounds", 1, 3), msgs = (int)vsim_param("messages", 0, 15), hops = (int)vsim_param("hops", 0, 3);
  bool csv = c.chance(70);
  g_base = c.chance(80);
  std::vector<std::string> extra;
  if (csv) { extra.push_back("--vt_diag_summary_csv_file=diag.csv"); if (g_base) extra.push_back("--vt_diag_csv_base_units"); }
  vsim_mpi_observe(observe);
  auto fl = c.chance(70) ? (unsigned)kNoSplit : 0u;
  init(fl, extra);
  g_split = vt::theConfig()->vt_max_mpi_send_size < 100000;
  vt::theTerm()->produce();
  auto& o = S();
  if (o.series.empty()) {
    char const* kinds[] = {"ci", "cd", "gi", "gd", "tt", "ci", "gi"};
    for (int i = 0; i < 7; i++) {
      o.series.push_back({kinds[i][0], kinds[i][1], std::string("my_") + kinds[i] + std::to_string(i), {}});
      o.series.back().v.resize((std::size_t)nn());
    }
  }
  g_meters.resize(o.series.size());
  for (std::size_t i = 0; i < o.series.size(); i++) {
    auto& s = o.series[i];
    auto& m = g_meters[i];
    if (s.kind == 'c' and s.type == 'i') m.ci = Open::counter<int64_t>(vt::theMsg(), s.key);
    if (s.kind == 'c' and s.type == 'd') m.cd = Open::counter<double>(vt::theMsg(), s.key);
    if (s.kind == 'g' and s.type == 'i') m.gi = Open::gauge<int64_t>(vt::theMsg(), s.key);
    if (s.kind == 'g' and s.type == 'd') m.gd = Open::gauge<double>(vt::theMsg(), s.key);
    if (s.kind == 't') m.t = Open::timer<TimeType>(vt::theMsg(), s.key);
  }
  checkNow("after start-up");
  using ES = vt::sched::SchedulerEvent;
  g_loop0 = seconds(vt::theSched(), "sched_loop [sum]");
  g_idle0 = seconds(vt::theSched(), "idle_time [sum]");
  vt::theSched()->registerTrigger(ES::BeginSchedulerLoop, [] { g_loop.begin(); });
  vt::theSched()->registerTrigger(ES::EndSchedulerLoop, [] { g_loop.end(); });
  vt::theSched()->registerTrigger(ES::BeginIdle, [] { g_idle.begin(); });
  vt::theSched()->registerTrigger(ES::EndIdle, [] { g_idle.end(); });
  g_obj = vt::theObjGroup()->makeCollective<Obj>("obj");
  if (nn() > 2 and c.chance(60)) {
    // every other node, made on one node and known to all
    struct G { vt::GroupType g = vt::no_group; };
    auto& sg = shared<G>("the group");
    std::vector<NodeType> ns;
    for (int i = 0; i < nn(); i += 2) ns.push_back((NodeType)i);
    g_members = (int)ns.size();
    if (me() == 0) {
      auto l = std::make_unique<vt::group::region::List>(ns);
      vt::theGroup()->newGroup(std::move(l), [&](vt::GroupType g) { sg.g = g; vsim_touch(); });
    }
    pumpUntil([&] { return sg.g != vt::no_group; });
    meet("group");
    g_group = sg.g;
  }
  for (int r = 0; r < rounds; r++) {
    for (int i = 0; i < msgs; i++) {
      auto op = (uint64_t)((r * 40 + i) * 16 + me());
      if (not vsim_op_on(op)) continue;
      Rng g("act", op);
      act(g, hops);
      if (g.chance(30)) { auto n = (int)g.range(1, 5); while (n--) vt::theSched()->runSchedulerOnceImpl(); }
      checkNow("in the program");
      checkTimes("in the program");
    }
    meet(("sent" + std::to_string(r)).c_str());
    pumpUntil([&] { return o.outstanding == 0; });
    checkNow("after a round");
    checkTimes("after a round");
    auto what = "round " + std::to_string(r);
    reduceCheck(what.c_str());
  }
  meet("done");
  for (auto& v : values(vt::theMsg())) if (v.first.compare(0, 3, "my_") and v.first.find('[') == std::string::npos) o.before[v.first] += v.second;
  meet("counted");
  vt::theTerm()->consume();
  vt::finalize();
  auto& a = o.after;
  if (not g_split) { a["AM_sent"] += g_seen.amSend.n; a["AM_recv"] += g_seen.amRecv.n; a["DM_sent"] += g_seen.dmSend.n; a["TD_sent"] += g_seen.tdSend; a["bcasts_sent"] += g_seen.bcast; }
  a["AM_recv_posted"] += g_seen.amPost.n; a["AM_polls"] += g_seen.amTest;
  struct End { int n = 0; };
  auto& e = shared<End>("end");
  e.n++;
  vsim_touch();
  if (me() == 0 and csv) { while (e.n < nn()) vsim_yield(); readCsv(); }
  vsim_done();
}
