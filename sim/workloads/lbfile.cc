// C15: LB data files.  A first run of the program writes the files, on a disk
// with short transfers, errors or a crash.  A second run of the runtime reads
// them.  Mode file: what is read equals what was recorded.  Mode damaged: the
// files are cut or writing them failed; reading reports it or gives only
// recorded data.  Mode offline: OfflineLB reproduces the recorded placement, or
// a placement computed elsewhere. Mode replay: the replay of the files under
// another balancer keeps all objects and their loads.
#include "wl.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <nlohmann/json.hpp>
#include <vt/vrt/collection/balance/lb_data_holder.h>
#include <vt/vrt/collection/balance/lb_data_restart_reader.h>
#include <vt/vrt/collection/balance/lb_invoke/lb_manager.h>
#include <vt/vrt/collection/balance/workload_replay.h>
#include <vt/vrt/collection/balance/stats_msg.h>
#include <vt/utils/json/json_appender.h>
#include <vt/utils/json/json_reader.h>
#include <vt/utils/json/decompression_input_container.h>
#include <vt/utils/json/input_iterator.h>

using namespace wl;
using vt::NodeType;
namespace bal = vt::vrt::collection::balance;
using json = nlohmann::json;
using Holder = bal::LBDataHolder;

namespace {

std::string mode;
bool first = true;                       // the run that writes the files

// ---- what was recorded at this node, as it was when it was written
struct Task { double load = 0; std::vector<double> sub; std::vector<uint64_t> idx; uint64_t proxy = 0; bool isCol = false; std::map<std::string, std::string> user, attr; };
struct Phase { std::map<uint64_t, Task> tasks; vt::elm::CommMapType comm; std::string user; };
struct File { std::map<uint64_t, Phase> phases; std::set<uint64_t> order; };
struct Elem { int col, idx; uint64_t id = 0; };
struct State {
  std::map<int, File> files;                                   // node -> what its file holds
  std::map<std::pair<uint64_t, uint64_t>, int> place;          // phase, element -> node, as recorded or computed
  std::map<uint64_t, std::pair<int, int>> names;               // element -> collection and index
  int64_t outstanding = 0;
  std::map<uint64_t, std::vector<std::pair<uint64_t, int>>> seen;
  int stats = 0;
};
State& S() { return shared<State>("lbfile"); }
int pairs(int k) { static int n = 0; return n += k; }

// values as text, numbers exactly
std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string text(bal::ElmUserDataType::mapped_type const& v) {
  if (std::holds_alternative<int>(v)) return num((double)std::get<int>(v));
  if (std::holds_alternative<double>(v)) return num(std::get<double>(v));
  return "\"" + std::get<std::string>(v);
}

std::string list(std::map<std::string, std::string> const& m) { std::string r; for (auto& e : m) r += " " + e.first + "=" + e.second.substr(0, 30); return r; }

template <class I> struct Ix;
template <> struct Ix<vt::Index1D> { static vt::Index1D mk(int i) { return vt::Index1D(i); } static int lin(vt::Index1D const& x) { return (int)x.x(); } static vt::Index1D bounds(int n) { return vt::Index1D(n); } static std::vector<uint64_t> vec(int i) { return {(uint64_t)i}; } };
template <> struct Ix<vt::Index2D> { static vt::Index2D mk(int i) { return vt::Index2D(i / 3, i % 3); } static int lin(vt::Index2D const& x) { return (int)(x.x() * 3 + x.y()); } static vt::Index2D bounds(int n) { return vt::Index2D(n / 3, 3); } static std::vector<uint64_t> vec(int i) { return {(uint64_t)(i / 3), (uint64_t)(i % 3)}; } };

struct Col { int n = 0; bool two = false; vt::VirtualProxyType proxy = 0; };
std::vector<Col> g_cols;
vt::objgroup::proxy::Proxy<struct Obj> g_obj;
bool g_udata = false, g_big = false;
void sendAny(int col, int idx, uint64_t key, int hops);

template <class I>
struct Elm : vt::Collection<Elm<I>, I> {
  int sub = 0, runs = 0;
  template <class Z> void serialize(Z& s) { vt::Collection<Elm<I>, I>::serialize(s); s | sub | runs; }
  void work(uint64_t key, int hops) {
    Rng g(key);
    auto& o = S();
    vsim_advance((uint64_t)g.range(1, 30) * (uint64_t)g.range(1, 9000));
    runs++;
    if (g_udata and first) {
      // what the user attaches goes into the file as well
      this->valInsert("number", (int)(key % 100000), true, false, g.chance(50));
      this->valInsert("real", (double)(key % 1000003) / 7., g.chance(50), true, g.chance(50));
      this->valInsert("text", std::string("t\"\\\n{[") + std::to_string(key), g.chance(50), false, true);
      if (g_big and g.chance(30)) this->valInsert("big", std::string((std::size_t)g.range(1, 60000), (char)('a' + key % 26)), true, false, false);
    }
    if (hops > 0) { auto c = (int)g.range(0, (int64_t)g_cols.size() - 1); sendAny(c, (int)g.range(0, g_cols[(std::size_t)c].n - 1), g.next(), hops - 1); }
    o.outstanding--;
    vsim_touch();
  }
  void subphase(int s) { this->getLBData().setSubPhase((vt::SubphaseType)s); S().outstanding--; vsim_touch(); }
};
struct Obj {
  struct Msg : vt::Message { uint64_t key = 0; int hops = 0; };
  void work(Msg* m) {
    Rng g(m->key);
    vsim_advance((uint64_t)g.range(1, 20) * 3333);
    if (m->hops > 0) { auto c = (int)g.range(0, (int64_t)g_cols.size() - 1); sendAny(c, (int)g.range(0, g_cols[(std::size_t)c].n - 1), g.next(), m->hops - 1); }
    S().outstanding--;
    vsim_touch();
  }
};
template <class I> void sendTo(int col, int idx, uint64_t key, int hops) {
  vt::CollectionProxy<Elm<I>, I> p{g_cols[(std::size_t)col].proxy};
  p(Ix<I>::mk(idx)).template send<&Elm<I>::work>(key, hops);
}
void sendAny(int col, int idx, uint64_t key, int hops) {
  S().outstanding++;
  if (g_cols[(std::size_t)col].two) sendTo<vt::Index2D>(col, idx, key, hops); else sendTo<vt::Index1D>(col, idx, key, hops);
}
template <class I> NodeType cyclic(I* idx, I*, NodeType n) { return (NodeType)(Ix<I>::lin(*idx) % n); }
template <class I> NodeType oneMap(I*, I*, NodeType n) { return (NodeType)(n - 1); }
template <class I> void makeCol(int c) {
  Rng g("collection", (uint64_t)c);
  Col d;
  d.two = not std::is_same_v<I, vt::Index1D>;
  d.n = d.two ? 3 * (int)g.range(1, 5) : (int)g.range(1, 16);
  auto q = vt::makeCollection<Elm<I>>("col");
  q.bounds(Ix<I>::bounds(d.n)).bulkInsert();
  auto mapper = g.range(0, 2);
  if (mapper == 1) q.template mapperFunc<cyclic<I>>(); else if (mapper == 2) q.template mapperFunc<oneMap<I>>();
  d.proxy = q.wait().getProxy();
  g_cols.push_back(d);
}
std::string key(char const* what, int i) { return std::string(what) + (first ? "/1/" : "/2/") + std::to_string(i); }
// where the elements are now
template <class I> void localOf(int c, std::vector<std::pair<uint64_t, int>>& out) {
  vt::CollectionProxy<Elm<I>, I> p{g_cols[(std::size_t)c].proxy};
  for (auto& i : vt::theCollection()->getLocalIndices<Elm<I>>(p)) out.push_back({p(i).tryGetLocalPtr()->getElmID().id, Ix<I>::lin(i)});
}
template <class F> void local(F f) {
  for (std::size_t c = 0; c < g_cols.size(); c++) {
    std::vector<std::pair<uint64_t, int>> v;
    if (g_cols[c].two) localOf<vt::Index2D>((int)c, v); else localOf<vt::Index1D>((int)c, v);
    for (auto& x : v) f(x.first, (int)c, x.second);
  }
}
std::string nameOf(uint64_t id) {
  auto it = S().names.find(id);
  char b[90];
  if (it == S().names.end()) snprintf(b, sizeof b, "object %llx", (unsigned long long)id);
  else snprintf(b, sizeof b, "element %d of collection %d", it->second.second, it->second.first);
  return b;
}

void capture(uint64_t ph) {
  auto* h = vt::theNodeLBData()->getLBData();
  auto p = (vt::PhaseType)ph;
  auto& out = S().files[me()].phases[ph];
  auto nd = h->node_data_.find(p);
  if (nd != h->node_data_.end()) for (auto& kv : nd->second) {
    auto& t = out.tasks[kv.first.id];
    t.load = kv.second.whole_phase_load;
    for (auto x : kv.second.subphase_loads) t.sub.push_back(x);
    auto ix = h->node_idx_.find(kv.first);
    if (ix != h->node_idx_.end()) { t.isCol = true; t.proxy = std::get<0>(ix->second); t.idx = std::get<1>(ix->second); }
    auto uj = h->user_defined_json_.find(p);
    if (uj != h->user_defined_json_.end() and uj->second.count(kv.first))
      for (auto& e : uj->second.at(kv.first)->items()) t.user[e.key()] = e.value().is_string() ? "\"" + e.value().get<std::string>() : num(e.value().get<double>());
    auto ua = h->node_user_attributes_.find(p);
    if (ua != h->node_user_attributes_.end() and ua->second.count(kv.first))
      for (auto& e : ua->second.at(kv.first)) t.attr[e.first] = text(e.second);
  }
  auto nc = h->node_comm_.find(p);
  if (nc != h->node_comm_.end()) out.comm = nc->second;
  auto up = h->user_per_phase_json_.find(p);
  if (up != h->user_per_phase_json_.end()) out.user = up->second->dump();
}

// One program, the same in both runs but for the work it has.
void program(int phases, int msgs, bool record, std::function<void(int)> const& begin) {
  auto& o = S();
  g_cols.clear();
  Rng c("grow", 0);
  int ncols = (int)vsim_param("collections", 1, 3);
  for (int i = 0; i < ncols; i++) if (c.chance(35)) makeCol<vt::Index2D>(i); else makeCol<vt::Index1D>(i);
  g_obj = vt::theObjGroup()->makeCollective<Obj>("obj");
  g_udata = c.chance(50);
  g_big = c.chance(25);
  meet(key("made", 0).c_str());
  for (int ph = 0; ph < phases; ph++) {
    Rng pc("phase", (uint64_t)ph);
    local([&](uint64_t id, int col, int idx) {
      if (first) o.names[id] = {col, idx};
      if (record) o.place[{(uint64_t)ph, id}] = me();
      else o.seen[(uint64_t)ph].push_back({id, me()});
    });
    meet(key("placed", ph).c_str());
    begin(ph);
    int subs = first and pc.chance(40) ? 3 : 1;
    for (int sp = 0; sp < subs; sp++) {
      if (subs > 1) {
        local([&](uint64_t, int col, int idx) {
          o.outstanding++;
          if (g_cols[(std::size_t)col].two) vt::CollectionProxy<Elm<vt::Index2D>, vt::Index2D>{g_cols[(std::size_t)col].proxy}(Ix<vt::Index2D>::mk(idx)).template send<&Elm<vt::Index2D>::subphase>(sp);
          else vt::CollectionProxy<Elm<vt::Index1D>, vt::Index1D>{g_cols[(std::size_t)col].proxy}(vt::Index1D(idx)).template send<&Elm<vt::Index1D>::subphase>(sp);
        });
        meet(key("sub", ph * 10 + sp).c_str());
        pumpUntil([&] { return o.outstanding == 0; });
        meet(key("subbed", ph * 10 + sp).c_str());
      }
      for (int i = 0; i < msgs; i++) {
        auto op = (uint64_t)(((ph * 3 + sp) * 40 + i) * 10 + me());
        if (not vsim_op_on(op)) continue;
        Rng g("work", op);
        auto k = (int)g.range(0, ncols - 1);
        auto hops = (int)g.range(0, 3);
        if (g.chance(20)) {
          auto m = vt::makeMessage<Obj::Msg>();
          m->key = g.next(); m->hops = hops;
          o.outstanding++;
          g_obj[(NodeType)g.range(0, nn() - 1)].send<Obj::Msg, &Obj::work>(m);
        } else sendAny(k, (int)g.range(0, g_cols[(std::size_t)k].n - 1), g.next(), hops);
      }
      meet(key("sent", ph * 10 + sp).c_str());
      pumpUntil([&] { return o.outstanding == 0; });
      meet(key("done", ph * 10 + sp).c_str());
    }
    if (first and pc.chance(30)) {
      vt::thePhase()->addUserDefinedData((vt::PhaseType)ph, "phase", ph);
      vt::thePhase()->addUserDefinedData((vt::PhaseType)ph, "node", std::string("n") + std::to_string(me()));
      vsim_probe("data of a phase");
    }
    meet(key("end", ph).c_str());
    vt::thePhase()->nextPhaseCollective();
    if (record) capture((uint64_t)ph);
    meet(key("next", ph).c_str());
  }
}

// ---- judging what was read
void judge(Holder const& h, int node, bool all, char const* how, bool noUser = false) {
  auto& f = S().files[node];
  auto say = [&](char const* cls, uint64_t ph, std::string const& what) { vsim_fail(cls, "the file of node %d, read %s, phase %llu: %s", node, how, (unsigned long long)ph, what.c_str()); };
  for (auto& kv : h.node_data_) {
    auto ph = (uint64_t)kv.first;
    auto it = f.phases.find(ph);
    if (it == f.phases.end()) say("phase-extra", ph, "was not recorded");
    auto& want = it->second;
    for (auto& t : kv.second) {
      auto id = t.first.id;
      if (id == vt::elm::no_element_id) continue;              // the initial task
      auto w = want.tasks.find(id);
      if (w == want.tasks.end()) say("object-extra", ph, nameOf(id) + " was not recorded");
      if (t.second.whole_phase_load != w->second.load) say("load", ph, nameOf(id) + " has load " + num(t.second.whole_phase_load) + ", recorded was " + num(w->second.load));
      if (t.second.subphase_loads.size() != w->second.sub.size()) say("load-subphase", ph, nameOf(id) + " has " + std::to_string(t.second.subphase_loads.size()) + " subphases, recorded were " + std::to_string(w->second.sub.size()));
      for (std::size_t i = 0; i < w->second.sub.size(); i++) if ((double)t.second.subphase_loads[i] != w->second.sub[i]) say("load-subphase", ph, nameOf(id) + " has another load in a subphase");
      if (w->second.isCol) {
        auto ix = h.node_idx_.find(t.first);
        if (ix == h.node_idx_.end()) say("index", ph, nameOf(id) + " has no index");
        if ((uint64_t)std::get<0>(ix->second) != w->second.proxy or std::get<1>(ix->second) != w->second.idx) say("index", ph, nameOf(id) + " has another index");
      }
      std::map<std::string, std::string> user, attr;
      auto u = h.user_defined_lb_info_.find(kv.first);
      if (u != h.user_defined_lb_info_.end() and u->second.count(t.first)) for (auto& e : u->second.at(t.first)) user[e.first] = text(e.second);
      auto a = h.node_user_attributes_.find(kv.first);
      if (a != h.node_user_attributes_.end() and a->second.count(t.first)) for (auto& e : a->second.at(t.first)) attr[e.first] = text(e.second);
      if (not noUser and user != w->second.user) say("user-data", ph, nameOf(id) + " has other user-defined data: " + list(user) + ", recorded was " + list(w->second.user));
      if (attr != w->second.attr) say("user-data", ph, nameOf(id) + " has other attributes");
      if (not user.empty()) vsim_probe("user data");
      if (not attr.empty()) vsim_probe("attributes");
    }
    if (all or true) for (auto& w : want.tasks) if (not kv.second.count(vt::elm::ElementIDStruct{w.first, (NodeType)node})) say("object-lost", ph, nameOf(w.first) + " is missing");
    auto ci = h.node_comm_.find(kv.first);
    if (ci == h.node_comm_.end()) say("comm", ph, "no communication");
    for (auto& c : ci->second) {
      auto w = want.comm.find(c.first);
      if (w == want.comm.end()) say("comm-extra", ph, "communication that was not recorded");
      if (w->second.bytes != c.second.bytes or w->second.messages != c.second.messages) say("comm", ph, "another volume of communication");
    }
    if (ci->second.size() != want.comm.size()) say("comm-lost", ph, std::to_string(want.comm.size()) + " kinds of communication were recorded, " + std::to_string(ci->second.size()) + " are left");
    pairs((int)ci->second.size());
    auto up = h.user_per_phase_json_.find(kv.first);
    std::string got = up == h.user_per_phase_json_.end() ? "" : up->second->dump();
    if (got != want.user) say("user-data", ph, "the data of the phase is '" + got + "', recorded was '" + want.user + "'");
    vsim_probe("phase read");
  }
  if (all) for (auto& w : f.phases) if (not h.node_data_.count((vt::PhaseType)w.first)) say("phase-lost", w.first, "is missing");
}
std::string fileOf(int node) { return "lbdata/data." + std::to_string(node) + ".json"; }
bool exists(std::string const& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
std::string actual(int node) { auto f = fileOf(node); return exists(f + ".br") ? f + ".br" : f; }
bool compressed(int node) { return exists(fileOf(node) + ".br"); }

// all the ways of reading a file
json parse(std::string const& f, bool br, Rng& g, std::string& how) {
  using vt::util::json::DecompressionInputContainer;
  auto k = g.range(0, 3);
  if (not br or k <= 1) { how = "whole"; vt::util::json::Reader r{f}; return *r.readFile(); }
  auto chunk = (std::size_t)(g.chance(30) ? g.range(1, 8) : g.chance(50) ? g.range(1, 400) : g.range(1, 70000));
  how = "in pieces of " + std::to_string(chunk);
  if (g.chance(40)) {
    // pieces of which only one byte is left at the end
    DecompressionInputContainer whole(f);
    std::size_t n = 0;
    for (auto i = begin(whole); i != end(whole); ++i) n++;
    if (n > 2) { auto d = (std::size_t)g.range(2, 50); for (; d < n - 1; d++) if ((n - 1) % d == 0) { chunk = d; break; } how = "in pieces of " + std::to_string(chunk) + " of " + std::to_string(n); }
    vsim_probe("one byte left");
  }
  if (k == 2) { vsim_probe("pieces"); DecompressionInputContainer c(f, chunk); return json::parse(c); }
  vsim_probe("stream");
  std::ifstream is(f, std::ios::binary);
  std::stringstream ss{std::ios_base::out | std::ios_base::in | std::ios::binary};
  ss << is.rdbuf();
  DecompressionInputContainer c(DecompressionInputContainer::AnyStreamTag{}, std::move(ss), chunk);
  return json::parse(c);
}

// the first run
std::vector<std::string> writeOptions() {
  Rng g("write", 0);
  std::vector<std::string> a = {"--vt_lb_data", "--vt_lb_data_dir=lbdata", "--vt_lb_data_file=data.%p.json"};
  a.push_back(g.chance(60) ? "--vt_lb_data_compress=true" : "--vt_lb_data_compress=false");
  auto k = g.range(0, 5);
  if (mode == "damaged") k = g.range(0, 6);
  char const* nm[] = {"RotateLB", "RandomLB", "GreedyLB", "TemperedLB", "HierarchicalLB"};
  if (k < 5) {
    a.push_back("--vt_lb"); a.push_back("--vt_lb_quiet");
    a.push_back(std::string("--vt_lb_name=") + nm[k]);
    a.push_back("--vt_lb_interval=" + std::to_string(g.range(1, 2)));
    if (g.chance(50)) a.push_back("--vt_lb_run_lb_first_phase");
    if (k == 1) a.push_back("--vt_lb_args=randomize_seed=false");
  }
  return a;
}

[[noreturn]] void died() { vsim_probe("reported by ending"); vsim_pass(); }
void start(std::vector<std::string> extra) {
  static std::deque<std::vector<char>> store;
  static std::deque<std::vector<char*>> argvs;
  argvs.emplace_back();
  for (auto& s : options(0, extra)) { store.emplace_back(s.begin(), s.end()); store.back().push_back(0); argvs.back().push_back(store.back().data()); }
  int argc = (int)argvs.back().size();
  argvs.back().push_back(nullptr);
  char** argv = argvs.back().data();
  MPI_Comm comm = MPI_COMM_WORLD;
  vt::arguments::AppConfig app;
  app.vt_throw_on_abort = true;
  vt::initialize(argc, argv, &comm, mode == "damaged" ? &app : nullptr);
  vt::theTerm()->produce();
}
void stop() { vt::theTerm()->consume(); vt::finalize(); }

void fileMode(int phases) {
  // read while the runtime is up again
  start({});
  Rng g("read", (uint64_t)me());
  for (int i = 0; i < 3; i++) {
    auto node = i == 0 ? me() : (int)g.range(0, nn() - 1);
    std::string how;
    json j;
    Holder h;
    try { j = parse(actual(node), compressed(node), g, how); h = Holder(j); }
    catch (std::exception const& e) { vsim_fail("unreadable", "the file of node %d cannot be read %s: %s", node, how.c_str(), e.what()); }
    if ((int)j["phases"].size() != phases) vsim_fail("phases", "the file of node %d has %d phases of %d", node, (int)j["phases"].size(), phases);
    if (j["metadata"]["rank"] != node) vsim_fail("metadata", "the file of node %d is of node %d", node, (int)j["metadata"]["rank"]);
    judge(h, node, true, how.c_str());
    // what was read and is written and read again stays the same
    if (g.chance(30)) {
      using Appender = vt::util::json::Appender<std::stringstream>;
      std::stringstream ss{std::ios_base::out | std::ios_base::in};
      bool br = g.chance(50);
      json meta; meta["type"] = "LBDatafile";
      Appender w("phases", meta, std::move(ss), br);
      std::vector<vt::PhaseType> ps;
      for (auto& kv : h.node_data_) ps.push_back(kv.first);
      std::sort(ps.begin(), ps.end());
      // user-defined data is not kept for writing, see judge
      for (auto p : ps) { h.node_data_[p].erase(vt::elm::ElementIDStruct{vt::elm::no_element_id, 0}); w.addElm(*h.toJson(p)); }
      ss = w.finish();
      json k;
      try {
        if (br) { vt::util::json::DecompressionInputContainer c(vt::util::json::DecompressionInputContainer::AnyStreamTag{}, std::move(ss), (std::size_t)g.range(1, 5000)); k = json::parse(c); } else k = json::parse(ss);
      } catch (std::exception const& e) { vsim_fail("unreadable", "what was read cannot be written and read again: %s", e.what()); }
      Holder h2(k);
      judge(h2, node, true, "again", true);
      vsim_probe("written again");
      break;
    }
  }
  stop();
}

void damagedMode() {
  static bool dying = true;
  start({});
  Rng g("read", (uint64_t)me());
  auto failed = vsim_disk_fault_count();
  if (failed) vsim_probe("write failed");
  meet("reading");
  if (failed == 0 and on(VF_DISK)) vsim_disk_faults(VDISK_SLOW | (g.chance(50) ? VDISK_READ : 0) | (g.chance(20) ? VDISK_OPEN : 0));
  // several cuts of one plain file: those end with an exception; a cut
  // compressed file ends the process
  std::set_terminate([] { if (dying) died(); abort(); });
  for (int i = 0; i < 6; i++) {
    auto node = (int)g.range(0, nn() - 1);
    auto src = actual(node);
    auto br = compressed(node);
    auto f = "cut." + std::to_string(me()) + (br ? ".json.br" : ".json");
    std::string data;
    { FILE* in = fopen(src.c_str(), "rb"); if (in) { int c; while ((c = fgetc(in)) != EOF) data.push_back((char)c); fclose(in); } }
    auto cut = data.size();
    bool end = g.chance(30);
    if (failed == 0 or g.chance(50)) cut = (std::size_t)(end and cut > 40 ? g.range((int64_t)cut - 40, (int64_t)cut) : g.range(0, (int64_t)cut));
    // a disk that lost the end of the file may have blocks of zeros there
    bool zeros = cut < data.size() and g.chance(20);
    { FILE* out = fopen(f.c_str(), "wb"); if (not out) continue; for (std::size_t k = 0; k < (zeros ? data.size() : cut); k++) fputc(k < cut ? data[k] : 0, out); fclose(out); }
    std::string how = "cut to " + std::to_string(cut) + " of " + std::to_string(data.size()) + " bytes";
    vsim_log("the file of node %d, %s", node, how.c_str());
    bool whole = cut == data.size() and failed == 0;
    auto before = vsim_disk_fault_count();
    try {
      std::string h2;
      auto j = parse(f, br, g, h2);
      Holder h(j);
      judge(h, node, whole, (how + " " + h2).c_str());
      vsim_probe(whole ? "whole" : "readable");
    } catch (std::exception const& e) {
      vsim_log("reported: %s", e.what());
      if (whole and vsim_disk_fault_count() == before) vsim_fail("unreadable", "the whole file of node %d cannot be read: %s", node, e.what());
      vsim_probe("reported");
    }
  }
  vsim_disk_faults(0);
  meet("read");
  dying = false;
  stop();
}

// what another tool makes of it: a random placement, phases that repeat the one
// before, written as such
void synthesize(int phases) {
  using Appender = vt::util::json::Appender<std::ofstream>;
  auto& o = S();
  Rng g("place", 0);
  std::set<vt::PhaseType> same;
  std::map<std::pair<uint64_t, uint64_t>, int> np;
  bool lonely = g.chance(50);                         // all on few nodes, some nodes have none
  for (int ph = 0; ph < phases; ph++) {
    bool rep = ph > 0 and g.chance(40), stay = ph > 0 and g.chance(20);
    if (rep) same.insert((vt::PhaseType)ph);
    auto only = (int)g.range(0, nn() - 1);
    for (auto& kv : o.names) {
      auto& was = o.place.at({(uint64_t)std::max(ph - 1, 0), kv.first});
      int to = ph == 0 ? was : rep or stay or g.chance(30) ? np.at({(uint64_t)(ph - 1), kv.first}) : lonely ? only : (int)g.range(0, nn() - 1);
      np[{(uint64_t)ph, kv.first}] = to;
    }
  }
  if (not same.empty()) vsim_probe("identical phases");
  if (me() == 0) { for (int i = 0; i < nn(); i++) { unlink(fileOf(i).c_str()); unlink((fileOf(i) + ".br").c_str()); } }
  meet("synthesize");
  Holder h;
  h.identical_phases_ = same;
  for (auto& kv : np) if (kv.second == me() and not same.count((vt::PhaseType)kv.first.first)) h.node_data_[(vt::PhaseType)kv.first.first][vt::elm::ElementIDStruct{kv.first.second, (NodeType)me()}].whole_phase_load = 1;
  bool br = g.chance(50);
  json meta; meta["type"] = "LBDatafile"; meta["rank"] = me(); meta["phases"] = *h.metadataToJson();
  {
    Appender w("phases", meta, br ? fileOf(me()) + ".br" : fileOf(me()), br);
    for (int ph = 0; ph < phases; ph++) if (not same.count((vt::PhaseType)ph)) w.addElm(*h.toJson((vt::PhaseType)ph));
  }
  meet("synthesized");
  o.place = np;
}

void offlineMode(int phases) {
  auto in = std::string("--vt_lb_data_file_in=data.%p.json") + (compressed(me()) ? ".br" : "");
  Rng g("offline", 0);
  std::vector<std::string> a = {"--vt_lb", "--vt_lb_quiet", "--vt_lb_data_in", "--vt_lb_data_dir_in=lbdata", in};
  if (g.chance(70)) a.push_back("--vt_lb_name=OfflineLB");
  else {
    if (me() == 0) { std::ofstream of("offline.lb"); of << "0 OfflineLB\n%1 OfflineLB\n"; }
    MPI_Barrier(MPI_COMM_WORLD);
    a.push_back("--vt_lb_file_name=offline.lb");
    vsim_probe("by configuration file");
  }
  if (g.chance(30)) { a.push_back("--vt_lb_data"); a.push_back("--vt_lb_data_dir=lbdata2"); }
  auto& o = S();
  start(a);
  auto judgePlace = [&](int ph) {
    if (me() == 0) {
      std::map<uint64_t, int> at;
      for (auto& x : o.seen[(uint64_t)ph]) at[x.first] = x.second;
      for (auto& kv : o.names) {
        auto w = o.place.find({(uint64_t)ph, kv.first});
        auto s = at.find(kv.first);
        if (s == at.end()) vsim_fail("lost", "%s is nowhere in phase %d", nameOf(kv.first).c_str(), ph);
        if (w->second != s->second) vsim_fail("placement", "%s is on node %d in phase %d, it should be on %d as recorded", nameOf(kv.first).c_str(), s->second, ph, w->second);
        auto was = o.place.find({(uint64_t)ph - 1, kv.first});
        if (ph > 0 and was->second != w->second) vsim_probe("moved as recorded");
      }
    }
    meet(("judged" + std::to_string(ph)).c_str());
  };
  program(phases, (int)vsim_param("messages2", 0, 3), false, judgePlace);
  stop();
}

struct Stats {
  void take(std::vector<bal::LoadData> const& in) {
    auto& o = S();
    o.stats++;
    for (auto& l : in) {
      if (l.stat_ != vt::vrt::collection::lb::Statistic::Object_load_modeled and l.stat_ != vt::vrt::collection::lb::Statistic::Rank_load_modeled) continue;
      got[l.stat_ == vt::vrt::collection::lb::Statistic::Object_load_modeled].push_back(l);
    }
    vsim_touch();
  }
  std::vector<bal::LoadData> got[2];
};
void replayMode(int phases) {
  auto in = std::string("--vt_lb_data_file_in=data.%p.json") + (compressed(me()) ? ".br" : "");
  Rng g("replay", 0);
  char const* nm[] = {"RotateLB", "RandomLB", "GreedyLB", "HierarchicalLB"};  // TemperedLB takes user data that is text for an error
  std::vector<std::string> a = {"--vt_lb", "--vt_lb_quiet", "--vt_lb_data_dir_in=lbdata", in, std::string("--vt_lb_name=") + nm[g.range(0, 3)]};
  int every = (int)g.range(1, 2);
  bool ff = g.chance(60);
  a.push_back("--vt_lb_interval=" + std::to_string(every));
  if (ff) a.push_back("--vt_lb_run_lb_first_phase");
  start(a);
  auto proxy = vt::theObjGroup()->makeCollective<Stats>("stats");
  auto cb = vt::theCB()->makeBcast<&Stats::take>(proxy);
  auto w = bal::replay::readInWorkloads(actual(me()));
  judge(*w, me(), true, "for the replay");
  auto from = (int)g.range(0, phases - 1), cnt = (int)g.range(1, phases - from);
  int mod = 0;
  if (g.chance(30)) { cnt = (int)g.range(1, 2 * phases); mod = phases; }
  vsim_log("replay of %d phases from %d, modulo %d", cnt, from, mod);
  bal::replay::replayWorkloads((vt::PhaseType)from, (vt::PhaseType)cnt, (vt::PhaseType)mod, w, cb);
  meet("replayed");
  // the statistics after balancing are of all objects with the loads recorded
  auto& s = *proxy.get();
  std::vector<int> ran;
  for (int p = from; p < from + cnt; p++) if (p % every == (ff ? 0 : 1) or (every == 1 and p != 0)) ran.push_back(p);
  for (auto& x : s.got) if (x.size() != ran.size()) vsim_fail("statistics", "node %d got %zu statistics of %zu phases with balancing", me(), x.size(), ran.size());
  for (std::size_t i = 0; i < ran.size(); i++) {
    auto ph = (uint64_t)(mod ? ran[i] % mod : ran[i]);
    double sum = 0, max = 0; int n = 0;
    for (auto& f : S().files) for (auto& t : f.second.phases[ph].tasks) { sum += t.second.load; max = std::max(max, t.second.load); n += t.second.load > 0; }
    auto& l = s.got[1][i];
    auto& r = s.got[0][i];
    if (std::fabs(l.sum() - sum) > 1e-9 * (1 + sum)) vsim_fail("replay-load", "phase %d of the replay: objects have a load of %.9f, recorded was %.9f", ran[i], l.sum(), sum);
    if (std::fabs(r.sum() - sum) > 1e-9 * (1 + sum)) vsim_fail("replay-load", "phase %d of the replay: nodes have a load of %.9f, recorded was %.9f", ran[i], r.sum(), sum);
    if (std::fabs(l.max() - max) > 1e-12) vsim_fail("replay-load", "phase %d of the replay: the largest load is %.9f, recorded was %.9f", ran[i], l.max(), max);
    if (l.npr() != n) vsim_fail("replay-load", "phase %d of the replay: %d objects with a load, recorded were %d", ran[i], (int)l.npr(), n);
    if (r.N_ != nn()) vsim_fail("replay-load", "phase %d of the replay: statistics of %d nodes", ran[i], (int)r.N_);
    vsim_probe("replayed phase");
  }
  stop();
}

} // namespace

WL_ENTRY {
  mode = mode_c;
  auto phases = (int)vsim_param("phases", 1, 6), msgs = (int)vsim_param("messages", 0, 12);
  MPI_Init(nullptr, nullptr);
  bool faults = mode == "damaged" and on(VF_DISK) and vsim_hash("faults", 0) % 2;
  std::set_terminate([] { if (mode == "damaged" and first) died(); abort(); });
  if (on(VF_DISK)) vsim_disk_faults(VDISK_SLOW | (faults ? VDISK_WRITE : 0) | (faults and vsim_hash("faults", 1) % 4 == 0 ? VDISK_OPEN : 0));
  try {
    start(writeOptions());
    program(phases, msgs, true, [](int) {});
    if (mode == "offline" and vsim_hash("synth", 0) % 2) { vsim_disk_faults(0); vsim_probe("computed placement"); synthesize(phases); if (on(VF_DISK)) vsim_disk_faults(VDISK_SLOW); }
    stop();
  } catch (std::exception const& e) {
    if (not vsim_disk_fault_count()) throw;
    vsim_log("reported: %s", e.what());
    died();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vsim_disk_faults(on(VF_DISK) and mode != "damaged" ? VDISK_SLOW : 0);
  first = false;
  S().outstanding = 0;
  if (mode == "file") fileMode(phases);
  else if (mode == "damaged") damagedMode();
  else if (mode == "offline") offlineMode(phases);
  else replayMode(phases);
  MPI_Finalize();
  vsim_done();
}
