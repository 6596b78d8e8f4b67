// C23: trace logs.  Every node records what its program did (handlers that ran,
// messages it created, user events, notes and data); afterwards the log files
// must tell exactly that.  Mode plain: flushes by the program, tracing switched
// on and off.  Mode phases: a trace specification and load balancing.
#include "wl.h"
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <memory>
#include <sstream>
#include <zlib.h>
#include <vt/messaging/async_op.h>
#include <cstring>
#include <vt/scheduler/thread_action.h>
#include <vt/runnable/invoke.h>
#include <vt/trace/trace.h>
#include <vt/trace/trace_user.h>
#include <vt/utils/file_spec/spec.h>

using namespace wl;
using vt::NodeType;
namespace tr = vt::trace;

namespace {

std::string mode;

enum Kind { kAct, kBcast, kScat, kObj, kObjBc, kObjInv, kElm, kElmBc, kElmInv, kCall, kKinds };
char const* fn[kKinds] = {"hAct", "hBcast", "hScat", "hObj", "hObjBc", "hObjInv", "hElm", "hElmBc", "hElmInv", "hCall"};

// what the program did, in the order it did it
struct Run { Kind kind; uint64_t key; bool traced, loose; };  // loose: was resumed while tracing was off
struct Item {
  int type;                 // of the record it must leave
  std::string text;         // what it says
  int run;                  // in which handler, -1: none, -2: not in the log
  Kind kind = kAct;
  uint64_t key = 0;         // message sent
};
struct NodeLog { std::vector<Item> items; std::vector<Run> runs; std::map<uint64_t, std::string> names; };
// a message created: where, and the event it got in the log
struct Cause { int node; uint64_t event; bool traced; };
struct State {
  NodeLog log[16];
  std::map<uint64_t, Cause> cause;
  std::map<uint64_t, std::string> names;      // user events that were used
  int64_t outstanding = 0;
  uint64_t keys = 0;
};
State& S() { return shared<State>("trace"); }
NodeLog& L() { return S().log[me()]; }

std::map<int, int> g_outer;          // the handler a handler was run from
int g_invoked = 0;
int g_mod = 0, g_run = -1, g_phase = 0, g_depth = 0, g_scopes = 0, g_flush = 0;
bool g_on = true, g_spec = false, g_last_enabled = true, g_cur_enabled = true;
struct SpecLine { int64_t idx, neg, pos; bool mod; };
std::vector<SpecLine> g_lines;
bool phaseEnabled(int64_t ph) {
  if (not g_spec) return true;
  for (auto& l : g_lines) {
    if (not l.mod) { if (ph >= l.idx + l.neg and ph <= l.idx + l.pos) return true; continue; }
    for (int64_t m = 0; m < 100; m++) if (ph >= m * l.idx + l.neg and ph <= m * l.idx + l.pos) return true;
  }
  return false;
}
bool writes(int node) { return g_mod == 0 or node % g_mod == 0; }
bool tracing() { return g_on and g_cur_enabled and writes(me()); }

void item(int type, std::string text, Kind kind = kAct, uint64_t key = 0) {
  auto run = g_run >= 0 and L().runs[(std::size_t)g_run].loose ? -2 : g_run;
  if (tracing()) L().items.push_back({type, text, run, kind, key});
}
void tick(Rng& g) { vsim_advance((uint64_t)g.range(0, 9000)); }

tr::UserEventIDType g_coll[4], g_root = 0;
int64_t g_notes = 0;
std::string noteText(Rng& g) {
  std::string s = "n" + std::to_string(me()) + "." + std::to_string(g_notes++);
  if (g.chance(8)) s += " " + std::string((std::size_t)g.range(1, 30000), 'x');
  else if (g.chance(20)) s += " with % and \" and \\ and 12 13";
  return s;
}
void named(uint64_t id, std::string n) { S().names[id] = n; }
void sendAny(Rng& g, int hops);

void suspendNow(Rng& g) {
  // a task waits for time to pass, or for a while
  struct W : vt::messaging::AsyncOp {
    uint64_t until; int left;
    bool poll() override { vsim_touch(); return left-- <= 0 and vsim_now() >= until; }
    void done() override {}
  };
  auto w = std::make_unique<W>();
  w->until = vsim_now() + (uint64_t)g.range(0, 100000);
  w->left = (int)g.range(0, 10);
  auto r = g_run;
  g_run = g_outer[r];
  vt::theMsg()->blockOnAsyncOp(std::move(w));
  g_outer[r] = g_run;
  g_run = r;
  if (r >= 0) L().runs[(std::size_t)r].loose = not tracing();
  vsim_probe("suspended");
}

bool threaded() { return vt::sched::ThreadAction::getActiveThreadID() != vt::no_thread_id; }

void acts(Rng& g, int n, int hops) {
  for (int i = 0; i < n; i++) {
    tick(g);
    switch (g.range(0, 17)) {
    case 0: case 1: { auto t = noteText(g); item(28, t); tr::addUserNote(t); break; }
    case 2: { auto v = (int32_t)g.range(-100000, 2000000000); item(26, std::to_string(v)); tr::addUserData(v); break; }
    case 3: { auto e = g_coll[g.range(0, 3)]; item(13, std::to_string(e)); tr::addUserEvent(e); vsim_probe("user event"); break; }
    case 4: { if (not g_root) break; item(13, std::to_string(g_root)); named(g_root, "rooted" + std::to_string(me())); tr::addUserEvent(g_root); break; }
    case 5: {
      auto id = vt::theTrace()->registerUserEventHash("hashed");
      named(id, "hashed"); item(13, std::to_string(id)); tr::addUserEvent(id); break;
    }
    case 6: {
      auto e = g_coll[g.range(0, 3)];
      item(98, std::to_string(e)); vt::theTrace()->addUserEventBracketedBegin(e);
      g_scopes++;
      acts(g, (int)g.range(0, 2), hops);
      g_scopes--;
      item(99, std::to_string(e)); vt::theTrace()->addUserEventBracketedEnd(e);
      break;
    }
    case 7: {
      auto e = g_coll[g.range(0, 3)];
      item(100, std::to_string(e));
      g_scopes++;
      { tr::TraceScopedEvent s(e); acts(g, (int)g.range(0, 2), hops); tick(g); item(100, std::to_string(e)); }
      g_scopes--;
      vsim_probe("scoped event");
      break;
    }
    case 8: case 9: {
      // a note with a duration, whose text may be replaced at its end
      auto t = noteText(g);
      auto at = L().items.size();
      bool was = tracing();
      bool sub = g.chance(50);
      item(29, t);
      g_scopes++;
      { tr::TraceScopedNote s(t, g_coll[3]);
        if (sub) acts(g, (int)g.range(0, 2), hops);
        tick(g);
        if (was and g.chance(50)) { auto u = noteText(g); s.setNote(u); L().items[at].text = u; } }
      g_scopes--;
      vsim_probe("scoped note");
      break;
    }
    case 10: {
      auto id = (tr::UserSpecEventIDType)g.range(1, 3);
      auto real = tr::UserEventRegistry{}.createEvent(true, false, 0, id);
      item(13, std::to_string(real)); vt::theTrace()->addUserEventManual(id);
      break;
    }
    case 11:
      // the program flushes
      vt::theTrace()->flushTracesFile(false);
      vsim_probe("flush by the program");
      break;
    case 12:
      // tracing is switched off for a while; not between the two ends of an event or note
      if (g_scopes == 0 and mode == "plain" and g.chance(30)) {
        if (g_on) { vt::theTrace()->disableTracing(); g_on = false; vsim_probe(g_run >= 0 ? "switched off in a handler" : "switched off"); }
        else { vt::theTrace()->enableTracing(); g_on = true; vsim_probe(g_run >= 0 ? "switched on in a handler" : "switched on"); }
      }
      break;
    case 13:
      if (g_scopes == 0 and g_invoked == 0 and threaded()) suspendNow(g);
      break;
    case 14:
      if (g_scopes == 0 and g_depth < 2 and not threaded() and g_run >= 0 and hops > 0 and g.chance(40)) {
        auto r = g_run;
        g_depth++;
        vt::runInEpochRooted([&] { sendAny(g, 0); sendAny(g, 0); });
        g_depth--;
        g_run = r;
        vsim_probe("nested scheduler");
      }
      break;
    default:
      if (hops > 0) sendAny(g, hops - 1);
    }
  }
}

// a handler's body
void body(Kind k, uint64_t key, int hops) {
  Rng g(vsim_hash("body", key * 64 + (uint64_t)me() * 1000003));
  auto mine = (int)L().runs.size();
  L().runs.push_back({k, key, tracing(), false});
  g_outer[mine] = g_run;
  g_run = mine;
  auto d = g_depth, sc = g_scopes;
  auto t = "run " + std::to_string(mine);
  item(28, t);
  tr::addUserNote(t);
  acts(g, (int)g.range(0, 3), hops);
  tick(g);
  auto e = "end " + std::to_string(mine);
  item(28, e);
  tr::addUserNote(e);
  g_run = g_outer[mine];
  g_depth = d;
  g_scopes = sc;
  S().outstanding--;
  vsim_touch();
}

struct Msg : vt::Message { uint64_t key = 0; int hops = 0; };
void hAct(Msg* m) { body(kAct, m->key, m->hops); }
void hBcast(Msg* m) { body(kBcast, m->key, m->hops); }
void hScat(uint64_t key, int hops) { body(kScat, key, hops); }
void hCall(uint64_t key, int hops) { body(kCall, key, hops); }
struct Obj {
  void hObj(Msg* m) { body(kObj, m->key, m->hops); }
  void hObjBc(Msg* m) { body(kObjBc, m->key, m->hops); }
  void hObjInv(uint64_t key, int hops) { body(kObjInv, key, hops); }
};
struct Elm : vt::Collection<Elm, vt::Index1D> {
  template <class Z> void serialize(Z& s) { vt::Collection<Elm, vt::Index1D>::serialize(s); }
  void hElm(uint64_t key, int hops) { body(kElm, key, hops); }
  void hElmBc(uint64_t key, int hops) { body(kElmBc, key, hops); }
  void hElmInv(uint64_t key, int hops) { body(kElmInv, key, hops); }
};
vt::objgroup::proxy::Proxy<Obj> g_obj;
vt::CollectionProxy<Elm, vt::Index1D> g_elms;
int g_n = 0;

void sendAny(Rng& g, int hops) {
  auto k = (Kind)g.range(0, kKinds - 1);
  auto& o = S();
  uint64_t key = ++o.keys;
  auto to = (NodeType)g.range(0, nn() - 1);
  int n = k == kBcast or k == kObjBc ? nn() : k == kElmBc ? g_n : 1;
  if (n > 1) hops = std::min(hops, 0);
  if ((k == kObjInv or k == kElmInv or k == kCall) and (g_scopes or g_depth > 2)) k = kAct;
  std::vector<vt::Index1D> here;
  if (k == kElmInv) { for (auto& x : vt::theCollection()->getLocalIndices<Elm>(g_elms)) here.push_back(x); if (here.empty()) k = kElm; }
  o.outstanding += n;
  bool bc = n > 1 or k == kBcast or k == kObjBc or k == kElmBc;
  // a message that is serialized leaves the record of its envelope only, and
  // its handler refers to no event
  if (k != kScat) item(bc ? 20 : 1, fn[k], k, key);
  if (not tracing() or k == kScat) o.cause[key] = {me(), 0, false};
  auto r = g_run;
  bool inv = k == kObjInv or k == kElmInv or k == kCall;
  g_invoked += inv;
  switch (k) {
  case kAct: case kBcast: {
    auto m = vt::makeMessage<Msg>(); m->key = key; m->hops = hops;
    if (k == kAct) vt::theMsg()->sendMsg<hAct>(to, m); else vt::theMsg()->broadcastMsg<hBcast>(m);
    break;
  }
  case kScat: vt::theMsg()->send<hScat>(vt::Node{to}, key, hops); break;
  case kObj: { auto m = vt::makeMessage<Msg>(); m->key = key; m->hops = hops; g_obj[to].sendMsg<&Obj::hObj>(m); break; }
  case kObjBc: { auto m = vt::makeMessage<Msg>(); m->key = key; m->hops = hops; g_obj.broadcastMsg<&Obj::hObjBc>(m); break; }
  case kObjInv: g_obj[(NodeType)me()].invoke<&Obj::hObjInv>(key, hops); break;
  case kElm: g_elms((int)g.range(0, g_n - 1)).send<&Elm::hElm>(key, hops); break;
  case kElmBc: g_elms.broadcast<&Elm::hElmBc>(key, hops); break;
  case kElmInv: g_elms(here[(std::size_t)g.range(0, (int64_t)here.size() - 1)]).invoke<&Elm::hElmInv>(key, hops); break;
  case kCall: vt::runnable::invoke<hCall>(key, hops); break;
  default: break;
  }
  g_invoked -= inv;
  g_run = r;
  if (k == kCall) item(1, fn[k], k, 0);      // what it returned
  vsim_probe(fn[k]);
}

// ---- reading the logs
struct Rec { int type; uint64_t ep = 0, event = 0; int node = 0; int64_t time = 0, end = 0; std::string text; uint64_t user = 0; };
struct Logs { std::vector<Rec> recs; bool header = false, footer = false; };

std::string fileOf(int node) { return "tr/t." + std::to_string(node) + ".log.gz"; }

std::string slurp(std::string const& f, bool& ok) {
  ok = false;
  gzFile z = gzopen(f.c_str(), "rb");
  if (not z) return "";
  std::string s;
  char b[65536];
  int n;
  while ((n = gzread(z, b, sizeof b)) > 0) s.append(b, (std::size_t)n);
  int e = 0;
  gzerror(z, &e);
  ok = n == 0 and e == Z_OK;
  gzclose(z);
  return s;
}

void parse(int node, Logs& l) {
  bool ok;
  auto s = slurp(fileOf(node), ok);
  if (not ok) vsim_fail("file", "the log of node %d cannot be decompressed", node);
  std::size_t p = 0;
  int line = 0;
  while (p < s.size()) {
    auto e = s.find('\n', p);
    if (e == std::string::npos) vsim_fail("file", "the log of node %d ends in the middle of line %d", node, line);
    auto t = s.substr(p, e - p);
    p = e + 1;
    if (line++ == 0) { if (t.compare(0, 18, "PROJECTIONS-RECORD")) vsim_fail("file", "the log of node %d starts with '%s'", node, t.substr(0, 40).c_str()); l.header = true; continue; }
    std::istringstream is(t);
    Rec r{};
    is >> r.type;
    if (is.fail()) vsim_fail("file", "line %d of the log of node %d: '%s'", line, node, t.substr(0, 60).c_str());
    if (l.footer) vsim_fail("file", "the log of node %d goes on after its end", node);
    uint64_t x;
    std::size_t len = 0;
    switch (r.type) {
    case 6: if (line != 2) vsim_fail("file", "the log of node %d starts again in line %d", node, line); is >> r.time; break;
    case 7: is >> r.time; l.footer = true; break;
    case 1: case 20: case 2: case 3: is >> x >> r.ep >> r.time >> r.event >> r.node; break;
    case 14: case 15: is >> r.time >> r.node; break;
    case 13: case 98: case 99: case 100: is >> r.user >> r.time >> r.event >> r.node; break;
    case 26: is >> r.text >> r.time; break;
    case 27: is >> x >> r.time; break;
    case 28: is >> r.time >> len; r.text = t.substr(std::min(t.size(), (std::size_t)is.tellg() + 1)); break;
    case 29: is >> r.time >> r.end >> r.event >> len; r.text = t.substr(std::min(t.size(), (std::size_t)is.tellg() + 1)); break;
    default: vsim_fail("file", "line %d of the log of node %d has type %d", line, node, r.type);
    }
    if (is.fail()) vsim_fail("file", "line %d of the log of node %d: '%s'", line, node, t.substr(0, 60).c_str());
    if ((r.type == 28 or r.type == 29) and r.text.size() != len) vsim_fail("file", "a note of length %zu has length %zu in the log of node %d", r.text.size(), len, node);
    l.recs.push_back(r);
  }
  if (not l.header or not l.footer) vsim_fail("file", "the log of node %d has no %s", node, l.header ? "end" : "start");
}

std::string show(Rec const& r) {
  char b[160];
  snprintf(b, sizeof b, "type %d ep %llu event %llu node %d time %lld user %llx %.30s", r.type, (unsigned long long)r.ep, (unsigned long long)r.event, r.node, (long long)r.time, (unsigned long long)r.user, r.text.c_str());
  return b;
}

struct Sts { std::map<uint64_t, std::string> ep, user; int procs = 0; bool end = false; };
void readSts(Sts& s) {
  std::ifstream f("tr/t.sts");
  if (not f.good()) vsim_fail("sts", "there is no sts file");
  std::string t;
  uint64_t eps = 0, evs = 0;
  while (std::getline(f, t)) {
    std::istringstream is(t);
    std::string w;
    is >> w;
    if (w == "PROCESSORS") is >> s.procs;
    if (w == "TOTAL_EPS") is >> eps;
    if (w == "TOTAL_EVENTS") is >> evs;
    if (w == "ENTRY") {
      uint64_t id, ty; std::string rest;
      is >> w >> id;
      std::getline(is, rest);
      (void)ty;
      if (s.ep.count(id)) vsim_fail("sts", "entry %llu is listed twice", (unsigned long long)id);
      s.ep[id] = rest;
    }
    if (w == "EVENT") {
      uint64_t id; std::string n;
      is >> id >> n;
      if (s.user.count(id)) vsim_fail("sts", "event %llx is listed twice", (unsigned long long)id);
      s.user[id] = n;
    }
    if (w == "END") s.end = true;
  }
  if (s.procs != nn()) vsim_fail("sts", "PROCESSORS %d of %d", s.procs, nn());
  if (s.ep.size() != eps or s.user.size() != evs or not s.end) vsim_fail("sts", "the sts file is not complete");
}

int kindOf(std::string const& name) {
  for (int k = 0; k < kKinds; k++) {
    auto p = name.find(fn[k]);
    if (p == std::string::npos) continue;
    auto c = name[p + strlen(fn[k])];
    if (c == '(') return k;
  }
  return -1;
}

void judge(int node, Logs& l, Sts const& sts) {
  auto& want = S().log[node];
  auto say = [&](char const* cls, std::size_t i, std::string const& s) { vsim_fail(cls, "node %d, record %zu (%s): %s", node, i, i < l.recs.size() ? show(l.recs[i]).c_str() : "end", s.c_str()); };
  std::map<uint64_t, int> eps;
  for (auto& e : sts.ep) eps[e.first] = kindOf(e.second);
  int64_t last = 0;
  int open = -1;                      // index of the interval that is open
  bool idle = false;
  std::vector<std::pair<uint64_t, int>> seen;
  std::size_t at = 0;
  struct Where { bool set = false; uint64_t ep, event; int node; };
  std::vector<Where> where(want.runs.size());
  for (std::size_t i = 0; i < l.recs.size(); i++) {
    auto& r = l.recs[i];
    if (r.time < last) say("time", i, "time goes back from " + std::to_string(last));
    last = r.time;
    if (r.type <= 3 or r.type == 20) {
      if (r.type != 6 and r.type != 7 and not eps.count(r.ep)) say("sts", i, "its entry is not in the sts file");
    }
    if (r.type == 13 or r.type >= 98) {
      auto it = sts.user.find(r.user);
      if (it == sts.user.end()) say("sts", i, "its user event is not in the sts file");
      auto n = S().names.find(r.user);
      if (n != S().names.end() and n->second != it->second) say("sts", i, "its user event is called " + it->second + ", not " + n->second);
    }
    switch (r.type) {
    case 2:
      if (open >= 0) say("nesting", i, "a handler begins while another is open");
      if (idle) say("nesting", i, "a handler begins while idle");
      open = (int)i;
      break;
    case 3:
      if (open < 0) say("nesting", i, "an end without a begin");
      { auto& b = l.recs[(std::size_t)open];
        if (b.ep != r.ep or b.event != r.event or b.node != r.node) say("nesting", i, "ends another handler than the one that is open: " + show(b)); }
      open = -1;
      break;
    case 14: if (idle or open >= 0) say("nesting", i, idle ? "idle twice" : "idle while a handler is open"); idle = true; break;
    case 15: if (not idle) say("nesting", i, "the end of idle without its begin"); idle = false; break;
    case 29: if (r.end < r.time) say("time", i, "a note ends before it begins"); break;
    default: break;
    }
    int k = r.type == 1 or r.type == 20 or r.type == 2 ? eps[r.ep] : -1;
    bool user = r.type == 26 or r.type == 28 or (r.type == 29 and S().names.count(r.event)) or ((r.type == 13 or r.type >= 98) and S().names.count(r.user)) or ((r.type == 1 or r.type == 20) and k >= 0);
    if (not user) continue;
    // the next thing the program did
    if (at >= want.items.size()) say("extra", i, "the program did nothing more");
    auto& w = want.items[at];
    auto desc = "the program did: type " + std::to_string(w.type) + " " + w.text.substr(0, 40) + " (#" + std::to_string(at) + ")";
    if (w.type != r.type) say("lost-or-extra", i, desc);
    if (r.type == 26 or r.type == 28 or r.type == 29) { if (w.text != r.text) say("lost-or-extra", i, desc); }
    else if (r.type == 1 or r.type == 20) {
      if (k != w.kind) say("lost-or-extra", i, desc);
      if (r.node != node) say("creation", i, "created at another node");
      if (w.key) S().cause[w.key] = {node, r.event, true};
    } else if (w.text != std::to_string(r.user)) say("lost-or-extra", i, desc);
    // in the handler that did it
    if (w.run >= 0) {
      auto& run = want.runs[(std::size_t)w.run];
      if (run.traced) {
        if (open < 0) say("inside", i, "no handler is open, but the program was in " + std::string(fn[run.kind]));
        auto& b = l.recs[(std::size_t)open];
        if (eps[b.ep] != run.kind) say("inside", i, "the program was in " + std::string(fn[run.kind]) + ", the log has " + show(b));
        auto& x = where[(std::size_t)w.run];
        if (not x.set) x = {true, b.ep, b.event, b.node};
        if (x.ep != b.ep or x.event != b.event or x.node != b.node) say("inside", i, "the handler has become another one: " + show(b));
        vsim_probe("record in its handler");
      }
    } else if (w.run == -1 and open >= 0 and eps[l.recs[(std::size_t)open].ep] >= 0) say("inside", i, "the program was in no handler, the log has " + show(l.recs[(std::size_t)open]));
    at++;
  }
  if (at < want.items.size()) say("lost", l.recs.size(), "the log misses type " + std::to_string(want.items[at].type) + " " + want.items[at].text.substr(0, 40) + " and " + std::to_string(want.items.size() - at - 1) + " more");
  if (open >= 0) say("nesting", (std::size_t)open, "never ends");
  // begins refer to the messages that caused them: checked once all logs are read
  for (std::size_t i = 0; i < want.runs.size(); i++) if (where[i].set) {
    auto& x = where[i];
    char b[64];
    snprintf(b, sizeof b, "%llu.%d", (unsigned long long)x.event, x.node);
    S().log[node].names[i] = b;
  }
}

void causes(int node, Logs& l, Sts const& sts) {
  auto& want = S().log[node];
  std::map<uint64_t, int> eps;
  for (auto& e : sts.ep) eps[e.first] = kindOf(e.second);
  std::set<std::pair<std::string, int>> ran;
  for (auto& n : want.names) {
    auto& run = want.runs[n.first];
    auto c = S().cause.find(run.key);
    if (c == S().cause.end()) vsim_fail("cause", "node %d: the message of a %s handler left no record", node, fn[run.kind]);
    char b[64];
    snprintf(b, sizeof b, "%llu.%d", (unsigned long long)c->second.event, c->second.node);
    if (not c->second.traced) { snprintf(b, sizeof b, "0.%d", c->second.node); if (n.second.compare(0, 2, "0.")) vsim_fail("cause", "node %d: a %s handler refers to event %s, but its message was not traced", node, fn[run.kind], n.second.c_str()); }
    else if (n.second != b) vsim_fail("cause", "node %d: a %s handler refers to event and node %s, its message was %s", node, fn[run.kind], n.second.c_str(), b);
    ran.insert({n.second, run.kind});
    vsim_probe("cause");
  }
  // nothing else ran
  bool loose = false;
  for (auto& r : want.runs) if (not r.traced) loose = true;
  if (not loose) for (std::size_t i = 0; i < l.recs.size(); i++) {
    auto& r = l.recs[i];
    if (r.type != 2 or eps[r.ep] < 0) continue;
    char b[64];
    snprintf(b, sizeof b, "%llu.%d", (unsigned long long)r.event, r.node);
    if (not ran.count({b, eps[r.ep]})) vsim_fail("phantom", "node %d, record %zu (%s): no such handler ran", node, i, show(r).c_str());
  }
}

std::vector<std::string> traceOptions() {
  Rng g("trace", 0);
  std::vector<std::string> a = {"--vt_trace", "--vt_trace_dir=tr", "--vt_trace_file=t"};
  if (g.chance(20) and nn() > 1) { g_mod = (int)g.range(1, 3); a.push_back("--vt_trace_mod=" + std::to_string(g_mod)); }
  if (g.chance(80)) { g_flush = (int)(g.chance(50) ? g.range(1, 20) : g.range(1, 400)); a.push_back("--vt_trace_flush_size=" + std::to_string(g_flush)); }
  if (g.chance(40)) a.push_back("--vt_trace_gzip_finish_flush");
  if (g.chance(20)) a.push_back("--vt_trace_sys_all");
  if (g.chance(20)) a.push_back("--vt_trace_sys_term");
  if (g.chance(20)) a.push_back("--vt_trace_sys_location");
  if (g.chance(20)) a.push_back("--vt_trace_sys_collection");
  if (g.chance(20)) a.push_back("--vt_trace_sys_serial_msg");
  if (g.chance(20)) a.push_back("--vt_trace_memory_usage");
  if (g.chance(20)) a.push_back("--vt_trace_event_polling");
  if (g.chance(20)) a.push_back("--vt_trace_irecv_polling");
  if (mode == "phases") {
    if (g.chance(60)) {
      g_spec = true;
      std::set<int64_t> ex, mo;
      for (int i = (int)g.range(1, 3); i > 0; i--) {
        SpecLine l{g.range(0, 6), -g.range(0, 2), g.range(0, 2), g.chance(40)};
        if (l.mod) l.idx = g.range(1, 5);
        if (not (l.mod ? mo : ex).insert(l.idx).second) continue;
        g_lines.push_back(l);
      }
      a.push_back("--vt_trace_spec"); a.push_back("--vt_trace_spec_file=trace.spec");
    }
    a.push_back("--vt_lb"); a.push_back("--vt_lb_quiet");
    char const* nm[] = {"RotateLB", "RandomLB", "GreedyLB", "NoLB"};
    a.push_back(std::string("--vt_lb_name=") + nm[g.range(0, 3)]);
  }
  return a;
}

} // namespace

WL_ENTRY {
  mode = mode_c;
  auto phases = mode == "phases" ? (int)vsim_param("phases", 1, 6) : 1, msgs = (int)vsim_param("messages", 0, 14), hops = (int)vsim_param("hops", 0, 3);
  MPI_Init(nullptr, nullptr);
  auto opt = traceOptions();
  if (g_spec and me() == 0) {
    std::ofstream f("trace.spec");
    Rng g("spec", 0);
    for (std::size_t i = 0; i < g_lines.size(); i++) {
      auto& l = g_lines[i];
      f << (l.mod ? "%" : "") << l.idx;
      if (l.neg or l.pos or g.chance(60)) { f << " " << l.neg; if (l.pos or g.chance(50)) f << " " << l.pos; }
      if (i + 1 < g_lines.size() or g.chance(50)) f << "\n";
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  std::vector<std::vector<char>> store;
  std::vector<char*> argv;
  for (auto& x : options(0, opt)) { store.emplace_back(x.begin(), x.end()); store.back().push_back(0); argv.push_back(store.back().data()); }
  int argc = (int)argv.size();
  argv.push_back(nullptr);
  char** pv = argv.data();
  MPI_Comm comm = MPI_COMM_WORLD;
  vt::initialize(argc, pv, &comm);
  vt::theTerm()->produce();
  g_cur_enabled = phaseEnabled(0);
  auto& o = S();
  for (int i = 0; i < 4; i++) { auto n = "coll" + std::to_string(i); g_coll[i] = tr::registerEventCollective(n); named(g_coll[i], n); }
  for (int i = 1; i <= 3; i++) { auto n = "manual" + std::to_string(i); vt::theTrace()->registerUserEventManual(n, (tr::UserSpecEventIDType)i); named(tr::UserEventRegistry{}.createEvent(true, false, 0, (tr::UserSpecEventIDType)i), n); }
  Rng c("grow", 0);
  if (vsim_hash("rooted", (uint64_t)me()) % 2) { g_root = tr::registerEventRooted("rooted" + std::to_string(me())); named(g_root, "rooted" + std::to_string(me())); }
  g_n = (int)c.range(1, 12);
  g_obj = vt::theObjGroup()->makeCollective<Obj>("obj");
  g_elms = vt::makeCollection<Elm>("elms").bounds(vt::Index1D(g_n)).bulkInsert().wait();
  meet("made");
  for (int ph = 0; ph < phases; ph++) {
    for (int i = 0; i < msgs; i++) {
      auto op = (uint64_t)((ph * 40 + i) * 16 + me());
      if (not vsim_op_on(op)) continue;
      Rng g("act", op);
      acts(g, (int)g.range(1, 4), hops);
      if (g.chance(30)) { auto n = (int)g.range(1, 5); while (n--) vt::theSched()->runSchedulerOnceImpl(); }
    }
    meet(("sent" + std::to_string(ph)).c_str());
    pumpUntil([&] { return o.outstanding == 0; });
    meet(("done" + std::to_string(ph)).c_str());
    if (mode == "phases") {
      g_cur_enabled = phaseEnabled(ph + 1);
      vt::thePhase()->nextPhaseCollective();
      meet(("next" + std::to_string(ph)).c_str());
      vsim_probe(g_cur_enabled ? "phase traced" : "phase not traced");
    }
  }
  vt::theTerm()->consume();
  vt::finalize();
  MPI_Barrier(MPI_COMM_WORLD);
  if (me() == 0) {
    Sts sts;
    readSts(sts);
    std::vector<Logs> l((std::size_t)nn());
    for (int n = 0; n < nn(); n++) {
      bool ok = true;
      if (not writes(n)) { slurp(fileOf(n), ok); if (ok) vsim_fail("file", "node %d wrote a log", n); continue; }
      if (g_spec and o.log[n].items.empty()) { slurp(fileOf(n), ok); if (not ok) continue; }
      parse(n, l[(std::size_t)n]);
      judge(n, l[(std::size_t)n], sts);
      vsim_probe("log read");
    }
    for (int n = 0; n < nn(); n++) causes(n, l[(std::size_t)n], sts);
  }
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  vsim_done();
}
