// The simulated MPI library: every rank of the job lives in this process; the
// network, its delays and its faults are decided by the engine.
#include "engine.h"
#include <mpi.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <set>
#include <unistd.h>

using namespace sim;

namespace {

using bytes_t = std::vector<char>;
inline size_t tsize(MPI_Datatype t) { return (size_t)(t & 0xff); }

struct Req;
struct Msg {
  uint64_t id; int comm, src, dst, tag;     // src, dst: world ranks
  size_t n; void const* sbuf; bytes_t data; bool captured = false;
  uint64_t visible_at; int sreq = 0; bool rendezvous = false;
};
using MsgP = std::shared_ptr<Msg>;

enum Kind { K_SEND, K_RECV, K_COLL, K_RMA };
struct Coll;
struct RmaOp;
struct Req {
  Kind kind; int owner = -1; bool active = false;
  uint64_t done_at = ~0ull;                 // ~0: not yet known
  MsgP msg;
  void* rbuf = nullptr; size_t rcap = 0; int comm = 0, src = 0, tag = 0;
  std::shared_ptr<Coll> coll; void* cbuf = nullptr; size_t cbytes = 0;
  std::shared_ptr<RmaOp> rma;
  bool freed = false;
};
std::deque<Req> g_reqs(1);
std::vector<int> g_free_reqs;

struct Comm {
  std::vector<int> ranks; uint64_t freed = 0;
  std::map<int, uint64_t> seq;                         // per world rank
  std::map<uint64_t, std::shared_ptr<Coll>> colls;
};
std::deque<Comm> g_comms;
struct Group { std::vector<int> ranks; };
std::deque<Group> g_groups(1);

struct Coll {
  std::string type; int root; size_t n; int op, dt;
  uint64_t arrived = 0; int count = 0; bool complete = false;
  std::map<int, bytes_t> in;       // by world rank
  std::map<int, std::pair<int,int>> ck;  // color,key
  std::map<int, int> res;          // resulting handle per rank
  std::map<int, uint64_t> done;    // completion time per rank
  bytes_t out;
  int waiting_out = 0;
  int owner = -1;
};

struct Heads { bool operator()(MsgP const& a, MsgP const& b) const {
  return a->visible_at != b->visible_at ? a->visible_at > b->visible_at : a->id > b->id; } };
struct Node {
  std::priority_queue<MsgP, std::vector<MsgP>, Heads> inflight;
  std::deque<MsgP> unexpected;
  std::deque<int> posted;
  bool inited = false, finalized = false;
};
Node N[kMaxRanks];
uint64_t g_msgid = 0;
std::map<std::pair<int, uint64_t>, uint64_t> g_last_visible;
uint64_t g_part_mask = 0, g_part_until = 0;
bool g_tag_reorder = false;
int g_tag_ub = 0x7fffffff;

[[noreturn]] void bad(char const* what, long a = 0, long b = 0) {
  char s[256];
  snprintf(s, sizeof s, "node %d: illegal MPI use: %s (%ld, %ld)", g_cur, what, a, b);
  fail("mpi-misuse", s);
}
Comm& C(int c) {
  if (c <= 0 or c >= (int)g_comms.size() or g_comms[c].ranks.empty()) bad("invalid communicator", c);
  if (g_cur >= 0 and ((g_comms[c].freed >> g_cur) & 1)) bad("communicator used after free", c);
  return g_comms[c];
}
int toWorld(int comm, int r) {
  auto& c = C(comm);
  if (comm == MPI_COMM_SELF) return g_cur;
  if (r < 0 or r >= (int)c.ranks.size()) bad("rank outside communicator", r, c.ranks.size());
  return c.ranks[r];
}
int fromWorld(int comm, int w) {
  if (comm == MPI_COMM_SELF) return 0;
  auto& v = g_comms[comm].ranks;
  for (size_t i = 0; i < v.size(); i++) if (v[i] == w) return (int)i;
  return MPI_UNDEFINED;
}

int newReq(Kind k) {
  int id;
  if (not g_free_reqs.empty()) { id = g_free_reqs.back(); g_free_reqs.pop_back(); }
  else { id = (int)g_reqs.size(); g_reqs.emplace_back(); }
  Req r; r.kind = k; r.owner = g_cur; r.active = true;
  g_reqs[id] = r;
  return id;
}
Req& Q(int id) {
  if (id <= 0 or id >= (int)g_reqs.size() or not g_reqs[id].active) bad("invalid request", id);
  if (g_reqs[id].owner != g_cur) bad("request of another node", id);
  return g_reqs[id];
}
void freeReq(int id) { g_reqs[id] = Req{}; g_free_reqs.push_back(id); }

uint64_t slow(int kind = VF_SLOWDONE) {
  if (not enabled(kind)) return 0;
  double r = rate(kind);
  if (chance(kind, 0.05 + 0.5 * r)) return pick(kind, 1ull << (6 + pick(kind, 13)));
  return 0;
}

uint64_t latency(int s, int d, size_t n) {
  uint64_t l = 1000 + n / 8;
  if (enabled(VF_JITTER)) { fired(VF_JITTER); l += pick(VF_JITTER, 1ull << (8 + pick(VF_JITTER, 10))); }
  if (chance(VF_TAIL, 0.005 + 0.06 * rate(VF_TAIL))) l += pick(VF_TAIL, 1ull << (14 + pick(VF_TAIL, 10)));
  if (enabled(VF_LINK)) {
    if (mix(mix(g_cfg.seed, 0x114B), s * 64 + d) % 4 == 0) { fired(VF_LINK); l += 50000 + l * 20; }
  }
  if (chance(VF_PARTITION, 0.0005 + 0.004 * rate(VF_PARTITION)) and g_part_until <= g_now) {
    g_part_mask = 1 + pick(VF_PARTITION, (1ull << g_n) - 1);
    g_part_until = g_now + 20000 + pick(VF_PARTITION, 1ull << (14 + pick(VF_PARTITION, 9)));
    ev("partition", g_part_mask, g_part_until);
  }
  if (g_part_until > g_now and enabled(VF_PARTITION) and
      (((g_part_mask >> s) ^ (g_part_mask >> d)) & 1)) {
    l += g_part_until - g_now;
  }
  return l;
}

void capture(Msg& m) {
  if (m.captured) return;
  m.captured = true;
  m.data.assign((char const*)m.sbuf, (char const*)m.sbuf + m.n);
}

vsim_mpi_observer g_obs[64];
void observe(int kind, int comm, int tag, void const* buf, size_t n) { if (g_obs[g_cur]) g_obs[g_cur](kind, comm, tag, buf, n); }

// a message is matched with a posted receive
void match(MsgP m, int rid) {
  auto& r = g_reqs[rid];
  if (m->n > r.rcap) {
    char s[200];
    snprintf(s, sizeof s, "message of %zu bytes from node %d (tag %d) does not fit the %zu-byte receive of node %d",
      m->n, m->src, m->tag, r.rcap, m->dst);
    fail("mpi-truncate", s);
  }
  r.msg = m;
  r.done_at = g_now + slow();
  if (r.done_at > g_now) wakeAt(r.done_at, r.owner);
  ev("match", m->id, m->src, m->dst, m->tag);
  orderEv(m->src * 64 + m->dst, m->tag, m->n);
  if (m->rendezvous and m->sreq) {
    auto& s = g_reqs[m->sreq];
    s.done_at = std::max(g_now + 500, r.done_at) + slow();
    wakeAt(s.done_at, s.owner);
  }
}
bool matches(Msg const& m, int comm, int src, int tag) {
  return m.comm == comm and (src == MPI_ANY_SOURCE or m.src == src) and (tag == MPI_ANY_TAG or m.tag == tag);
}
void arrivals(int me) {
  auto& n = N[me];
  while (not n.inflight.empty() and n.inflight.top()->visible_at <= g_now) {
    auto m = n.inflight.top();
    n.inflight.pop();
    bool done = false;
    for (auto it = n.posted.begin(); it != n.posted.end(); ++it) {
      auto& r = g_reqs[*it];
      if (matches(*m, r.comm, r.src, r.tag)) {
        int id = *it;
        n.posted.erase(it);
        match(m, id);
        done = true;
        break;
      }
    }
    if (not done) n.unexpected.push_back(m);
  }
}

int isend(void const* buf, int count, MPI_Datatype t, int dest, int tag, int comm, bool sync) {
  int d = toWorld(comm, dest);
  if (tag < 0 or tag > g_tag_ub) bad("tag out of range", tag);
  if (count < 0) bad("negative count", count);
  auto m = std::make_shared<Msg>();
  m->id = ++g_msgid; m->comm = comm; m->src = g_cur; m->dst = d; m->tag = tag;
  m->n = (size_t)count * tsize(t); m->sbuf = buf;
  g_res->msgs++; g_res->bytes += m->n;
  uint64_t vis = g_now + latency(g_cur, d, m->n);
  auto key = std::make_pair(comm, ((uint64_t)g_cur << 48) | ((uint64_t)d << 40) | (g_tag_reorder ? (uint64_t)(uint32_t)tag : 0));
  auto& last = g_last_visible[key];
  if (vis <= last) vis = last + 1;
  last = vis;
  m->visible_at = vis;
  m->rendezvous = sync or m->n > 65536 or chance(VF_SYNCSEND, 0.2 + 0.8 * rate(VF_SYNCSEND));
  int id = newReq(K_SEND);
  auto& r = g_reqs[id];
  r.msg = m;
  m->sreq = id;
  if (not m->rendezvous) {
    r.done_at = g_now + slow();
    if (r.done_at > g_now) wakeAt(r.done_at, g_cur);
  }
  if (not chance(VF_LATECOPY, 0.3 + 0.7 * rate(VF_LATECOPY)) and not m->rendezvous) capture(*m);
  ev("send", m->id, d, tag, m->n);
  N[d].inflight.push(m);
  wakeAt(vis, d);
  observe(VMPI_SEND, comm, tag, buf, m->n);
  return id;
}

void setStatus(MPI_Status* st, int comm, int src, int tag, size_t n) {
  if (st == MPI_STATUS_IGNORE) return;
  st->MPI_SOURCE = fromWorld(comm, src);
  st->MPI_TAG = tag;
  st->MPI_ERROR = MPI_SUCCESS;
  st->count_ = (long long)n;
}

void collFinish(Req& r);
void rmaComplete(Req& r);

// is the request complete?  (does not consume it)
bool ready(int id) {
  auto& r = g_reqs[id];
  if (r.kind == K_COLL) {
    auto it = r.coll->done.find(r.owner);
    return it != r.coll->done.end() and it->second <= g_now;
  }
  return r.done_at <= g_now;
}
// the owner observes completion
void finish(int id, MPI_Status* st) {
  auto& r = g_reqs[id];
  switch (r.kind) {
  case K_SEND:
    capture(*r.msg);
    r.msg->sreq = 0;
    ev("senddone", r.msg->id);
    break;
  case K_RECV: {
    auto& m = *r.msg;
    char const* from = m.captured ? m.data.data() : (char const*)m.sbuf;
    if (m.n) memcpy(r.rbuf, from, m.n);
    bytes_t d;
    if (not m.captured) { m.captured = true; }   // nobody reads the sender's buffer any more
    m.data.swap(d);
    setStatus(st, r.comm, m.src, m.tag, m.n);
    ev("recvdone", m.id, m.n);
    observe(VMPI_RECV, r.comm, m.tag, r.rbuf, m.n);
    break;
  }
  case K_COLL: collFinish(r); break;
  case K_RMA: rmaComplete(r); break;
  }
  freeReq(id);
}

// --- collectives ---------------------------------------------------------------
std::shared_ptr<Coll> join(int comm, char const* type, int root, size_t n, int dt, int op,
  void const* in, size_t inbytes, int color = 0, int key = 0) {
  auto& c = C(comm);
  if (comm == MPI_COMM_SELF) bad("collective on MPI_COMM_SELF");
  g_res->colls++;
  uint64_t s = c.seq[g_cur]++;
  auto& p = c.colls[s];
  if (not p) {
    p = std::make_shared<Coll>();
    p->type = type; p->root = root; p->n = n; p->dt = dt; p->op = op; p->owner = g_cur;
  } else if (p->type != type or p->root != root or p->n != n or p->dt != dt or p->op != op) {
    char b[400];
    snprintf(b, sizeof b, "collective number %lu on communicator %d does not match across nodes: node %d calls %s(root %d, %zu bytes, op %d) but node %d called %s(root %d, %zu bytes, op %d)",
      s, comm, g_cur, type, root, n, op, p->owner, p->type.c_str(), p->root, p->n, p->op);
    fail("mpi-collective-mismatch", b);
  }
  auto x = p;
  ev("coll", hashStr(type), comm, s, n);
  if (in) x->in[g_cur].assign((char const*)in, (char const*)in + inbytes);
  x->ck[g_cur] = {color, key};
  x->arrived |= 1ull << g_cur;
  x->count++;
  bool all = x->count == (int)c.ranks.size();
  if (x->type == "bcast") {
    // the root's data reaches whoever has arrived; the root need not wait
    if (g_cur == c.ranks[root]) { x->out = x->in[g_cur]; }
    if ((x->arrived >> c.ranks[root]) & 1) {
      for (int w : c.ranks) {
        if (((x->arrived >> w) & 1) and not x->done.count(w)) {
          x->done[w] = g_now + 500 + slow();
          wakeAt(x->done[w], w);
        }
      }
    }
  } else if (all) {
    for (int w : c.ranks) { x->done[w] = g_now + 500 + slow(); wakeAt(x->done[w], w); }
  }
  if (all) {
    x->complete = true;
    c.colls.erase(s);
    progress();
  }
  return x;
}
void waitColl(std::shared_ptr<Coll> x, char const* what) {
  int me = g_cur;
  block([x, me] { auto it = x->done.find(me); return it != x->done.end() and it->second <= g_now; }, what);
}
void collFinish(Req& r) {
  if (r.coll->type == "bcast" and r.cbuf) memcpy(r.cbuf, r.coll->out.data(), r.cbytes);
  ev("colldone", hashStr(r.coll->type.c_str()));
}

template <class T> T applyT(T a, T b, int op) {
  switch (op) {
  case MPI_SUM: return (T)(a + b);
  case MPI_PROD: return (T)(a * b);
  case MPI_MAX: return a > b ? a : b;
  case MPI_MIN: return a < b ? a : b;
  case MPI_LAND: return (T)(a and b);
  case MPI_LOR: return (T)(a or b);
  case MPI_LXOR: return (T)(!a != !b);
  case MPI_REPLACE: return b;
  case MPI_NO_OP: return a;
  }
  return a;
}
template <class T> T applyI(T a, T b, int op) {
  switch (op) {
  case MPI_BAND: return (T)(a & b);
  case MPI_BOR: return (T)(a | b);
  case MPI_BXOR: return (T)(a ^ b);
  }
  return applyT<T>(a, b, op);
}
template <class T> void vec(void* a, void const* b, size_t n, int op, bool integral) {
  for (size_t i = 0; i < n; i++) {
    T x, y;
    memcpy(&x, (char*)a + i * sizeof(T), sizeof(T));
    memcpy(&y, (char const*)b + i * sizeof(T), sizeof(T));
    if constexpr (std::is_integral_v<T>) x = applyI<T>(x, y, op); else x = applyT<T>(x, y, op);
    memcpy((char*)a + i * sizeof(T), &x, sizeof(T));
  }
}
void applyOp(void* a, void const* b, size_t n, int dt, int op) {
  switch (dt) {
  case (1 << 8) | 1: vec<int8_t>(a, b, n, op, true); break;
  case (2 << 8) | 1: vec<uint8_t>(a, b, n, op, true); break;
  case (1 << 8) | 2: vec<int16_t>(a, b, n, op, true); break;
  case (2 << 8) | 2: vec<uint16_t>(a, b, n, op, true); break;
  case (1 << 8) | 4: vec<int32_t>(a, b, n, op, true); break;
  case (2 << 8) | 4: vec<uint32_t>(a, b, n, op, true); break;
  case (1 << 8) | 8: vec<int64_t>(a, b, n, op, true); break;
  case (2 << 8) | 8: vec<uint64_t>(a, b, n, op, true); break;
  case (3 << 8) | 4: vec<float>(a, b, n, op, false); break;
  case (3 << 8) | 8: vec<double>(a, b, n, op, false); break;
  case (3 << 8) | 16: vec<long double>(a, b, n, op, false); break;
  default: bad("unknown datatype", dt);
  }
}

// --- one-sided -----------------------------------------------------------------
enum RK { R_PUT, R_GET, R_ACC, R_FOP };
} // namespace

namespace {
struct RmaOp {
  RK k; int win, origin, target; size_t off, n; int dt, op;
  void* obuf; void* rbuf; bytes_t data; bool captured = false, applied = false, returned = false;
  bytes_t result;
};
struct WinPart { char* base = nullptr; size_t size = 0; int unit = 1; };
struct Win {
  int comm = 0;
  std::map<int, WinPart> part;                 // by world rank
  std::map<int, std::vector<std::shared_ptr<RmaOp>>> pend;  // by origin
  std::map<int, int> excl;                     // target -> holder
  std::map<int, std::set<int>> shared;         // target -> holders
  std::map<int, std::map<int, int>> held;      // origin -> target -> type
  std::set<int> fenced, all;
  uint64_t freed = 0;
};
std::deque<Win> g_wins(1);

Win& W(int w) {
  if (w <= 0 or w >= (int)g_wins.size()) bad("invalid window", w);
  if ((g_wins[w].freed >> g_cur) & 1) bad("window used after free", w);
  return g_wins[w];
}
void rmaCapture(RmaOp& o) {
  if (o.captured or o.k == R_GET) return;
  o.captured = true;
  o.data.assign((char*)o.obuf, (char*)o.obuf + o.n);
}
void rmaApply(RmaOp& o) {
  if (o.applied) return;
  o.applied = true;
  auto& p = g_wins[o.win].part[o.target];
  char* t = p.base + o.off;
  rmaCapture(o);
  switch (o.k) {
  case R_PUT: memcpy(t, o.data.data(), o.n); break;
  case R_GET: o.result.assign(t, t + o.n); break;
  case R_FOP:
    o.result.assign(t, t + o.n);
    applyOp(t, o.data.data(), o.n / tsize(o.dt), o.dt, o.op);
    break;
  case R_ACC: applyOp(t, o.data.data(), o.n / tsize(o.dt), o.dt, o.op); break;
  }
  ev("rma", o.k, o.target, o.off, o.n);
  orderEv(7000 + o.k, o.origin * 64 + o.target, o.off);
}
void rmaReturn(RmaOp& o) {
  rmaApply(o);
  if (o.returned) return;
  o.returned = true;
  if (o.k == R_GET or o.k == R_FOP) memcpy(o.rbuf, o.result.data(), o.n);
}
// complete the pending operations of `origin` (to `target`, or all: -1)
void rmaFlush(Win& w, int origin, int target, bool local) {
  auto& v = w.pend[origin];
  // permute, keeping accumulates of one origin in order
  std::vector<std::shared_ptr<RmaOp>> todo, keep, accs;
  for (auto& o : v) (target < 0 or o->target == target ? todo : keep).push_back(o);
  if (local) {
    for (auto& o : todo) {
      if (o->k == R_GET or o->k == R_FOP) rmaReturn(*o); else rmaCapture(*o);
      if (not o->applied and not enabled(VF_RMA)) rmaApply(*o);
    }
    std::vector<std::shared_ptr<RmaOp>> rest;
    for (auto& o : v) if (not o->applied) rest.push_back(o);
    v = rest;
    return;
  }
  if (enabled(VF_RMA) and todo.size() > 1) {
    for (auto& o : todo) if (o->k >= R_ACC) accs.push_back(o);
    for (size_t i = todo.size() - 1; i > 0; i--) std::swap(todo[i], todo[pick(VF_RMA, i + 1)]);
    size_t a = 0;
    for (auto& o : todo) if (o->k >= R_ACC) o = accs[a++];
    fired(VF_RMA);
  }
  for (auto& o : todo) rmaReturn(*o);
  v = keep;
}
std::shared_ptr<RmaOp> rmaIssue(RK k, void const* buf, void* rbuf, int count, MPI_Datatype t, int target, MPI_Aint disp, MPI_Op op, MPI_Win win) {
  auto& w = W(win);
  int tw = toWorld(w.comm, target);
  auto& p = w.part[tw];
  auto o = std::make_shared<RmaOp>();
  g_res->rma++;
  o->k = k; o->win = win; o->origin = g_cur; o->target = tw; o->off = (size_t)disp * p.unit;
  o->n = (size_t)count * tsize(t); o->dt = t; o->op = op; o->obuf = const_cast<void*>(buf); o->rbuf = rbuf;
  if (o->off + o->n > p.size) {
    char b[200];
    snprintf(b, sizeof b, "node %d: one-sided access to bytes [%zu,%zu) of node %d's window of %zu bytes", g_cur, o->off, o->off + o->n, tw, p.size);
    fail("mpi-rma-range", b);
  }
  if (not w.held[g_cur].count(tw) and not w.all.count(g_cur) and not w.fenced.count(g_cur)) bad("one-sided access outside an access epoch", win, tw);
  bool late = chance(VF_RMA, 0.2 + 0.8 * rate(VF_RMA));
  auto& v = w.pend[g_cur];
  bool anyacc = false;
  for (auto& q : v) if (q->k >= R_ACC) anyacc = true;
  if (not late and not (anyacc and k >= R_ACC)) { if (k == R_GET or k == R_FOP) rmaReturn(*o); else rmaApply(*o); }
  else v.push_back(o);
  return o;
}
int rmaReq(std::shared_ptr<RmaOp> o) {
  int id = newReq(K_RMA);
  auto& r = g_reqs[id];
  r.rma = o;
  r.done_at = g_now + 300 + slow(VF_RMA) + slow();
  wakeAt(r.done_at, g_cur);
  return id;
}
void rmaComplete(Req& r) {
  // request completion is local completion
  auto& o = *r.rma;
  if (o.k == R_GET or o.k == R_FOP) rmaReturn(o); else rmaCapture(o);
  auto& v = g_wins[o.win].pend[r.owner];
  if (o.applied) v.erase(std::remove_if(v.begin(), v.end(), [&](auto& q) { return q.get() == &o; }), v.end());
}
} // namespace

namespace sim {

void mpiInit(int n) {
  g_comms.resize(3);
  for (int i = 0; i < n; i++) g_comms[MPI_COMM_WORLD].ranks.push_back(i);
  g_comms[MPI_COMM_SELF].ranks = {0};
  if (enabled(VF_JITTER)) g_tag_reorder = mix(g_cfg.seed, 0x7A67) % 4 == 0;
}
std::string mpiStateDump() {
  std::string s;
  char b[200];
  for (int i = 0; i < g_n; i++) {
    snprintf(b, sizeof b, "{node %d: %zu in flight, %zu unmatched, %zu posted receives} ", i,
      N[i].inflight.size(), N[i].unexpected.size(), N[i].posted.size());
    s += b;
  }
  return s;
}
void mpiFinalCheck() {
  for (int i = 0; i < g_n; i++) {
    if (N[i].inited and not N[i].finalized) continue;
    size_t left = N[i].inflight.size() + N[i].unexpected.size();
    if (left != 0) {
      auto m = N[i].inflight.empty() ? N[i].unexpected.front() : N[i].inflight.top();
      char b[256];
      snprintf(b, sizeof b, "%zu message(s) for node %d were never received after every node finished (first: from node %d, tag %d, %zu bytes)",
        left, i, m->src, m->tag, m->n);
      fail("lost-message", b);
    }
  }
}

} // namespace sim

extern "C" {

void vsim_mpi_observe(vsim_mpi_observer fn) { g_obs[g_cur] = fn; }
int vsim_mpi_open(void) {
  int n = 0;
  for (auto& r : g_reqs) if (r.active and r.owner == g_cur and r.kind != K_RECV) n++;
  return n;
}
int MPI_Init(int*, char***) { if (N[g_cur].inited) bad("MPI_Init twice"); N[g_cur].inited = true; step(true); return 0; }
int MPI_Init_thread(int* a, char*** b, int, int* p) { if (p) *p = MPI_THREAD_MULTIPLE; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { *f = N[g_cur].inited; return 0; }
int MPI_Finalized(int* f) { *f = N[g_cur].finalized; return 0; }
int MPI_Finalize(void) {
  if (N[g_cur].finalized) bad("MPI_Finalize twice");
  auto x = join(MPI_COMM_WORLD, "finalize", 0, 0, 0, 0, nullptr, 0);
  waitColl(x, "MPI_Finalize");
  N[g_cur].finalized = true;
  return 0;
}
int MPI_Abort(MPI_Comm, int code) {
  char b[100];
  snprintf(b, sizeof b, "node %d called MPI_Abort(%d)", g_cur, code);
  fail("abort", b);
}
double MPI_Wtime(void) { g_now += 20; return g_cur < 0 ? 0 : clockOf(g_cur); }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "simnode"); *n = 7; return 0; }
int MPI_Error_string(int c, char* s, int* n) { *n = sprintf(s, "simulated MPI error %d", c); return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { C(c); *r = fromWorld(c, g_cur); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = (int)C(c).ranks.size(); return 0; }

static int newComm(std::vector<int> const& v) {
  g_comms.emplace_back();
  g_comms.back().ranks = v;
  return (int)g_comms.size() - 1;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) {
  auto x = join(c, "comm_dup", 0, 0, 0, 0, nullptr, 0);
  if (x->complete) { int id = newComm(C(c).ranks); for (int w : C(c).ranks) x->res[w] = id; }
  waitColl(x, "MPI_Comm_dup");
  *out = x->res[g_cur];
  return 0;
}
int MPI_Comm_free(MPI_Comm* c) {
  auto& k = C(*c);
  if (*c <= 2) bad("freeing a predefined communicator");
  k.freed |= 1ull << g_cur;
  *c = MPI_COMM_NULL;
  step(true);
  return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  auto x = join(c, "comm_split", 0, 0, 0, 0, nullptr, 0, color, key);
  if (x->complete) {
    std::map<int, std::vector<std::pair<std::pair<int, int>, int>>> by;
    int i = 0;
    for (int w : C(c).ranks) { auto ck = x->ck[w]; by[ck.first].push_back({{ck.second, i++}, w}); }
    for (auto& e : by) {
      if (e.first == MPI_UNDEFINED) { for (auto& m : e.second) x->res[m.second] = MPI_COMM_NULL; continue; }
      std::sort(e.second.begin(), e.second.end());
      std::vector<int> v;
      for (auto& m : e.second) v.push_back(m.second);
      int id = newComm(v);
      for (int w : v) x->res[w] = id;
    }
  }
  waitColl(x, "MPI_Comm_split");
  *out = x->res[g_cur];
  return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* out) {
  // simulated hosts: consecutive nodes share one, the size depends on the seed
  int per = 1 + (int)(mix(g_cfg.seed, 0x4057) % 4);
  return MPI_Comm_split(c, g_cur / per, key, out);
}
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) {
  g_groups.push_back(Group{C(c).ranks});
  *g = (int)g_groups.size() - 1;
  return 0;
}
static std::map<std::string, std::shared_ptr<Coll>> g_cg;
static std::map<std::string, std::map<int, uint64_t>> g_cg_seq;
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm* out) {
  C(c);
  auto v = g_groups.at(g).ranks;
  std::string k = std::to_string(c) + "/" + std::to_string(tag);
  for (int w : v) k += "," + std::to_string(w);
  bool member = std::find(v.begin(), v.end(), g_cur) != v.end();
  if (not member) { *out = MPI_COMM_NULL; return 0; }
  auto s = g_cg_seq[k][g_cur]++;
  auto& p = g_cg[k + "#" + std::to_string(s)];
  if (not p) p = std::make_shared<Coll>();
  auto x = p;
  x->count++;
  g_res->colls++;
  ev("create_group", hashStr(k.c_str()), s);
  if (x->count == (int)v.size()) {
    int id = newComm(v);
    for (int w : v) { x->res[w] = id; x->done[w] = g_now + 500 + slow(); wakeAt(x->done[w], w); }
    progress();
  }
  waitColl(x, "MPI_Comm_create_group");
  *out = x->res[g_cur];
  return 0;
}
int MPI_Comm_get_attr(MPI_Comm c, int key, void* v, int* flag) {
  C(c);
  static int ub;
  ub = g_tag_ub;
  if (key == MPI_TAG_UB) { *(int**)v = &ub; *flag = 1; } else *flag = 0;
  return 0;
}
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler* e) { *e = 7; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) { C(c); return 0; }
int MPI_Errhandler_free(MPI_Errhandler* e) { *e = 0; return 0; }
int MPI_Group_incl(MPI_Group g, int n, int const* r, MPI_Group* out) {
  Group x;
  for (int i = 0; i < n; i++) x.ranks.push_back(g_groups.at(g).ranks.at(r[i]));
  g_groups.push_back(x);
  *out = (int)g_groups.size() - 1;
  return 0;
}
int MPI_Group_size(MPI_Group g, int* n) { *n = (int)g_groups.at(g).ranks.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int* r) {
  auto& v = g_groups.at(g).ranks;
  auto it = std::find(v.begin(), v.end(), g_cur);
  *r = it == v.end() ? MPI_UNDEFINED : (int)(it - v.begin());
  return 0;
}
int MPI_Group_free(MPI_Group* g) { *g = 0; return 0; }

int MPI_Isend(void const* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  *r = isend(b, n, t, d, tag, c, false);
  step(true);
  return 0;
}
int MPI_Issend(void const* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  *r = isend(b, n, t, d, tag, c, true);
  step(true);
  return 0;
}
int MPI_Send(void const* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  MPI_Request r;
  MPI_Isend(b, n, t, d, tag, c, &r);
  return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* out) {
  int id = newReq(K_RECV);
  auto& r = g_reqs[id];
  r.rbuf = b; r.rcap = (size_t)n * tsize(t); r.comm = c; r.tag = tag;
  r.src = s == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : toWorld(c, s);
  ev("irecv", (uint64_t)r.src, tag, r.rcap);
  observe(VMPI_POST, c, tag, b, r.rcap);
  arrivals(g_cur);
  auto& u = N[g_cur].unexpected;
  bool hit = false;
  for (auto it = u.begin(); it != u.end(); ++it) {
    if (matches(**it, c, r.src, tag)) {
      auto m = *it;
      u.erase(it);
      match(m, id);
      hit = true;
      break;
    }
  }
  if (not hit) N[g_cur].posted.push_back(id);
  *out = id;
  step(true);
  return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  MPI_Request r;
  MPI_Irecv(b, n, t, s, tag, c, &r);
  return MPI_Wait(&r, st);
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  C(c);
  observe(VMPI_PROBE, c, tag, nullptr, 0);
  arrivals(g_cur);
  int sw = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : toWorld(c, src);
  MsgP found;
  uint64_t seen = 0;
  std::vector<MsgP> heads;
  for (auto& m : N[g_cur].unexpected) {
    if (matches(*m, c, sw, tag) and not ((seen >> m->src) & 1)) {
      seen |= 1ull << m->src;
      heads.push_back(m);
    }
  }
  if (not heads.empty()) {
    found = heads[0];
    if (heads.size() > 1 and enabled(VF_ANYSRC)) { fired(VF_ANYSRC); found = heads[pick(VF_ANYSRC, heads.size())]; }
  }
  if (found and chance(VF_SPURIOUS, 0.3 * rate(VF_SPURIOUS))) { found = nullptr; wakeAt(g_now + 300, g_cur); }
  *flag = found ? 1 : 0;
  if (found) setStatus(st, c, found->src, found->tag, found->n);
  step((bool)found);
  return 0;
}
int MPI_Get_count(MPI_Status const* s, MPI_Datatype t, int* n) { *n = (int)(s->count_ / (long long)tsize(t)); return 0; }

static bool test1(MPI_Request* r, MPI_Status* st) {
  if (*r == MPI_REQUEST_NULL) return true;
  Q(*r);
  if (not ready(*r)) return false;
  if (chance(VF_SPURIOUS, 0.3 * rate(VF_SPURIOUS))) { wakeAt(g_now + 300, g_cur); return false; }
  finish(*r, st);
  *r = MPI_REQUEST_NULL;
  return true;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) {
  arrivals(g_cur);
  bool null = *r == MPI_REQUEST_NULL;
  if (not null) {
    auto& q = Q(*r);
    if (q.kind == K_RECV) observe(VMPI_TEST_RECV, q.comm, q.tag, nullptr, 0);
    else if (q.kind == K_SEND) observe(VMPI_TEST_SEND, q.msg->comm, q.msg->tag, nullptr, 0);
  }
  *flag = test1(r, st);
  step(*flag and not null);
  return 0;
}
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st) {
  arrivals(g_cur);
  bool all = true, any = false;
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { Q(r[i]); any = true; if (not ready(r[i])) all = false; }
  if (all and any and chance(VF_SPURIOUS, 0.3 * rate(VF_SPURIOUS))) { all = false; wakeAt(g_now + 300, g_cur); }
  if (all) for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { finish(r[i], st ? &st[i] : st); r[i] = MPI_REQUEST_NULL; }
  *flag = all;
  step(all and any);
  return 0;
}
int MPI_Testany(int n, MPI_Request* r, int* idx, int* flag, MPI_Status* st) {
  arrivals(g_cur);
  bool any = false;
  for (int i = 0; i < n; i++) {
    if (r[i] == MPI_REQUEST_NULL) continue;
    any = true;
    if (test1(&r[i], st)) { *idx = i; *flag = 1; step(true); return 0; }
  }
  *idx = MPI_UNDEFINED;
  *flag = not any;
  step(false);
  return 0;
}
int MPI_Testsome(int n, MPI_Request* r, int* cnt, int* idx, MPI_Status* st) {
  arrivals(g_cur);
  int k = 0;
  bool any = false;
  for (int i = 0; i < n; i++) {
    if (r[i] == MPI_REQUEST_NULL) continue;
    any = true;
    if (test1(&r[i], st ? &st[k] : st)) idx[k++] = i;
  }
  *cnt = any ? k : MPI_UNDEFINED;
  step(k > 0);
  return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
  if (*r == MPI_REQUEST_NULL) return 0;
  Q(*r);
  int id = *r, me = g_cur;
  block([id, me] { arrivals(me); return ready(id); }, "MPI_Wait");
  finish(id, st);
  *r = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) {
  for (int i = 0; i < n; i++) MPI_Wait(&r[i], st ? &st[i] : st);
  return 0;
}
int MPI_Cancel(MPI_Request* r) {
  auto& q = Q(*r);
  if (q.kind == K_RECV and not q.msg) {
    auto& p = N[g_cur].posted;
    p.erase(std::remove(p.begin(), p.end(), *r), p.end());
    q.msg = std::make_shared<Msg>();
    q.msg->n = 0;
    q.msg->captured = true;
    q.done_at = g_now;
  }
  return 0;
}
int MPI_Request_free(MPI_Request* r) { Q(*r); bad("MPI_Request_free is not simulated"); }

int MPI_Barrier(MPI_Comm c) { auto x = join(c, "barrier", 0, 0, 0, 0, nullptr, 0); waitColl(x, "MPI_Barrier"); return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) {
  auto x = join(c, "ibarrier", 0, 0, 0, 0, nullptr, 0);
  *r = newReq(K_COLL);
  g_reqs[*r].coll = x;
  step(true);
  return 0;
}
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) {
  size_t k = (size_t)n * tsize(t);
  bool am = fromWorld(c, g_cur) == root;
  auto x = join(c, "bcast", root, k, t, 0, am ? b : nullptr, am ? k : 0);
  *r = newReq(K_COLL);
  auto& q = g_reqs[*r];
  q.coll = x;
  if (not am) { q.cbuf = b; q.cbytes = k; }
  step(true);
  return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  MPI_Request r;
  MPI_Ibcast(b, n, t, root, c, &r);
  return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
static bytes_t reduceAll(Coll& x, int comm, size_t n, MPI_Datatype t, MPI_Op op) {
  auto& rk = g_comms[comm].ranks;
  // floating-point reductions may be evaluated in any order
  bytes_t acc = x.in[rk[0]];
  for (size_t i = 1; i < rk.size(); i++) applyOp(acc.data(), x.in[rk[i]].data(), n, t, op);
  return acc;
}
int MPI_Allreduce(void const* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  if (s == MPI_IN_PLACE) s = r;
  size_t k = (size_t)n * tsize(t);
  auto x = join(c, "allreduce", 0, k, t, op, s, k);
  waitColl(x, "MPI_Allreduce");
  auto a = reduceAll(*x, c, n, t, op);
  memcpy(r, a.data(), k);
  return 0;
}
int MPI_Reduce(void const* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  if (s == MPI_IN_PLACE) s = r;
  size_t k = (size_t)n * tsize(t);
  auto x = join(c, "reduce", root, k, t, op, s, k);
  waitColl(x, "MPI_Reduce");
  if (fromWorld(c, g_cur) == root) { auto a = reduceAll(*x, c, n, t, op); memcpy(r, a.data(), k); }
  return 0;
}
static int gatherImpl(char const* nm, void const* s, int sn, MPI_Datatype st, void* r, int root, MPI_Comm c) {
  size_t k = (size_t)sn * tsize(st);
  auto x = join(c, nm, root < 0 ? 0 : root, k, st, 0, s, k);
  waitColl(x, nm);
  if (root < 0 or fromWorld(c, g_cur) == root) {
    char* p = (char*)r;
    for (int w : g_comms[c].ranks) { memcpy(p, x->in[w].data(), k); p += k; }
  }
  return 0;
}
int MPI_Gather(void const* s, int sn, MPI_Datatype st, void* r, int, MPI_Datatype, int root, MPI_Comm c) {
  return gatherImpl("gather", s, sn, st, r, root, c);
}
int MPI_Allgather(void const* s, int sn, MPI_Datatype st, void* r, int, MPI_Datatype, MPI_Comm c) {
  return gatherImpl("allgather", s, sn, st, r, -1, c);
}

int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { *(void**)p = malloc(n ? (size_t)n : 1); return 0; }
int MPI_Free_mem(void* p) { free(p); return 0; }
int MPI_Win_create(void* base, MPI_Aint size, int unit, MPI_Info, MPI_Comm c, MPI_Win* out) {
  auto x = join(c, "win_create", 0, 0, 0, 0, nullptr, 0);
  WinPart p{(char*)base, (size_t)size, unit};
  bytes_t b((char*)&p, (char*)&p + sizeof p);
  x->in[g_cur] = b;
  if (x->complete) {
    g_wins.emplace_back();
    auto& w = g_wins.back();
    w.comm = c;
    for (int r : C(c).ranks) { WinPart q; memcpy(&q, x->in[r].data(), sizeof q); w.part[r] = q; x->res[r] = (int)g_wins.size() - 1; }
  }
  waitColl(x, "MPI_Win_create");
  *out = x->res[g_cur];
  return 0;
}
int MPI_Win_free(MPI_Win* w) {
  auto& q = W(*w);
  if (not q.held[g_cur].empty()) bad("MPI_Win_free while holding a lock");
  auto x = join(q.comm, "win_free", *w, 0, 0, 0, nullptr, 0);
  waitColl(x, "MPI_Win_free");
  rmaFlush(q, g_cur, -1, false);
  q.freed |= 1ull << g_cur;
  *w = MPI_WIN_NULL;
  return 0;
}
int MPI_Win_lock(int type, int rank, int, MPI_Win win) {
  auto& w = W(win);
  int t = toWorld(w.comm, rank), me = g_cur;
  if (w.held[me].count(t)) bad("window locked twice by one node", win, t);
  Win* p = &w;
  auto ok = [p, t, type] {
    if (p->excl.count(t)) return false;
    return type == MPI_LOCK_SHARED or p->shared[t].empty();
  };
  do { block(ok, "MPI_Win_lock"); } while (not ok());
  if (type == MPI_LOCK_EXCLUSIVE) w.excl[t] = me; else w.shared[t].insert(me);
  w.held[me][t] = type;
  ev("winlock", win, t, type);
  step(true);
  return 0;
}
int MPI_Win_unlock(int rank, MPI_Win win) {
  auto& w = W(win);
  int t = toWorld(w.comm, rank);
  if (not w.held[g_cur].count(t)) bad("unlock without lock", win, t);
  rmaFlush(w, g_cur, t, false);
  if (w.held[g_cur][t] == MPI_LOCK_EXCLUSIVE) w.excl.erase(t); else w.shared[t].erase(g_cur);
  w.held[g_cur].erase(t);
  for (int i = 0; i < g_n; i++) wake(i);
  ev("winunlock", win, t);
  step(true);
  return 0;
}
int MPI_Win_lock_all(int, MPI_Win win) {
  auto& w = W(win);
  Win* p = &w;
  auto ok = [p] { return p->excl.empty(); };
  do { block(ok, "MPI_Win_lock_all"); } while (not ok());
  w.all.insert(g_cur);
  for (int t : g_comms[w.comm].ranks) w.shared[t].insert(g_cur);
  step(true);
  return 0;
}
int MPI_Win_unlock_all(MPI_Win win) {
  auto& w = W(win);
  rmaFlush(w, g_cur, -1, false);
  w.all.erase(g_cur);
  for (int t : g_comms[w.comm].ranks) w.shared[t].erase(g_cur);
  for (int i = 0; i < g_n; i++) wake(i);
  step(true);
  return 0;
}
int MPI_Win_flush(int r, MPI_Win win) { auto& w = W(win); rmaFlush(w, g_cur, toWorld(w.comm, r), false); step(true); return 0; }
int MPI_Win_flush_local(int r, MPI_Win win) { auto& w = W(win); rmaFlush(w, g_cur, toWorld(w.comm, r), true); step(true); return 0; }
int MPI_Win_flush_all(MPI_Win win) { rmaFlush(W(win), g_cur, -1, false); step(true); return 0; }
int MPI_Win_flush_local_all(MPI_Win win) { rmaFlush(W(win), g_cur, -1, true); step(true); return 0; }
int MPI_Win_sync(MPI_Win win) { W(win); step(true); return 0; }
int MPI_Win_fence(int as, MPI_Win win) {
  auto& w = W(win);
  rmaFlush(w, g_cur, -1, false);
  auto x = join(w.comm, "win_fence", win, 0, 0, 0, nullptr, 0);
  waitColl(x, "MPI_Win_fence");
  if (as & MPI_MODE_NOSUCCEED) w.fenced.erase(g_cur); else w.fenced.insert(g_cur);
  return 0;
}
int MPI_Put(void const* b, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Win w) {
  rmaIssue(R_PUT, b, nullptr, n, t, r, d, 0, w);
  step(true);
  return 0;
}
int MPI_Get(void* b, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Win w) {
  rmaIssue(R_GET, nullptr, b, n, t, r, d, 0, w);
  step(true);
  return 0;
}
int MPI_Rput(void const* b, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Win w, MPI_Request* q) {
  *q = rmaReq(rmaIssue(R_PUT, b, nullptr, n, t, r, d, 0, w));
  step(true);
  return 0;
}
int MPI_Rget(void* b, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Win w, MPI_Request* q) {
  *q = rmaReq(rmaIssue(R_GET, nullptr, b, n, t, r, d, 0, w));
  step(true);
  return 0;
}
int MPI_Accumulate(void const* b, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Op op, MPI_Win w) {
  rmaIssue(R_ACC, b, nullptr, n, t, r, d, op, w);
  step(true);
  return 0;
}
int MPI_Raccumulate(void const* b, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Op op, MPI_Win w, MPI_Request* q) {
  *q = rmaReq(rmaIssue(R_ACC, b, nullptr, n, t, r, d, op, w));
  step(true);
  return 0;
}
int MPI_Fetch_and_op(void const* b, void* res, MPI_Datatype t, int r, MPI_Aint d, MPI_Op op, MPI_Win w) {
  rmaIssue(R_FOP, b, res, 1, t, r, d, op, w);
  step(true);
  return 0;
}

} // extern "C"
