// Worker process.  Loads one private copy of the rank library per node, then
// forks a pristine child for every run it is asked to do.
//   vsim <libprefix> <nlibs> <scratch>      (requests on stdin, results on stdout)
#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <random>

using namespace sim;

static std::vector<vsim_entry_fn> g_libs;
static int (*g_lives)(char const*) = nullptr;
static char* g_journal = nullptr;
static uint64_t const kJournal = 4u << 20;

static void ranges(char const* s, std::vector<std::pair<uint64_t, uint64_t>>& out) {
  while (*s) {
    char* e;
    uint64_t a = strtoull(s, &e, 10), b = a + 1;
    if (*e == '-') { b = strtoull(e + 1, &e, 10); }
    out.push_back({a, b});
    if (*e != ',') break;
    s = e + 1;
  }
}
static void parse(char* line) {
  Config c;
  int n = 2;
  char* save = nullptr;
  for (char* t = strtok_r(line, " \n", &save); t; t = strtok_r(nullptr, " \n", &save)) {
    char* v = strchr(t, '=');
    if (not v) continue;
    *v++ = 0;
    std::string k = t;
    if (k == "seed") c.seed = strtoull(v, nullptr, 10);
    else if (k == "workload") c.workload = v;
    else if (k == "ranks") n = atoi(v);
    else if (k == "mask") c.mask = strtoull(v, nullptr, 0);
    else if (k == "horizon") c.horizon = strtoull(v, nullptr, 10);
    else if (k == "calm") ranges(v, c.calm);
    else if (k == "drop") ranges(v, c.drop_ops);
    else if (k == "soft") c.soft_steps = strtoull(v, nullptr, 10);
    else if (k == "hard") c.hard_steps = strtoull(v, nullptr, 10);
    else if (k == "verbose") c.verbose = atoi(v);
    else if (k == "tier") c.tier = atoi(v);
    else if (k == "params") {
      char* s2 = nullptr;
      for (char* p = strtok_r(v, ",", &s2); p; p = strtok_r(nullptr, ",", &s2)) {
        char* q = strchr(p, ':');
        if (q) { *q++ = 0; c.params[p] = strtoll(q, nullptr, 10); }
      }
    }
  }
  g_cfg = c;
  g_n = n;
}

static void jsonStr(std::string& o, char const* s, size_t n) {
  o += '"';
  for (size_t i = 0; i < n and s[i]; i++) {
    unsigned char c = s[i];
    if (c == '"' or c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 or c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  o += '"';
}

static char g_line[65536];
static bool readLine() {
  size_t n = 0;
  while (n < sizeof(g_line) - 1) {
    ssize_t k = read(0, g_line + n, 1);
    if (k <= 0) return false;
    if (g_line[n] == '\n') break;
    n++;
  }
  g_line[n] = 0;
  return true;
}

static void child(char const* rundir) {
  setpgid(0, 0);
  if (chdir(rundir)) _exit(3);
  int fd = open("out.txt", O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
  dup2(fd, 1);
  dup2(fd, 2);
  close(fd);
  int nul = open("/dev/null", O_RDONLY);
  dup2(nul, 0);
  close(nul);
  struct rlimit rl{20, 22};
  setrlimit(RLIMIT_CPU, &rl);
  rl = {256u << 20, 256u << 20};
  setrlimit(RLIMIT_FSIZE, &rl);
  rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl = {12ull << 30, 12ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  parse(g_line);
  if (g_n < 1 or g_n > (int)g_libs.size()) engineError("bad number of nodes");
  g_res->nranks = g_n;
  setvbuf(stdout, nullptr, _IONBF, 0);
  int lives = g_lives ? g_lives(g_cfg.workload.c_str()) : 1;
  if (g_lives) {
    g_journal = (char*)mmap(nullptr, kJournal, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_journal == MAP_FAILED) engineError("mmap of the journal failed");
  }
  for (; g_life + 1 < lives; g_life++) {
    pid_t pid = fork();
    if (pid < 0) engineError("fork of a life failed");
    if (pid == 0) break;
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); }
    bool crashed = WIFEXITED(st) and WEXITSTATUS(st) == kCrashed;
    if (crashed) g_crashes++;
    else if (not WIFEXITED(st) or WEXITSTATUS(st) != 0 or g_res->outcome != 1) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 4);
    g_res->outcome = 0;
    g_res->done_ranks = 0;
  }
  mpiInit(g_n);
  diskInit();
  runAll(std::vector<vsim_entry_fn>(g_libs.begin(), g_libs.begin() + g_n));
  _exit(0);
}

extern "C" int vsim_life(void) { return g_life; }
extern "C" int vsim_crashed(void) { return g_crashes; }
extern "C" void* vsim_journal(uint64_t n) {
  if (n > kJournal or not g_journal) engineError("no journal of this size");
  return g_journal;
}

int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: vsim prefix nlibs scratch\n"); return 2; }
  int p = personality(0xffffffff);
  if (not(p & ADDR_NO_RANDOMIZE)) {
    if (personality(p | ADDR_NO_RANDOMIZE) != -1 and not getenv("VSIM_REEXEC")) {
      setenv("VSIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
    fprintf(stderr, "vsim: cannot turn address randomisation off\n");
    return 2;
  }
  g_res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int nl = atoi(argv[2]);
  for (int i = 0; i < nl; i++) {
    char path[512];
    snprintf(path, sizeof path, "%s%d.so", argv[1], i);
    void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (not h) { fprintf(stderr, "vsim: %s\n", dlerror()); return 2; }
    auto f = (vsim_entry_fn)dlsym(h, "vsim_rank_entry");
    if (not f) { fprintf(stderr, "vsim: no entry in %s\n", path); return 2; }
    g_libs.push_back(f);
    g_lives = (int (*)(char const*))dlsym(h, "vsim_lives");
  }
  // from here on the parent allocates nothing that a child could see
  std::string const rundir = std::string(argv[3]) + "/run";
  while (readLine()) {
    if (not *g_line) continue;
    memset(g_res, 0, sizeof *g_res);
    mkdir(rundir.c_str(), 0755);
    pid_t pid = fork();
    if (pid == 0) child(rundir.c_str());
    int st = 0;
    struct rusage ru{};
    wait4(pid, &st, 0, &ru);
    kill(-pid, SIGKILL);
    // report from a second child, so that this process stays as it was
    pid_t rp = fork();
    if (rp == 0) {
      auto& r = *g_res;
      std::string cls = r.cls, msg = r.msg, tail;
      int fd = open((rundir + "/out.txt").c_str(), O_RDONLY);
      if (fd >= 0) {
        struct stat sb;
        fstat(fd, &sb);
        off_t from = sb.st_size > 3000 ? sb.st_size - 3000 : 0;
        char buf[3001];
        ssize_t k = pread(fd, buf, 3000, from);
        if (k > 0) tail.assign(buf, k);
        close(fd);
      }
      int outcome = r.outcome;
      if (outcome == 0) {
        outcome = 2;
        if (WIFSIGNALED(st)) {
          int s = WTERMSIG(st);
          cls = s == SIGXCPU or s == SIGKILL ? "cpu-hang" : std::string("crash:") + strsignal(s);
          msg = "a node died: " + std::string(strsignal(s));
        } else {
          cls = "exit";
          msg = "a node ended the process with status " + std::to_string(WEXITSTATUS(st));
        }
      }
      std::string o = "{\"outcome\":" + std::to_string(outcome) + ",\"cls\":";
      jsonStr(o, cls.c_str(), cls.size());
      o += ",\"msg\":";
      jsonStr(o, msg.c_str(), msg.size());
      auto num = [&](char const* k, uint64_t v) { o += ",\""; o += k; o += "\":" + std::to_string(v); };
      char hx[40];
      snprintf(hx, sizeof hx, "%016lx", r.hash); o += ",\"hash\":\""; o += hx; o += "\"";
      snprintf(hx, sizeof hx, "%016lx", r.order_hash); o += ",\"order\":\""; o += hx; o += "\"";
      num("steps", r.steps); num("now", r.now); num("msgs", r.msgs); num("bytes", r.bytes);
      num("switches", r.switches); num("colls", r.colls); num("rma", r.rma); num("events", r.events);
      num("mask", r.mask); num("ranks", r.nranks);
      num("cpu_us", ru.ru_utime.tv_sec * 1000000 + ru.ru_utime.tv_usec + ru.ru_stime.tv_sec * 1000000 + ru.ru_stime.tv_usec);
      o += ",\"fired\":[";
      for (int i = 0; i < VF_COUNT; i++) o += (i ? "," : "") + std::to_string(r.fired[i]);
      o += "],\"probes\":{";
      for (int i = 0; i < r.nprobes; i++) {
        if (i) o += ",";
        jsonStr(o, r.probes[i].name, sizeof r.probes[i].name);
        o += ":" + std::to_string(r.probes[i].n);
      }
      o += "}";
      num("nops", r.nops);
      if (outcome != 1 or strstr(g_line, "verbose=1")) {
        o += ",\"params\":{";
        for (int i = 0; i < r.nparams; i++) {
          if (i) o += ",";
          jsonStr(o, r.params[i].name, sizeof r.params[i].name);
          o += ":[" + std::to_string(r.params[i].lo) + "," + std::to_string(r.params[i].hi) + "," + std::to_string(r.params[i].v) + "]";
        }
        o += "}";
      }
      if (outcome != 1) { o += ",\"tail\":"; jsonStr(o, tail.c_str(), tail.size()); }
      o += "}\n";
      size_t off = 0;
      while (off < o.size()) { auto k = write(1, o.data() + off, o.size() - off); if (k <= 0) _exit(1); off += k; }
      if (not strstr(g_line, "keep=1")) execl("/bin/rm", "rm", "-rf", "--one-file-system", "--", rundir.c_str(), (char*)nullptr);
      _exit(0);
    }
    waitpid(rp, &st, 0);
  }
  return 0;
}
