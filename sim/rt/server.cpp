// lattesim server: a zygote.  Reads requests on fd 0, forks one child per simulated process,
// schedules them one at a time, answers on fd 1.  Single-threaded.
#include "simrt.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <grp.h>
#include <iostream>
#include <malloc.h>
#include <execinfo.h>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
using namespace sim;

struct ProgEntry { const char *name; main_fn fn; };
extern ProgEntry prog_table[];
namespace sim {
main_fn find_program(const string &n) {
  for (ProgEntry *p = prog_table; p->name; p++) if (n == p->name) return p->fn;
  return nullptr;
}
int run_program(const string &name, const vector<string> &args) {
  main_fn fn = find_program(name);
  if (!fn) _exit(98);
  // argv must be writable, NULL-terminated, and live as long as the process
  int argc = 1 + args.size();
  char **argv = (char **) calloc(argc + 1, sizeof(char *));
  argv[0] = strdup((name.find("database") == string::npos ? "/sim/bin/" + name : name).c_str()); // these keep a log named after themselves
  for (size_t i = 0; i < args.size(); i++) argv[i + 1] = strdup(args[i].c_str());
  return fn(argc, argv);
}
}

static string rbuf;
static bool read_line(string &out) {
  for (;;) {
    size_t i = rbuf.find('\n');
    if (i != string::npos) { out = rbuf.substr(0, i); rbuf.erase(0, i + 1); return true; }
    char b[65536]; ssize_t n = syscall(SYS_read, 0, b, sizeof b);
    if (n <= 0) return false;
    rbuf.append(b, n);
  }
}
static string unesc(const string &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size()) { r += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
    else r += s[i];
  }
  return r;
}
static void put(const string &s) {
  size_t o = 0;
  while (o < s.size()) { ssize_t n = syscall(SYS_write, 1, s.data() + o, s.size() - o); if (n <= 0) _exit(3); o += n; }
}
static string slurp(const string &p) {
  string r; FILE *f = fopen(p.c_str(), "r"); if (!f) return r;
  char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) { r.append(b, n); if (r.size() > (4u << 20)) break; }
  fclose(f); return r;
}

struct Proc {
  Plan plan; Shared *sh = nullptr; pid_t pid = -1; int fd = -1; bool blocked = false, done = false; int status = 0;
  string out, err; struct rusage ru;
};

static string world_root;

static Shared *shm_pool[16];

static void backtrace_handler(int s) {
  void *a[60]; int n = backtrace(a, 60); backtrace_symbols_fd(a, n, 2); signal(s, SIG_DFL); raise(s);
}

static void start(Proc &p, int idx, bool sched, vector<Proc> &all) {
  if (!shm_pool[idx]) shm_pool[idx] = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  p.sh = shm_pool[idx];
  memset((void *) p.sh, 0, offsetof(Shared, log));
  int sv[2] = { -1, -1 };
  if (sched && socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) _exit(4);
  p.out = world_root + "/.out" + to_string(idx); p.err = world_root + "/.err" + to_string(idx);
  string inp = world_root + "/.in" + to_string(idx);
  { FILE *f = fopen(inp.c_str(), "w"); if (f) { fwrite(p.plan.stdin_text.data(), 1, p.plan.stdin_text.size(), f); fclose(f); } }
  p.pid = fork();
  if (p.pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    if (getenv("LATTESIM_BT")) {
      stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 18; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
      for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGABRT }) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = backtrace_handler; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
    }
    for (auto &q : all) if (q.fd >= 0) ::close(q.fd);
    if (sv[0] >= 0) ::close(sv[0]);
    int sfd = sv[1];
    if (sfd >= 0) { int hi = fcntl(sfd, F_DUPFD_CLOEXEC, 900); ::close(sfd); sfd = hi; }
    int fi = ::open(inp.c_str(), O_RDONLY), fo = ::open(p.out.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644), fe = ::open(p.err.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
    for (int i = 3; i < 40; i++) if (i != sfd) ::close(i);
    string cwd = world_root + "/" + p.plan.cwd;
    if (chdir(cwd.c_str())) _exit(97);
    child_setup(p.plan, p.sh, world_root, sfd);
    if (sfd >= 0) { char c = 'y'; if (syscall(SYS_write, sfd, &c, 1) != 1 || syscall(SYS_read, sfd, &c, 1) != 1) _exit(99); }
    int rc = 96;
    // The program's own handling decides what an exception escaping from main means: std::terminate.
    // (no handler and no noexcept function on this stack: the unwinder must not run any destructors)
    rc = run_program(p.plan.prog, p.plan.args);
    exit(rc);
  }
  if (sched) { ::close(sv[1]); p.fd = sv[0]; }
}

static bool wall_out = false;
static void reap(Proc &p, int wall_s) {
  // plain wait with a generous wall-clock backstop (CPU limits do the real work)
  long waited = 0; wall_out = false;
  if (wall_s < 0) { wait4(p.pid, &p.status, 0, &p.ru); p.done = true; return; }
  for (;;) {
    pid_t r = wait4(p.pid, &p.status, WNOHANG, &p.ru);
    if (r == p.pid) break;
    struct timespec ts = { 0, waited < 2000 ? 100000 : 1000000 };
    syscall(SYS_nanosleep, &ts, nullptr); waited += ts.tv_nsec / 1000;
    if (waited > (long) wall_s * 1000000) { kill(-p.pid, SIGKILL); kill(p.pid, SIGKILL); wait4(p.pid, &p.status, 0, &p.ru); wall_out = true; break; }
  }
  p.done = true;
}

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  if (!getenv("LATTESIM_NOASLR")) {
    // one address-space layout for every zygote, so that nothing depends on pointer values
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("LATTESIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  world_root = argv[1];
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGPIPE, SIG_IGN);
  umask(022);
  if (getuid() == 0 && argc > 2) {
    // run as an unprivileged user that owns nothing but the scratch world
    int uid = atoi(argv[2]);
    if (setgroups(0, nullptr) == 0 && setgid(uid) == 0 && setuid(uid) == 0) {}
  }
  string hello = "READY\n"; put(hello);
  mallopt(M_PERTURB, 0x5a);   // fresh and freed memory have contents of our choosing
  // Every request is served by a fresh fork of this pristine process, so that the heap a simulated
  // process starts from does not depend on what was run before.
  for (;;) {
    pid_t h = fork();
    if (h == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); break; }
    int st = 0;
    while (waitpid(h, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return 1;
  }
  string line;
  vector<Proc> procs; vector<int> sched_list; uint64_t sched_seed = 0; bool sched = false; int wall = 120; int sticky = 0;
  while (read_line(line)) {
    size_t sp = line.find(' ');
    string k = line.substr(0, sp), v = sp == string::npos ? "" : line.substr(sp + 1);
    if (k == "proc") { procs.emplace_back(); procs.back().plan.prog = v; continue; }
    if (k == "sched") { sched = true; sched_seed = strtoull(v.c_str(), 0, 10); continue; }
    if (k == "choices") { istringstream is(v); int x; while (is >> x) sched_list.push_back(x); continue; }
    if (k == "sticky") { sticky = atoi(v.c_str()); continue; }
    if (k == "quit") return 7;
    if (k != "go") {
      if (procs.empty()) continue;
      Plan &p = procs.back().plan;
      if (k == "arg") p.args.push_back(unesc(v));
      else if (k == "cwd") p.cwd = unesc(v);
      else if (k == "stdin") p.stdin_text = unesc(v);
      else if (k == "rng") { istringstream is(v); is >> p.rng_mode >> p.rng_seed >> p.rng_prefix; }
      else if (k == "draws") { istringstream is(v); long x; while (is >> x) p.rng_list.push_back(x); }
      else if (k == "fault") {
        istringstream is(v); string name; Fault f; f.op = 0; f.param = 0; is >> f.op >> name >> f.param; f.kind = -1;
        for (int i = 0; i < F_NKINDS; i++) if (name == fault_names[i]) f.kind = i;
        if (f.kind == F_ALLOC) { p.alloc_fail = f.op; p.alloc_sticky = f.param; }
        else if (f.kind >= 0) p.faults.push_back(f);
      }
      else if (k == "pid") p.pid = atoi(v.c_str());
      else if (k == "host") p.host = v;
      else if (k == "clock") { istringstream is(v); is >> p.clock_base_ms >> p.clock_step_us; }
      else if (k == "disk") p.disk_free = atol(v.c_str());
      else if (k == "cpu") p.cpu_limit = atoi(v.c_str());
      else if (k == "maxops") p.max_ops = atol(v.c_str());
      continue;
    }
    string trace;
    if (!sched) {
      for (size_t i = 0; i < procs.size(); i++) { start(procs[i], i, false, procs); reap(procs[i], wall); }
    } else {
      for (size_t i = 0; i < procs.size(); i++) start(procs[i], i, true, procs);
      auto settle = [&](Proc &p) { // wait until p blocks at a step or ends
        char c; ssize_t n = syscall(SYS_read, p.fd, &c, 1);
        if (n == 1) { p.blocked = true; return; }
        reap(p, wall); ::close(p.fd); p.fd = -1;
      };
      for (auto &p : procs) settle(p);
      uint64_t s = sched_seed * 0x9e3779b97f4a7c15ULL + 12345; size_t step = 0; int last = -1;
      for (;;) {
        vector<int> ready; for (size_t i = 0; i < procs.size(); i++) if (!procs[i].done) ready.push_back(i);
        if (ready.empty()) break;
        int pick;
        if (step < sched_list.size()) { pick = sched_list[step]; bool ok = false; for (int r : ready) if (r == pick) ok = true; if (!ok) pick = ready[0]; }
        else if (!sched_list.empty()) pick = ready[0];
        else {
          s ^= s >> 12; s ^= s << 25; s ^= s >> 27; uint64_t r = s * 0x2545F4914F6CDD1DULL;
          bool last_ready = false; for (int x : ready) if (x == last) last_ready = true;
          // "sticky" schedules run long stretches of one process, others switch at every step
          if (last_ready && (int) ((r >> 40) % 100) < sticky) pick = last; else pick = ready[(r >> 8) % ready.size()];
        }
        step++; last = pick; trace += (trace.empty() ? "" : " ") + to_string(pick);
        Proc &p = procs[pick]; p.blocked = false;
        char c = 'g'; if (syscall(SYS_write, p.fd, &c, 1) != 1) { reap(p, wall); ::close(p.fd); p.fd = -1; continue; }
        settle(p);
      }
    }
    ostringstream os;
    os << "RES " << procs.size() << " " << trace.size() << "\n" << trace;
    for (auto &p : procs) {
      string out = slurp(p.out), err = slurp(p.err);
      Shared *h = p.sh;
      double cpu = p.ru.ru_utime.tv_sec + p.ru.ru_utime.tv_usec * 1e-6 + p.ru.ru_stime.tv_sec + p.ru.ru_stime.tv_usec * 1e-6;
      os << "P " << (WIFEXITED(p.status) ? WEXITSTATUS(p.status) : -1) << " " << (WIFSIGNALED(p.status) ? WTERMSIG(p.status) : 0)
         << " " << h->ops << " " << h->draws << " " << h->allocs << " " << h->clock_us << " " << h->escapes << " " << h->ops_exceeded << " " << (long) (cpu * 1e6);
      for (int i = 0; i < F_NKINDS; i++) os << " " << h->fired[i];
      os << " " << h->log_len << " " << out.size() << " " << err.size() << "\n";
      os.write(h->log, h->log_len); os << out << err;
    }
    put(os.str());
    return 0;
  }
  return 7;
}
