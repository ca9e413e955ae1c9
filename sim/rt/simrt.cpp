#include "simrt.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <new>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <NTL/ZZ.h>

extern char **environ;

namespace sim {

const char *fault_names[F_NKINDS] = {
  "crash", "torn", "eio", "enospc", "short", "emfile", "eacces",
  "t_fail", "t_killed", "t_notfound", "t_forkfail", "t_trunc_ok", "t_trunc_fail", "t_norun_ok",
  "signal", "clock", "alloc" };

bool active = false;
static Shared *S;
static Plan plan;
static std::string world;      // absolute path of the scratch world
static int sched_fd = -1;
static bool in_sim = false;    // recursion guard: operations made by the simulator itself
static bool enospc_sticky = false;
static long local_next_fault = 0;

struct Guard { bool old; Guard() : old(in_sim) { in_sim = true; } ~Guard() { in_sim = old; } };

// ---- PRNG -------------------------------------------------------------------------------
static uint64_t rs[2];
static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static uint64_t next64() {
  uint64_t s1 = rs[0], s0 = rs[1];
  rs[0] = s0; s1 ^= s1 << 23;
  rs[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return rs[1] + s0;
}
// One draw in [0, RAND_MAX]; the mode biases it while the adversarial prefix lasts.
static long draw31() {
  long n = S->draws; S->draws = n + 1;
  if (n < (long) plan.rng_list.size()) return plan.rng_list[n] & 0x7fffffff;
  long u = (long) (next64() >> 33);
  if (n >= plan.rng_prefix) return u;
  const std::string &m = plan.rng_mode;
  if (m == "zero") return 0;
  if (m == "one") return 1;
  if (m == "max") return 0x7fffffff;
  if (m == "small2") return u % 2;
  if (m == "small3") return u % 3;
  if (m == "small5") return u % 5;
  if (m == "hundreds") return (u % 3) * 1000;       // many moduli used by the code divide this
  if (m == "const") return (long) (plan.rng_seed % 1000);
  if (m == "alt") return n % 2;
  if (m == "lowbits") return (u >> 20) << 20;       // low bits zero
  if (m == "count") return n % 7;
  return u;
}

// ---- log --------------------------------------------------------------------------------
static void logf(const char *fmt, ...) {
  char buf[1024];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n >= (int) sizeof buf) n = sizeof buf - 1;
  long pos = S->log_len;
  if (pos + n >= (long) sizeof S->log) { S->log_drop = S->log_drop + 1; return; }
  memcpy(S->log + pos, buf, n);
  S->log_len = pos + n;
}
static uint32_t fnv(const void *p, size_t n) {
  const unsigned char *c = (const unsigned char *) p; uint32_t h = 2166136261u;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 16777619u; }
  return h;
}

// ---- paths ------------------------------------------------------------------------------
// /tmp as LattE sees it is <world>/tmp.  Paths in system directories pass through.
static bool starts(const char *s, const char *p) { return strncmp(s, p, strlen(p)) == 0; }
enum Where { IN_WORLD, SYSTEM, ESCAPE };
static std::string map_path(const char *path, Where &w) {
  std::string p = path;
  if (p.empty()) { w = IN_WORLD; return p; }
  if (p[0] != '/') {
    // relative: fine unless it climbs out of the world
    int depth = 0; size_t i = 0; bool bad = false;
    while (i < p.size()) {
      size_t j = p.find('/', i); if (j == std::string::npos) j = p.size();
      std::string c = p.substr(i, j - i);
      if (c == "..") depth--; else if (c != "." && c != "") depth++;
      if (depth < 0) bad = true;
      i = j + 1;
    }
    if (!bad) { w = IN_WORLD; return p; }
    // it climbs: resolve it from the working directory
    char cwd[4096]; long n = syscall(SYS_getcwd, cwd, sizeof cwd);
    std::vector<std::string> parts; std::string full = (n > 0 ? std::string(cwd) : std::string()) + "/" + p;
    for (i = 0; i < full.size(); ) {
      size_t j = full.find('/', i); if (j == std::string::npos) j = full.size();
      std::string c = full.substr(i, j - i);
      if (c == "..") { if (!parts.empty()) parts.pop_back(); } else if (c != "." && c != "") parts.push_back(c);
      i = j + 1;
    }
    full.clear(); for (auto &c : parts) full += "/" + c;
    if (n > 0 && starts(full.c_str(), (world + "/").c_str())) { w = IN_WORLD; return full; }
    w = ESCAPE; return p;
  }
  if (starts(path, world.c_str())) { w = IN_WORLD; return p; }
  if (p == "/tmp" || starts(path, "/tmp/")) { w = IN_WORLD; return world + p; }
  w = SYSTEM; return p;
}
static std::string show(const std::string &p) {
  if (p.compare(0, world.size(), world) == 0) return "W" + p.substr(world.size());
  return p;
}

// ---- the step: every observable operation passes here -------------------------------------
static void die_now() {
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}
static const Fault *pending_fault(long op) {
  for (auto &f : plan.faults) if (f.op == op) return &f;
  return nullptr;
}
static void fire(int kind) { S->fired[kind] = S->fired[kind] + 1; }

static void handoff() {
  if (sched_fd < 0) return;
  char c = 'y';
  if (syscall(SYS_write, sched_fd, &c, 1) != 1) _exit(99);
  if (syscall(SYS_read, sched_fd, &c, 1) != 1) _exit(99);
}

// Returns the fault to apply to this operation, after dealing with those that need no
// cooperation from the operation itself.
static const Fault *step(const char *what, const std::string &path) {
  handoff();
  long op = S->ops; S->ops = op + 1;
  S->clock_us = S->clock_us + plan.clock_step_us;
  logf("%ld %s %s", op, what, show(path).c_str());
  if (op > plan.max_ops) { S->ops_exceeded = 1; logf(" MAXOPS\n"); die_now(); }
  const Fault *res = nullptr;
  for (auto &f : plan.faults) {
    if (f.op != op) continue;
    switch (f.kind) {
    case F_CRASH: fire(F_CRASH); logf(" !crash\n"); die_now(); break;
    case F_CLOCK: fire(F_CLOCK); S->clock_us = S->clock_us + f.param * 1000; logf(" !clock%+ld", f.param); break;
    case F_SIGNAL: fire(F_SIGNAL); logf(" !signal%ld", f.param); { Guard g; raise((int) f.param); } break;
    default: res = &f;
    }
  }
  return res;
}

// ---- file descriptors ---------------------------------------------------------------------
struct FdInfo { bool tracked = false; std::string path; };
static FdInfo fds[1024];
static void track(int fd, const std::string &p) { if (fd >= 0 && fd < 1024) { fds[fd].tracked = true; fds[fd].path = p; } }
static bool tracked(int fd) { return active && !in_sim && fd >= 0 && fd < 1024 && fds[fd].tracked; }

static int err_of(int kind) {
  switch (kind) {
  case F_EIO: return EIO; case F_ENOSPC: return ENOSPC; case F_EMFILE: return EMFILE; case F_EACCES: return EACCES;
  }
  return 0;
}

// Decide whether opening is to fail.  Returns 0 or an errno.
static int open_step(const char *kind, const std::string &path, bool writes) {
  S->n_open = S->n_open + 1;
  const Fault *f = step(kind, path);
  if (f) {
    int e = err_of(f->kind);
    if (f->kind == F_TORN) { fire(F_TORN); logf(" !torn\n"); die_now(); }
    if (f->kind == F_ENOSPC) { // the disk fills up here: creating a directory entry may still work
      if (writes) { fire(F_ENOSPC); enospc_sticky = true; S->disk_free = 0; logf(" !diskfull"); }
      e = 0;
    }
    if (e) { fire(f->kind); logf(" !%s\n", fault_names[f->kind]); return e; }
  }
  return 0;
}

static bool is_write_flags(int fl) { return (fl & O_ACCMODE) != O_RDONLY; }

static int sim_open(const char *path, int flags, mode_t mode) {
  if (strcmp(path, "/dev/urandom") == 0 || strcmp(path, "/dev/random") == 0) { // the plan answers
    int fd = syscall(SYS_memfd_create, "urandom", 0);
    uint64_t x = plan.rng_seed ^ 0x5eedULL, b[64];
    for (auto &v : b) v = splitmix(x);
    if (fd >= 0) { syscall(SYS_write, fd, b, sizeof b); syscall(SYS_lseek, fd, 0, SEEK_SET); }
    return fd;
  }
  Where w; std::string p = map_path(path, w);
  if (w == SYSTEM) {
    if (is_write_flags(flags) && !starts(path, "/dev/")) { S->escapes = S->escapes + 1; logf("ESCAPE open-w %s\n", path); errno = EACCES; return -1; }
    return syscall(SYS_openat, AT_FDCWD, p.c_str(), flags, mode);
  }
  if (w == ESCAPE) {
    if (is_write_flags(flags)) { S->escapes = S->escapes + 1; logf("ESCAPE open-w %s\n", path); errno = EACCES; return -1; }
  }
  int e = open_step(is_write_flags(flags) ? "openw" : "openr", p, is_write_flags(flags));
  if (e) { errno = e; return -1; }
  int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), flags, mode);
  if (fd >= 0) track(fd, p);
  logf(fd < 0 ? " fail\n" : "\n");
  return fd;
}

static ssize_t disk_take(size_t n) { // how many of n bytes still fit
  long fr = S->disk_free;
  if (fr < 0) return (ssize_t) n;
  ssize_t k = (long) n <= fr ? (ssize_t) n : fr;
  S->disk_free = fr - k;
  return k;
}

template <class Raw> static ssize_t do_write(int fd, const char *buf, size_t n, Raw raw) {
  S->n_write = S->n_write + 1;
  const Fault *f = step("write", fds[fd].path);
  logf(" %zu %08x", n, fnv(buf, n));
  if (f) {
    if (f->kind == F_TORN) {
      fire(F_TORN);
      size_t k = n * (size_t) f->param / 1000;
      if (k) raw(buf, k);
      logf(" !torn %zu\n", k);
      die_now();
    }
    if (f->kind == F_ENOSPC) {
      fire(F_ENOSPC); enospc_sticky = true;
      S->disk_free = (long) (n * (size_t) f->param / 1000);
      logf(" !diskfull");
    } else if (f->kind == F_EIO) { fire(F_EIO); logf(" !eio\n"); errno = EIO; return -1; }
    else if (f->kind == F_SHORT && n > 1) {
      fire(F_SHORT);
      n = 1 + (n - 1) * (size_t) f->param / 1000; if (n == 0) n = 1;
      logf(" !short %zu", n);
    }
  }
  if (n > 0) {
    ssize_t k = disk_take(n);
    if (k == 0) { logf(" nospace\n"); errno = ENOSPC; return -1; }
    n = k;
  }
  ssize_t r = raw(buf, n);
  logf("\n");
  return r;
}
template <class Raw> static ssize_t do_read(int fd, char *buf, size_t n, Raw raw) {
  S->n_read = S->n_read + 1;
  const Fault *f = step("read", fds[fd].path);
  if (f) {
    if (f->kind == F_EIO) { fire(F_EIO); logf(" !eio\n"); errno = EIO; return -1; }
    if (f->kind == F_TORN) { fire(F_TORN); logf(" !torn\n"); die_now(); }
    if (f->kind == F_SHORT && n > 1) { fire(F_SHORT); n = 1 + (long) f->param % 7; logf(" !short"); }
  }
  ssize_t r = raw(buf, n);
  if (r > 0) logf(" %zd %08x\n", r, fnv(buf, r)); else logf(" %zd\n", r);
  return r;
}
static ssize_t sim_write(int fd, const char *b, size_t n) {
  return do_write(fd, b, n, [&](const char *bb, size_t k) { return (ssize_t) syscall(SYS_write, fd, bb, k); });
}
static ssize_t sim_read(int fd, char *b, size_t n) {
  return do_read(fd, b, n, [&](char *bb, size_t k) { return (ssize_t) syscall(SYS_read, fd, bb, k); });
}
static int sim_close_event(int fd) {
  S->n_close = S->n_close + 1;
  const Fault *f = step("close", fds[fd].path);
  fds[fd].tracked = false;
  if (f && f->kind == F_EIO) { fire(F_EIO); logf(" !eio\n"); return EIO; }
  if (f && f->kind == F_TORN) { fire(F_TORN); logf(" !torn\n"); die_now(); }
  logf("\n");
  return 0;
}

// ---- child processes ----------------------------------------------------------------------
struct Snap { off_t size; struct timespec mt; ino_t ino; };
static bool depth_back = false;
static void snap_dir(const std::string &dir, const std::string &rel, std::map<std::string, Snap> &out, int depth = 0) {
  Guard g;
  DIR *d = opendir(dir.c_str()); if (!d) return;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name; if (n == "." || n == ".." || (rel.empty() && n[0] == '.')) continue;
    struct stat st; std::string p = dir + "/" + n;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { if (depth < 3) snap_dir(p, rel + n + "/", out, depth + 1); }
    else if (S_ISREG(st.st_mode)) {
      // mtimes are too coarse to tell two writes apart: date every file back, so that any write shows
      if (depth_back) { struct timespec old[2] = { { 1000000000, 0 }, { 1000000000, 0 } }; utimensat(AT_FDCWD, p.c_str(), old, 0); lstat(p.c_str(), &st); }
      out[p] = { st.st_size, st.st_mtim, st.st_ino };
    }
  }
  closedir(d);
}
// While a LattE program that was started by another one runs, so do the processes next to it: only its own directory is looked at then.
static bool snap_here = false;
static std::map<std::string, Snap> snap_world() {
  std::map<std::string, Snap> m; char here[4096];
  if (snap_here && getcwd(here, sizeof here)) snap_dir(here, "", m); else snap_dir(world, "", m);
  return m;
}
static std::vector<std::string> changed(const std::map<std::string, Snap> &a, const std::map<std::string, Snap> &b) {
  std::vector<std::string> r;
  for (auto &kv : b) {
    auto it = a.find(kv.first);
    if (it == a.end() || it->second.size != kv.second.size || it->second.ino != kv.second.ino
        || it->second.mt.tv_sec != kv.second.mt.tv_sec || it->second.mt.tv_nsec != kv.second.mt.tv_nsec) r.push_back(kv.first);
  }
  return r;
}
static void truncate_outputs(const std::map<std::string, Snap> &before, long permille) {
  auto after = snap_world();
  for (auto &p : changed(before, after)) {
    off_t n = after[p].size * permille / 1000;
    Guard g;
    if (n < after[p].size && truncate(p.c_str(), n) == 0) logf(" cut:%s:%ld", show(p).c_str(), (long) n);
  }
}

// Tokenise a shell command just enough to know its words and redirections.
struct Word { std::string s; bool op; };
static std::vector<Word> shell_words(const std::string &c) {
  std::vector<Word> v; std::string cur; bool have = false;
  for (size_t i = 0; i < c.size(); i++) {
    char ch = c[i];
    if (ch == '\'') { have = true; size_t j = c.find('\'', i + 1); if (j == std::string::npos) j = c.size(); cur += c.substr(i + 1, j - i - 1); i = j; }
    else if (ch == '"') { have = true; for (i++; i < c.size() && c[i] != '"'; i++) { if (c[i] == '\\' && i + 1 < c.size()) i++; cur += c[i]; } }
    else if (ch == '\\' && i + 1 < c.size()) { have = true; cur += c[++i]; }
    else if (ch == ' ' || ch == '\t' || ch == '\n') { if (have) v.push_back({cur, false}); cur.clear(); have = false; }
    else if (ch == '<' || ch == '>' || ch == '|' || ch == ';' || ch == '&') {
      if (have) v.push_back({cur, false}); cur.clear(); have = false;
      std::string o(1, ch); while (i + 1 < c.size() && (c[i + 1] == '&' || c[i + 1] == '>' || c[i + 1] == '<')) o += c[++i];
      v.push_back({o, true});
    }
    else { cur += ch; have = true; }
  }
  if (have) v.push_back({cur, false});
  return v;
}

static int raw_system(const std::string &cmd) {
  Guard g;
  pid_t pid = fork();
  if (pid < 0) return -1;
  if (pid == 0) {
    active = false;
    struct rlimit rl = { 20, 20 }; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit fl = { 64 << 20, 64 << 20 }; setrlimit(RLIMIT_FSIZE, &fl);
    Guard g;
    if (const char *so = getenv("LATTESIM_TOOLCLOCK")) if (access(so, R_OK) == 0) setenv("LD_PRELOAD", so, 1);
    execl("/bin/sh", "sh", "-c", cmd.c_str(), (char *) nullptr);
    _exit(127);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return st;
}
static int nested_program(const std::string &prog, const std::vector<std::string> &args, const std::string &outfile) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) return -1;
  if (pid == 0) {
    plan.pid += 1000;
    if (!outfile.empty()) {
      int fd = syscall(SYS_openat, AT_FDCWD, outfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) { dup2(fd, 1); syscall(SYS_close, fd); }
    }
    int rc = run_program(prog, args);
    exit(rc);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return st;
}
// "rm -f a b*" carried out by the simulator; returns false if it is not that simple.
static bool sim_rm(const std::vector<Word> &w, int &status) {
  if (w.empty() || w[0].s != "rm") return false;
  for (auto &x : w) if (x.op) return false;
  return true;
}

static int sim_system(const char *c) {
  std::string cmd = c;
  // private /tmp
  for (size_t i = 0; (i = cmd.find("/tmp/", i)) != std::string::npos; ) {
    if (i == 0 || cmd[i - 1] == ' ' || cmd[i - 1] == '\'' || cmd[i - 1] == '"' || cmd[i - 1] == '<' || cmd[i - 1] == '>') {
      cmd.replace(i, 5, world + "/tmp/"); i += world.size() + 5;
    } else i += 5;
  }
  S->n_system = S->n_system + 1;
  std::string shown = cmd;
  for (size_t i; (i = shown.find(world)) != std::string::npos; ) shown.replace(i, world.size(), "W");
  const Fault *f = step("system", shown);
  auto words = shell_words(cmd);
  // Containment: a removal may only name things inside the world.
  bool is_rm = !words.empty() && words[0].s == "rm";
  bool first = true;
  for (auto &w : words) {
    if (w.op) { continue; }
    if (!first && w.s.size() && w.s[0] == '/' && !starts(w.s.c_str(), world.c_str()) && (is_rm || true)) {
      if (!starts(w.s.c_str(), "/usr/") && !starts(w.s.c_str(), "/dev/")) {
        S->escapes = S->escapes + 1; logf(" ESCAPE\n"); return 1 << 8;
      }
      if (is_rm) { S->escapes = S->escapes + 1; logf(" ESCAPE\n"); return 1 << 8; }
    }
    if (w.s.find("..") != std::string::npos && is_rm) { S->escapes = S->escapes + 1; logf(" ESCAPE\n"); return 1 << 8; }
    first = false;
  }
  // the shell sets up the redirections of a command even when the tool does nothing
  auto redirect = [&]() {
    for (size_t i = 0; i + 1 < words.size(); i++)
      if (words[i].op && words[i].s == ">" && !words[i + 1].op) {
        int fd = open(words[i + 1].s.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) close(fd);
      }
  };
  if (f) switch (f->kind) {
    case T_FAIL: redirect(); fire(T_FAIL); logf(" !t_fail %ld\n", f->param); return (int) (f->param & 255) << 8;
    case T_NOTFOUND: redirect(); fire(T_NOTFOUND); logf(" !t_notfound\n"); return 127 << 8;
    case T_FORKFAIL: fire(T_FORKFAIL); logf(" !t_forkfail\n"); errno = EAGAIN; return -1;
    case T_NORUN_OK: if (!is_rm) { redirect(); fire(T_NORUN_OK); logf(" !t_norun_ok\n"); return 0; } break;
  }
  int status;
  std::string nested;
  std::vector<std::string> nargs; std::string nout;
  {
    size_t i = 0;
    if (i < words.size() && words[i].s == "time") i++;
    if (i < words.size()) {
      std::string b = words[i].s; size_t sl = b.rfind('/');
      std::string base = sl == std::string::npos ? b : b.substr(sl + 1);
      if (find_program(base)) {
        nested = base;
        for (i++; i < words.size(); i++) {
          if (words[i].op) { if (words[i].s == ">" && i + 1 < words.size()) { nout = words[i + 1].s; } i++; }
          else nargs.push_back(words[i].s);
        }
      }
    }
  }
  bool cuts = f && (f->kind == T_KILLED || f->kind == T_TRUNC_OK || f->kind == T_TRUNC_FAIL || f->kind == F_TORN);
  std::map<std::string, Snap> before;
  snap_here = !nested.empty();
  if (cuts || S->disk_free >= 0) { depth_back = true; before = snap_world(); depth_back = false; }
  if (!nested.empty()) { logf(" nested\n"); status = nested_program(nested, nargs, nout); snap_here = true; logf("= nested"); }
  else if (!words.empty() && words[0].s == "time") {
    // dash has no `time' keyword; bash does.  The environment decides; the simulator runs it without.
    status = raw_system(cmd.substr(cmd.find("time") + 4));
  }
  else status = raw_system(cmd);
  if (f && f->kind == T_KILLED) { fire(T_KILLED); truncate_outputs(before, f->param); logf(" !t_killed\n"); return 137 << 8; }
  if (f && f->kind == T_TRUNC_OK) { if (!is_rm) { fire(T_TRUNC_OK); truncate_outputs(before, f->param); logf(" !t_trunc_ok"); } }
  if (f && f->kind == T_TRUNC_FAIL) { fire(T_TRUNC_FAIL); truncate_outputs(before, f->param); logf(" !t_trunc_fail\n"); return 1 << 8; }
  if (f && f->kind == F_TORN) { fire(F_TORN); truncate_outputs(before, f->param); logf(" !torn\n"); die_now(); }
  if (S->disk_free >= 0 && !is_rm && nested.empty()) {
    auto after = snap_world();
    for (auto &p : changed(before, after)) {
      off_t n = after[p].size;
      ssize_t k = disk_take(n);
      Guard g;
      if (k < n && truncate(p.c_str(), k) == 0) logf(" full:%s:%ld", show(p).c_str(), (long) k);
    }
  }
  logf(" ->%d\n", status);
  return status;
}

// ---- setup --------------------------------------------------------------------------------
static uintptr_t stdcxx_lo = 0, stdcxx_hi = 0;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  if (i->dlpi_name && strstr(i->dlpi_name, "libstdc++")) {
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
      uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
      if (!stdcxx_lo || a < stdcxx_lo) stdcxx_lo = a;
      if (b > stdcxx_hi) stdcxx_hi = b;
    }
  }
  return 0;
}
static bool from_stdcxx(void *ra) { uintptr_t a = (uintptr_t) ra; return a >= stdcxx_lo && a < stdcxx_hi; }

void child_setup(const Plan &p, Shared *sh, const std::string &w, int sfd) {
  plan = p; S = sh; world = w; sched_fd = sfd;
  dl_iterate_phdr(phdr_cb, nullptr);
  uint64_t x = p.rng_seed; rs[0] = splitmix(x); rs[1] = splitmix(x) | 1;
  S->clock_us = p.clock_base_ms * 1000;
  S->disk_free = p.disk_free;
  struct rlimit rl = { (rlim_t) p.cpu_limit, (rlim_t) p.cpu_limit + 1 }; setrlimit(RLIMIT_CPU, &rl);
  struct rlimit fl = { 64 << 20, 64 << 20 }; setrlimit(RLIMIT_FSIZE, &fl);
  struct rlimit al = { 1500ul << 20, 1500ul << 20 }; setrlimit(RLIMIT_AS, &al);
  struct rlimit cl = { 0, 0 }; setrlimit(RLIMIT_CORE, &cl);
  NTL::SetSeed(NTL::to_ZZ((long) (p.rng_seed & 0x7fffffff)));
  active = true;
}

} // namespace sim
using namespace sim;

#define REAL(name, ...) static auto real_##name = (__VA_ARGS__) dlsym(RTLD_NEXT, #name)

static std::map<FILE *, int> popened;
// ---- interposed C library -------------------------------------------------------------------
extern "C" {

int open(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  if (!active || in_sim) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  return sim_open(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  if (!active || in_sim) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  return sim_open(path, flags, mode);
}
int creat(const char *path, mode_t mode) { return open(path, O_WRONLY | O_CREAT | O_TRUNC, mode); }

ssize_t write(int fd, const void *b, size_t n) {
  if (!tracked(fd)) return syscall(SYS_write, fd, b, n);
  return sim_write(fd, (const char *) b, n);
}
ssize_t read(int fd, void *b, size_t n) {
  if (!tracked(fd)) return syscall(SYS_read, fd, b, n);
  return sim_read(fd, (char *) b, n);
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
  if (!tracked(fd)) return syscall(SYS_writev, fd, v, cnt);
  std::string s;
  { Guard g; for (int i = 0; i < cnt; i++) s.append((const char *) v[i].iov_base, v[i].iov_len); }
  return sim_write(fd, s.data(), s.size());
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) {
  if (!tracked(fd)) return syscall(SYS_pwrite64, fd, b, n, off);
  return do_write(fd, (const char *) b, n, [&](const char *bb, size_t k) { return (ssize_t) syscall(SYS_pwrite64, fd, bb, k, off); });
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return pwrite64(fd, b, n, off); }
ssize_t pread64(int fd, void *b, size_t n, off64_t off) {
  if (!tracked(fd)) return syscall(SYS_pread64, fd, b, n, off);
  return do_read(fd, (char *) b, n, [&](char *bb, size_t k) { return (ssize_t) syscall(SYS_pread64, fd, bb, k, off); });
}
ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
int close(int fd) {
  if (!tracked(fd)) return syscall(SYS_close, fd);
  int e = sim_close_event(fd);
  syscall(SYS_close, fd);
  if (e) { errno = e; return -1; }
  return 0;
}

struct Cookie { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((Cookie *) c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = write(((Cookie *) c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = lseek(((Cookie *) c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int r = close(((Cookie *) c)->fd); delete (Cookie *) c; return r; }

static FILE *sim_fopen(const char *path, const char *mode, void *ra) {
  REAL(fopen, FILE *(*)(const char *, const char *));
  if (!active || in_sim) return real_fopen(path, mode);
  int fl;
  bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (from_stdcxx(ra)) {
    Where w; std::string p = map_path(path, w);
    if (w != IN_WORLD && is_write_flags(fl) && !starts(path, "/dev/")) { S->escapes = S->escapes + 1; logf("ESCAPE open-w %s\n", path); errno = EACCES; return nullptr; }
    if (w == SYSTEM) return real_fopen(p.c_str(), mode);
    int e = open_step(is_write_flags(fl) ? "openw" : "openr", p, is_write_flags(fl));
    if (e) { errno = e; return nullptr; }
    FILE *f = real_fopen(p.c_str(), mode);
    if (f) track(fileno(f), p);
    logf(f ? "\n" : " fail\n");
    return f;
  }
  int fd = sim_open(path, fl, 0666);
  if (fd < 0) return nullptr;
  Cookie *c = new Cookie{fd};
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  return fopencookie(c, mode, io);
}
FILE *fopen(const char *path, const char *mode) { return sim_fopen(path, mode, __builtin_return_address(0)); }
FILE *fopen64(const char *path, const char *mode) { return sim_fopen(path, mode, __builtin_return_address(0)); }
int fclose(FILE *f) {
  REAL(fclose, int (*)(FILE *));
  int fd = f ? fileno(f) : -1;
  if (tracked(fd)) {
    int e = sim_close_event(fd);
    int r = real_fclose(f);
    if (e) { errno = e; return EOF; }
    return r;
  }
  return real_fclose(f);
}

int rename(const char *a, const char *b) {
  if (!active || in_sim) return syscall(SYS_rename, a, b);
  Where w1, w2; std::string p = map_path(a, w1), q = map_path(b, w2);
  if (w1 != IN_WORLD || w2 != IN_WORLD) { S->escapes = S->escapes + 1; logf("ESCAPE rename %s %s\n", a, b); errno = EACCES; return -1; }
  S->n_rename = S->n_rename + 1;
  const Fault *f = step("rename", p + " " + q);
  if (f && (f->kind == F_EIO || f->kind == F_EACCES)) { fire(f->kind); logf(" !%s\n", fault_names[f->kind]); errno = err_of(f->kind); return -1; }
  if (f && f->kind == F_TORN) { fire(F_TORN); logf(" !torn\n"); die_now(); }
  int r = syscall(SYS_rename, p.c_str(), q.c_str());
  logf(r ? " fail\n" : "\n");
  return r;
}
static int sim_unlinkat(const char *a, int flag, const char *what) {
  Where w; std::string p = map_path(a, w);
  if (w != IN_WORLD) { S->escapes = S->escapes + 1; logf("ESCAPE %s %s\n", what, a); errno = EACCES; return -1; }
  S->n_unlink = S->n_unlink + 1;
  const Fault *f = step(what, p);
  if (f && (f->kind == F_EIO || f->kind == F_EACCES)) { fire(f->kind); logf(" !%s\n", fault_names[f->kind]); errno = err_of(f->kind); return -1; }
  if (f && f->kind == F_TORN) { fire(F_TORN); logf(" !torn\n"); die_now(); }
  int r = syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), flag);
  logf(r ? " fail\n" : "\n");
  return r;
}
int unlink(const char *a) { if (!active || in_sim) return syscall(SYS_unlink, a); return sim_unlinkat(a, 0, "unlink"); }
int rmdir(const char *a) { if (!active || in_sim) return syscall(SYS_rmdir, a); return sim_unlinkat(a, AT_REMOVEDIR, "rmdir"); }
int remove(const char *a) {
  if (!active || in_sim) { if (syscall(SYS_unlink, a) == 0) return 0; return syscall(SYS_rmdir, a); }
  int r = sim_unlinkat(a, 0, "unlink");
  if (r && errno == EISDIR) r = sim_unlinkat(a, AT_REMOVEDIR, "rmdir");
  return r;
}
int mkdir(const char *a, mode_t m) {
  if (!active || in_sim) return syscall(SYS_mkdir, a, m);
  Where w; std::string p = map_path(a, w);
  if (w != IN_WORLD) { S->escapes = S->escapes + 1; logf("ESCAPE mkdir %s\n", a); errno = EACCES; return -1; }
  S->n_mkdir = S->n_mkdir + 1;
  const Fault *f = step("mkdir", p);
  if (f && (f->kind == F_EIO || f->kind == F_EACCES)) { fire(f->kind); logf(" !%s\n", fault_names[f->kind]); errno = err_of(f->kind); return -1; }
  if (f && f->kind == F_ENOSPC) { fire(F_ENOSPC); logf(" !enospc\n"); errno = ENOSPC; return -1; }
  if (f && f->kind == F_TORN) { fire(F_TORN); logf(" !torn\n"); die_now(); }
  int r = syscall(SYS_mkdir, p.c_str(), m);
  int e = errno;
  logf(r ? " fail\n" : "\n");
  errno = e;
  return r;
}
int ftruncate64(int fd, off64_t n) {
  if (tracked(fd)) {
    const Fault *f = step("ftruncate", fds[fd].path);
    if (f && f->kind == F_EIO) { fire(F_EIO); logf(" !eio\n"); errno = EIO; return -1; }
    if (f && f->kind == F_TORN) { fire(F_TORN); logf(" !torn\n"); die_now(); }
    logf(" %ld\n", (long) n);
  }
  return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int sim_sync(int fd, const char *what) {
  if (tracked(fd)) {
    const Fault *f = step(what, fds[fd].path);
    if (f && f->kind == F_EIO) { fire(F_EIO); logf(" !eio\n"); errno = EIO; return -1; }
    if (f && f->kind == F_TORN) { fire(F_TORN); logf(" !torn\n"); die_now(); }
    logf("\n");
  }
  return 0;
}
int fsync(int fd) { return sim_sync(fd, "fsync"); }
int fdatasync(int fd) { return sim_sync(fd, "fdatasync"); }

// questions about names: seen by the scheduler, answered from the world
static std::string ask(const char *what, const char *path) {
  Where w; std::string p = map_path(path, w);
  if (w == IN_WORLD && *path) { step(what, p); logf("\n"); }
  return p;
}
static int sim_stat(const char *what, const char *path, struct stat *st, int flag) {
  if (!active || in_sim) return syscall(SYS_newfstatat, AT_FDCWD, path, st, flag);
  return syscall(SYS_newfstatat, AT_FDCWD, ask(what, path).c_str(), st, flag);
}
int stat(const char *path, struct stat *st) { return sim_stat("stat", path, st, 0); }
int stat64(const char *path, struct stat64 *st) { return sim_stat("stat", path, (struct stat *) st, 0); }
int lstat(const char *path, struct stat *st) { return sim_stat("lstat", path, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *path, struct stat64 *st) { return sim_stat("lstat", path, (struct stat *) st, AT_SYMLINK_NOFOLLOW); }
int access(const char *path, int mode) {
  if (!active || in_sim) return syscall(SYS_access, path, mode);
  return syscall(SYS_access, ask("access", path).c_str(), mode);
}
DIR *opendir(const char *path) {
  REAL(opendir, DIR *(*)(const char *));
  if (!active || in_sim) return real_opendir(path);
  return real_opendir(ask("opendir", path).c_str());
}
int truncate64(const char *path, off64_t n) {
  if (!active || in_sim) return syscall(SYS_truncate, path, n);
  Where w; std::string p = map_path(path, w);
  if (w != IN_WORLD) { S->escapes = S->escapes + 1; logf("ESCAPE truncate %s\n", path); errno = EACCES; return -1; }
  step("truncate", p); logf("\n");
  return syscall(SYS_truncate, p.c_str(), n);
}
int truncate(const char *path, off_t n) { return truncate64(path, n); }
static int sim_link(const char *what, const char *a, const char *b, bool sym) {
  Where w1, w2; std::string p = sym ? std::string(a) : map_path(a, w1), q = map_path(b, w2);
  if (w2 != IN_WORLD || (!sym && w1 != IN_WORLD)) { S->escapes = S->escapes + 1; logf("ESCAPE %s %s\n", what, b); errno = EACCES; return -1; }
  step(what, p + " " + q); logf("\n");
  return sym ? syscall(SYS_symlink, p.c_str(), q.c_str()) : syscall(SYS_link, p.c_str(), q.c_str());
}
int link(const char *a, const char *b) { if (!active || in_sim) return syscall(SYS_link, a, b); return sim_link("link", a, b, false); }
int symlink(const char *a, const char *b) { if (!active || in_sim) return syscall(SYS_symlink, a, b); return sim_link("symlink", a, b, true); }
// names for temporary files come from the seeded generator
static void fill_name(char *x) { long d = draw31(); for (int i = 0; i < 6; i++, d /= 36) x[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[d % 36]; }
int mkstemp(char *t) {
  char *x = t + strlen(t) - 6;
  for (int k = 0; k < 100; k++) {
    fill_name(x);
    int fd = open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
char *mkdtemp(char *t) {
  char *x = t + strlen(t) - 6;
  for (int k = 0; k < 100; k++) {
    fill_name(x);
    if (mkdir(t, 0700) == 0) return t;
    if (errno != EEXIST) return nullptr;
  }
  return nullptr;
}
// a signal for another process has nobody to go to
int kill(pid_t pid, int sig) {
  if (!active || in_sim) return syscall(SYS_kill, pid, sig);
  if (pid == plan.pid) return sig ? raise(sig) : 0;
  logf("# kill %d %d\n", (int) pid, sig);
  errno = ESRCH; return -1;
}
// a pipe from a program: run it to its end, then read what it printed
FILE *popen(const char *c, const char *mode) {
  REAL(popen, FILE *(*)(const char *, const char *));
  if (!active || in_sim || mode[0] != 'r') return real_popen(c, mode);
  REAL(fopen, FILE *(*)(const char *, const char *));
  static int count = 0;
  std::string t = world + "/.popen" + std::to_string(count++) + "-" + std::to_string(syscall(SYS_getpid));
  int st = sim_system((std::string(c) + " > " + t).c_str());
  FILE *f = real_fopen(t.c_str(), "r");
  syscall(SYS_unlink, t.c_str());
  if (!f) f = real_fopen("/dev/null", "r");
  popened[f] = st;
  return f;
}
int pclose(FILE *f) {
  REAL(pclose, int (*)(FILE *));
  auto it = popened.find(f);
  if (it == popened.end()) return real_pclose(f);
  int st = it->second; popened.erase(it); fclose(f);
  return st;
}

int system(const char *c) {
  if (!active || in_sim) return raw_system(c);
  return sim_system(c);
}

// clocks: one simulated clock, advanced by operations, by draws of time, and by injected jumps
static long tick_clock() { S->clock_us = S->clock_us + plan.clock_step_us; return S->clock_us; }
time_t time(time_t *t) {
  time_t r;
  if (!active || in_sim) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
  else r = tick_clock() / 1000000;
  if (t) *t = r;
  return r;
}
clock_t times(struct tms *b) {
  long c = (active && !in_sim) ? tick_clock() / 10000 : 0;
  if (b) { b->tms_utime = c; b->tms_stime = 0; b->tms_cutime = 0; b->tms_cstime = 0; }
  return c;
}
clock_t clock(void) { return (active && !in_sim) ? tick_clock() : 0; }
int gettimeofday(struct timeval *tv, void *) {
  if (!active || in_sim) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  long c = tick_clock(); tv->tv_sec = c / 1000000; tv->tv_usec = c % 1000000; return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active || in_sim) return syscall(SYS_clock_gettime, id, ts);
  long c = tick_clock(); ts->tv_sec = c / 1000000; ts->tv_nsec = (c % 1000000) * 1000; return 0;
}
int getrusage(__rusage_who_t who, struct rusage *u) {
  if (!active || in_sim) return syscall(SYS_getrusage, who, u);
  long c = tick_clock(); memset(u, 0, sizeof *u); u->ru_utime.tv_sec = c / 1000000; u->ru_utime.tv_usec = c % 1000000; return 0;
}
// a sleeper lets the others run
static void sim_sleep(long us) {
  if (!active || in_sim) return;
  step("sleep", ""); logf("%ld\n", us);
  S->clock_us = S->clock_us + us;
}
unsigned sleep(unsigned s) { sim_sleep(s * 1000000L); return 0; }
int usleep(useconds_t u) { sim_sleep(u); return 0; }
int nanosleep(const struct timespec *t, struct timespec *) { sim_sleep(t->tv_sec * 1000000L + t->tv_nsec / 1000); return 0; }

int rand(void) { if (!active) return 4; return (int) draw31(); }
void srand(unsigned s) { if (active) logf("# srand\n"); }
long random(void) { if (!active) return 4; return draw31(); }
void srandom(unsigned) {}

pid_t getpid(void) { if (!active || in_sim) return syscall(SYS_getpid); return plan.pid; }
int gethostname(char *n, size_t l) { snprintf(n, l, "%s", active ? plan.host.c_str() : "host"); return 0; }

} // extern "C"

// NTL's generator is a seam as well: LattE asks it for triangulation heights.
namespace NTL {
void RandomBnd(ZZ &x, const ZZ &n) {
  if (n <= 1) { x = 0; return; }
  ZZ r; r = 0;
  long bits = NumBits(n) + 31;
  for (long b = 0; b < bits; b += 31) { r <<= 31; r += draw31(); }
  if (S->draws <= plan.rng_prefix) { long d = draw31(); x = to_ZZ(d) % n; return; }
  x = r % n;
}
}

// allocation failure
static inline void maybe_fail_alloc() {
  if (!active || in_sim) return;
  long n = S->allocs; S->allocs = n + 1;
  if (plan.alloc_fail >= 0 && (n == plan.alloc_fail || (plan.alloc_sticky && n > plan.alloc_fail))) {
    if (n == plan.alloc_fail) { S->fired[F_ALLOC] = S->fired[F_ALLOC] + 1; logf("# alloc-fail %ld\n", n); }
    throw std::bad_alloc();
  }
}
void *operator new(size_t n) { maybe_fail_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { maybe_fail_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// gnulib's progname, which LattE links for --version only
extern "C" { const char *program_name = "latte"; void set_program_name(const char *) {} }
