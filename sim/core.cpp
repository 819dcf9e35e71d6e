// Scheduler, token passing, fork server and virtual clock of the simulated machine.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cstdarg>
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <string>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>

namespace sim {

Shared* sh = nullptr;
int me = -1;
bool active = false;
static int trace_fd = -1;

static void futex_wait(int* w) { syscall(SYS_futex, w, FUTEX_WAIT, 0, nullptr, nullptr, 0); }
static void futex_wake(int* w) { syscall(SYS_futex, w, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

void trace(const char* fmt, ...) {
  if (trace_fd < 0) return;
  char b[512];
  va_list ap; va_start(ap, fmt);
  int n = snprintf(b, sizeof b, "%llu r%d ", (unsigned long long)sh->ndec, me);
  n += vsnprintf(b + n, sizeof b - n, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  syscall(SYS_write, trace_fd, b, n);
}

void note(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int room = (int)sizeof(sh->note) - sh->note_len - 2;
  if (room > 8) {
    int n = vsnprintf(sh->note + sh->note_len, room, fmt, ap);
    if (n > room - 1) n = room - 1;
    sh->note_len += n;
    sh->note[sh->note_len++] = '|';
    sh->note[sh->note_len] = 0;
  }
  va_end(ap);
}

void anomaly(const char* fmt, ...) {
  char b[400];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  sh->nanom++;
  if (sh->nanom <= 8) note("anomaly: %s", b);
  trace("anomaly %s", b);
}

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }

static uint64_t rng_next() {
  uint64_t z = (sh->rng += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

void ev(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  uint64_t h = sh->h_event;
  h = mix(h, a * 31 + (uint64_t)(me + 1)); h = mix(h, b); h = mix(h, c); h = mix(h, d);
  sh->h_event = h;
}

static void count_dec(uint32_t c, uint32_t n) {
  sh->h_sched = mix(sh->h_sched, ((uint64_t)c << 32) | n);
  if (++sh->ndec > sh->cfg.max_dec) stop_job(O_LIVELOCK, 0);
}

uint32_t choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t c = 0;
  if (sh->ndec < sh->cfg.cut) c = (uint32_t)(rng_next() % n);
  count_dec(c, n);
  return c;
}

bool coin(int permille) {
  if (permille <= 0) return false;
  bool c = false;
  if (sh->ndec < sh->cfg.cut) c = (int)(rng_next() % 1000) < permille;
  count_dec(c, 2);
  return c;
}

// ---- shared arena -------------------------------------------------------------------------
static int cls(size_t n) { int c = 5; while (((size_t)1 << c) < n) c++; return c; }
void* shalloc(size_t n) {
  int c = cls(n ? n : 1);
  void* p = sh->freel[c];
  if (p) { sh->freel[c] = *(void**)p; return p; }
  size_t s = (size_t)1 << c;
  if (sh->arena_used + s > sh->arena_size) { note("simulator arena exhausted"); stop_job(O_USAGE, 0); }
  p = sh->arena + sh->arena_used;
  sh->arena_used += s;
  return p;
}
void shfree(void* p, size_t n) {
  if (!p) return;
  int c = cls(n ? n : 1);
  *(void**)p = sh->freel[c];
  sh->freel[c] = p;
}

// ---- ending the job -----------------------------------------------------------------------
void stop_job(int outcome, int code) {
  if (sh->outcome == O_NONE) { sh->outcome = outcome; sh->outcome_rank = me; sh->outcome_code = code; }
  trace("stop %d %d", outcome, code);
  if (me < 0) { // controller: the caller looks at outcome
    throw outcome;
  }
  active = false;
  syscall(SYS_kill, getpid(), SIGKILL);
  for (;;) pause();
}

// ---- message delivery ---------------------------------------------------------------------
static bool matches(RecvRec* r, Msg* m) {
  return r->ctx == m->ctx && (r->src == -1 || r->src == m->src) && (r->tag == -1 || r->tag == m->tag);
}

void wake(int r) { if (sh->state[r] == R_BLOCKED) sh->state[r] = R_READY; }

static void deliver(int s, int d) {
  Chan& c = sh->chan[s][d];
  Msg* m = c.head;
  c.head = m->next; if (!c.head) c.tail = nullptr;
  m->next = nullptr;
  sh->delivered++;
  RecvRec *p = sh->posted[d], *prev = nullptr;
  for (; p; prev = p, p = p->next) if (matches(p, m)) break;
  if (p) {
    if (prev) prev->next = p->next; else sh->posted[d] = p->next;
    if (sh->posted_tail[d] == p) sh->posted_tail[d] = prev;
    p->next = nullptr; p->msg = m;
    m->matched = 1;
    if (m->sync) wake(s);
    wake(d);
  } else {
    if (sh->unexp_tail[d]) sh->unexp_tail[d]->next = m; else sh->unexp[d] = m;
    sh->unexp_tail[d] = m;
    if (sh->wants_probe[d]) wake(d);
  }
}

static void pump() {
  if (sh->cfg.late) return;
  for (int s = 0; s < sh->cfg.np; s++)
    for (int d = 0; d < sh->cfg.np; d++)
      while (sh->chan[s][d].head && !sh->chan[s][d].head->held && sh->chan[s][d].head->due <= sh->tick) deliver(s, d);
}

static void become(int r) { // pass the token to rank r and wait for it to come back
  sh->last_rank = r;
  if (r == me) return;
  sh->switches++;
  trace("-> r%d", r);
  sh->go[r] = 1;
  futex_wake(&sh->go[r]);
  if (me < 0) return;
  while (!__atomic_load_n(&sh->go[me], __ATOMIC_ACQUIRE)) futex_wait(&sh->go[me]);
  sh->go[me] = 0;
}

static int pick(const int* c, int n) {
  if (n == 1) return c[0];
  int tmp[MAXR], k = 0;
  if (sh->stalled >= 0 && sh->tick < sh->stall_until) {
    for (int i = 0; i < n; i++) if (c[i] != sh->stalled) tmp[k++] = c[i];
    if (k) return tmp[choose(k)];
  }
  return c[choose(n)];
}

// The caller (a rank that is not ready, or the controller after a rank ended) gives the token away.
void schedule_next() {
  for (;;) {
    sh->tick++;
    pump();
    int c[MAXR], n = 0, alive = 0;
    for (int r = 0; r < sh->cfg.np; r++) {
      if (sh->state[r] != R_DEAD) alive++;
      if (sh->state[r] == R_READY) c[n++] = r;
    }
    if (!alive) return;
    if (n) { become(pick(c, n)); return; }
    int cs[MAXR * MAXR], cn = 0;
    for (int s = 0; s < sh->cfg.np; s++)
      for (int d = 0; d < sh->cfg.np; d++)
        if (sh->chan[s][d].head && !sh->chan[s][d].head->held) cs[cn++] = s * MAXR + d;
    if (cn) { int k = cs[choose(cn)]; deliver(k / MAXR, k % MAXR); continue; }
    for (int r = 0; r < sh->cfg.np; r++) note("rank %d: %s", r, sh->state[r] == R_DEAD ? "ended" : sh->where[r] ? sh->where[r] : "?");
    stop_job(O_DEADLOCK, 0);
  }
}

void flush_lazy();

void block_me() {
  flush_lazy();
  sh->state[me] = R_BLOCKED;
  schedule_next();
}

// a polling call that found nothing: let somebody else run
void poll_pass() {
  flush_lazy();
  sh->tick++;
  pump();
  int c[MAXR], n = 0;
  for (int r = 0; r < sh->cfg.np; r++) if (r != me && sh->state[r] == R_READY) c[n++] = r;
  if (n) { become(pick(c, n)); return; }
  int cs[MAXR * MAXR], cn = 0;
  for (int s = 0; s < sh->cfg.np; s++)
    for (int d = 0; d < sh->cfg.np; d++)
      if (sh->chan[s][d].head && !sh->chan[s][d].head->held) cs[cn++] = s * MAXR + d;
  if (cn) { int k = cs[choose(cn)]; deliver(k / MAXR, k % MAXR); return; }
  count_dec(0, 1);
}

void yield_point() {
  if (!active) return;
  sh->tick++;
  sh->vtime += 200 + (mix(sh->tick, me) & 0x3ff);
  if (coin(sh->cfg.p_stall)) { sh->stalled = choose(sh->cfg.np); sh->stall_until = sh->tick + 1 + choose(sh->cfg.stall_len + 1); sh->stalls++; }
  pump();
  if (sh->cfg.np > 1) {
    bool sw = sh->stalled == me && sh->tick < sh->stall_until;
    if (!sw) sw = coin(sh->cfg.p_switch);
    if (sw) {
      int c[MAXR], n = 0;
      for (int r = 0; r < sh->cfg.np; r++) if (sh->state[r] == R_READY) c[n++] = r;
      int r = pick(c, n);
      if (r != me) { sh->preemptions++; become(r); }
    }
  }
}

// ---- clocks -------------------------------------------------------------------------------
static int64_t now_ns() {
  if (coin(sh->cfg.p_jump)) {
    static const int64_t step[] = { 1000000000LL, -1000000000LL, 3600000000000LL, -3600000000000LL, 86400000000000LL, -30 * 86400000000000LL };
    sh->clock_off += step[choose(6)];
    sh->jumps++;
  }
  sh->vtime += 100;
  return sh->cfg.clock0 * 1000000000LL + (int64_t)sh->vtime + sh->clock_off + sh->cfg.skew[me] * 1000000LL;
}

double wtime() { return active ? now_ns() * 1e-9 : 0.0; }

// ---- fork server --------------------------------------------------------------------------
static int (*real_main)(int, char**, char**);

static bool parse(const std::string& line, Cfg& c) {
  memset(&c, 0, sizeof c);
  c.np = 1; c.cut = ~0ULL; c.eager = 1; c.max_delay = 1; c.stall_len = 1; c.max_dec = 20000000; c.wall_limit = 120; c.clock0 = 1600000000;
  c.eager_limit = 64;
  std::istringstream in(line);
  std::string t;
  while (in >> t) {
    size_t e = t.find('=');
    if (e == std::string::npos) return false;
    std::string k = t.substr(0, e), v = t.substr(e + 1);
    if (k == "np") c.np = atoi(v.c_str());
    else if (k == "seed") c.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "cut") c.cut = strtoull(v.c_str(), 0, 10);
    else if (k == "p_switch") c.p_switch = atoi(v.c_str());
    else if (k == "p_delay") c.p_delay = atoi(v.c_str());
    else if (k == "max_delay") c.max_delay = atoi(v.c_str());
    else if (k == "late") c.late = atoi(v.c_str());
    else if (k == "eager") c.eager = atoi(v.c_str());
    else if (k == "eager_limit") c.eager_limit = atoi(v.c_str());
    else if (k == "lazy_isend") c.lazy_isend = atoi(v.c_str());
    else if (k == "coll_sync") c.coll_sync = atoi(v.c_str());
    else if (k == "p_stall") c.p_stall = atoi(v.c_str());
    else if (k == "stall_len") c.stall_len = atoi(v.c_str());
    else if (k == "fill") c.fill = atoi(v.c_str());
    else if (k == "clock0") c.clock0 = atoll(v.c_str());
    else if (k == "p_jump") c.p_jump = atoi(v.c_str());
    else if (k == "skew") { std::istringstream s(v); std::string x; int i = 0; while (i < MAXR && std::getline(s, x, ',')) c.skew[i++] = atoll(x.c_str()); }
    else if (k == "trace") c.trace = atoi(v.c_str());
    else if (k == "max_dec") c.max_dec = strtoull(v.c_str(), 0, 10);
    else if (k == "wall") c.wall_limit = atoi(v.c_str());
    else if (k == "dir") snprintf(c.dir, sizeof c.dir, "%s", v.c_str());
    else if (k == "log") snprintf(c.logdir, sizeof c.logdir, "%s", v.c_str());
    else if (k == "arg") snprintf(c.arg, sizeof c.arg, "%s", v.c_str());
    else if (k == "fault") { // cls,kinds,rank,nth,action,err,persist[,path]
      if (c.nfault >= MAXFAULT) return false;
      Fault& f = c.fault[c.nfault++];
      char path[64] = "";
      int n = sscanf(v.c_str(), "%d,%u,%d,%ld,%d,%d,%d,%63s", &f.cls, &f.kinds, &f.rank, &f.nth, &f.action, &f.err, &f.persist, path);
      if (n < 7) return false;
      memcpy(f.path, path, sizeof path);
    }
    else return false;
  }
  return c.np >= 1 && c.np <= MAXR && c.dir[0];
}

static std::string esc(const char* s) {
  std::string o;
  for (; *s; s++) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if ((unsigned char)*s < 32) o += ' '; else o += *s; }
  return o;
}

static volatile sig_atomic_t alarmed;
static void on_alarm(int) { alarmed = 1; }

static void reset_shared(const Cfg& c) {
  char* a = sh->arena; size_t as = sh->arena_size;
  memset(sh, 0, sizeof *sh);
  sh->arena = a; sh->arena_size = as;
  sh->cfg = c;
  sh->rng = c.seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
  sh->next_ctx = 100;
  sh->stalled = -1; sh->last_rank = -1; sh->outcome_rank = -1;
}

static void rank_start(int r, const Cfg& c) {
  me = r;
  signal(SIGALRM, SIG_DFL); signal(SIGPIPE, SIG_DFL);
  char f[640];
  snprintf(f, sizeof f, "%s/out.%d", c.logdir[0] ? c.logdir : c.dir, r);
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
  int nul = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY, 0);
  dup2(nul, 0); dup2(fd >= 0 ? fd : nul, 1); dup2(fd >= 0 ? fd : nul, 2);
  if (fd > 2) syscall(SYS_close, fd);
  if (nul > 2) syscall(SYS_close, nul);
  if (c.trace) {
    snprintf(f, sizeof f, "%s/trace", c.logdir[0] ? c.logdir : c.dir);
    int t = syscall(SYS_openat, AT_FDCWD, f, O_CREAT | O_WRONLY | O_APPEND, 0644);
    trace_fd = fcntl(t, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, t);
  }
  if (chdir(c.dir) != 0) _exit(97);
  if (c.fill) mallopt(M_PERTURB, c.fill);
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = c.wall_limit; setrlimit(RLIMIT_CPU, &rl);
  while (!__atomic_load_n(&sh->go[me], __ATOMIC_ACQUIRE)) futex_wait(&sh->go[me]);
  sh->go[me] = 0;
  active = true;
}

static int run_job(const Cfg& c, pid_t* pids, int* st) {
  reset_shared(c);
  for (int r = 0; r < c.np; r++) { pids[r] = -1; st[r] = -1; }
  for (int r = 0; r < c.np; r++) {
    pid_t p = fork();
    if (p == 0) { rank_start(r, c); return r; }
    if (p < 0) { sh->outcome = O_USAGE; note("fork failed"); for (int k = 0; k < r; k++) { kill(pids[k], SIGKILL); waitpid(pids[k], nullptr, 0); } return -1; }
    pids[r] = p;
  }
  alarmed = 0;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
  alarm(c.wall_limit);
  int live = c.np;
  bool killed = false;
  me = -1;
  try { schedule_next(); } catch (int) {}
  while (live) {
    int s;
    pid_t p = waitpid(-1, &s, 0);
    if (p < 0) {
      if (errno == EINTR) {
        if (alarmed && !killed) {
          if (sh->outcome == O_NONE) { sh->outcome = O_TIMEOUT; sh->outcome_rank = sh->last_rank; }
          killed = true;
          for (int r = 0; r < c.np; r++) if (st[r] == -1) kill(pids[r], SIGKILL);
        }
        continue;
      }
      break;
    }
    int r;
    for (r = 0; r < c.np; r++) if (pids[r] == p) break;
    if (r == c.np) continue;
    st[r] = s; live--;
    bool held = sh->state[r] != R_DEAD && sh->last_rank == r;
    sh->state[r] = R_DEAD;
    if (killed) continue;
    bool improper = WIFSIGNALED(s) || (sh->inited[r] && !sh->finalized[r]);
    if (sh->outcome != O_NONE || improper) {
      // the launcher ends the job
      if (sh->outcome == O_NONE) { sh->outcome_rank = r; }
      killed = true;
      for (int k = 0; k < c.np; k++) if (st[k] == -1) kill(pids[k], SIGKILL);
      if (improper && sh->outcome == O_NONE) note("rank %d ended without finalizing", r);
      continue;
    }
    if (held && live) {
      try { schedule_next(); } catch (int) {
        killed = true;
        for (int k = 0; k < c.np; k++) if (st[k] == -1) kill(pids[k], SIGKILL);
      }
    }
  }
  alarm(0);
  return -1;
}

static void report(const Cfg& c, const int* st) {
  std::ostringstream o;
  static const char* on[] = { "done", "deadlock", "livelock", "abort", "killed", "timeout", "usage" };
  o << "{\"outcome\":\"" << on[sh->outcome] << "\",\"outcome_rank\":" << sh->outcome_rank << ",\"code\":" << sh->outcome_code << ",\"exit\":[";
  for (int r = 0; r < c.np; r++) o << (r ? "," : "") << (WIFEXITED(st[r]) ? WEXITSTATUS(st[r]) : -WTERMSIG(st[r]));
  o << "],\"finalized\":[";
  for (int r = 0; r < c.np; r++) o << (r ? "," : "") << sh->finalized[r];
  o << "],\"ndec\":" << sh->ndec << ",\"tick\":" << sh->tick << ",\"h_sched\":\"" << std::hex << sh->h_sched << "\",\"h_event\":\"" << sh->h_event << std::dec << "\"";
  o << ",\"switches\":" << sh->switches << ",\"preemptions\":" << sh->preemptions << ",\"delivered\":" << sh->delivered << ",\"delayed\":" << sh->delayed
    << ",\"rendezvous\":" << sh->rendezvous << ",\"stalls\":" << sh->stalls << ",\"jumps\":" << sh->jumps << ",\"lazy\":" << sh->lazy
    << ",\"mpicalls\":" << sh->mpicalls << ",\"colls\":" << sh->colls << ",\"msgs\":" << sh->msgs << ",\"vtime_ns\":" << sh->vtime << ",\"ioops\":" << sh->ioops;
  o << ",\"io\":[";
  for (int r = 0; r < c.np; r++) { o << (r ? ",[" : "["); for (int k = 0; k < IO_NKINDS; k++) o << (k ? "," : "") << sh->iocount[r][k]; o << "]"; }
  o << "],\"new\":[";
  for (int r = 0; r < c.np; r++) o << (r ? "," : "") << sh->newcount[r];
  o << "],\"malloc\":[";
  for (int r = 0; r < c.np; r++) o << (r ? "," : "") << sh->malloccount[r];
  o << "],\"faults\":[";
  for (int i = 0; i < c.nfault; i++) o << (i ? "," : "") << "[" << sh->cfg.fault[i].seen << "," << sh->cfg.fault[i].fired << "]";
  o << "],\"nanom\":" << sh->nanom << ",\"note\":\"" << esc(sh->note) << "\"}\n";
  std::string s = o.str();
  size_t off = 0;
  while (off < s.size()) { ssize_t n = syscall(SYS_write, 1, s.data() + off, s.size() - off); if (n <= 0) _exit(3); off += n; }
}

static int server_main(int argc, char** argv, char** envp) {
  if (!getenv("SIM_SERVER")) return real_main(argc, argv, envp);
  unsetenv("LD_PRELOAD"); unsetenv("SIM_SERVER"); unsetenv("LD_BIND_NOW");
  size_t as = (size_t)1 << 30;
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char* arena = (char*)mmap(nullptr, as, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED || arena == MAP_FAILED) { perror("mmap"); _exit(4); }
  sh->arena = arena; sh->arena_size = as;
  std::string buf;
  char b[8192];
  static pid_t pids[MAXR]; static int st[MAXR];
  for (;;) {
    size_t nl;
    while ((nl = buf.find('\n')) == std::string::npos) {
      ssize_t n = syscall(SYS_read, 0, b, sizeof b);
      if (n < 0 && errno == EINTR) continue;
      if (n <= 0) _exit(0);
      buf.append(b, n);
    }
    std::string line = buf.substr(0, nl);
    buf.erase(0, nl + 1);
    static Cfg c;
    if (!parse(line, c)) { static const char e[] = "{\"outcome\":\"badcfg\"}\n"; syscall(SYS_write, 1, e, sizeof e - 1); continue; }
    int r = run_job(c, pids, st);
    if (r >= 0) { // in a rank
      static char a0[] = "Peridigm";
      static char* av[3]; av[0] = a0; av[1] = c.arg; av[2] = nullptr;
      return real_main(c.arg[0] ? 2 : 1, av, environ);
    }
    report(c, st);
    if (sh->arena_used > (64u << 20)) madvise(sh->arena, sh->arena_used, MADV_REMOVE);
  }
}

} // namespace sim

extern "C" int __libc_start_main(int (*main)(int, char**, char**), int argc, char** argv, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void* stack_end) {
  typedef int (*fn)(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*);
  fn real = (fn)dlsym(RTLD_NEXT, "__libc_start_main");
  sim::real_main = main;
  return real(sim::server_main, argc, argv, init, fini, rtld_fini, stack_end);
}

// ---- clock interposition ------------------------------------------------------------------
extern "C" {
time_t time(time_t* t) noexcept {
  time_t v;
  if (sim::active) v = sim::now_ns() / 1000000000LL;
  else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  if (t) *t = v;
  return v;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  int64_t n;
  if (sim::active) n = sim::now_ns();
  else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); n = ts.tv_sec * 1000000000LL + ts.tv_nsec; }
  tv->tv_sec = n / 1000000000LL; tv->tv_usec = (n % 1000000000LL) / 1000;
  return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!sim::active) return syscall(SYS_clock_gettime, id, ts);
  int64_t n = sim::now_ns();
  ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL;
  return 0;
}
clock_t clock(void) noexcept { return sim::active ? (clock_t)(sim::sh->vtime / 1000) : 0; }
static void sim_sleep(int64_t ns) { sim::sh->vtime += ns; sim::yield_point(); }
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!sim::active) return syscall(SYS_nanosleep, a, b);
  sim_sleep(a->tv_sec * 1000000000LL + a->tv_nsec); return 0;
}
int usleep(useconds_t u) { if (!sim::active) { struct timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return syscall(SYS_nanosleep, &t, nullptr); } sim_sleep(u * 1000LL); return 0; }
unsigned sleep(unsigned s) { if (!sim::active) { struct timespec t = { (time_t)s, 0 }; syscall(SYS_nanosleep, &t, nullptr); return 0; } sim_sleep(s * 1000000000LL); return 0; }
}
