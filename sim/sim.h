// Shared definitions of the simulated machine (preload library libsim.so).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/types.h>

namespace sim {

const int MAXR = 16;
const int MAXFAULT = 8;

enum IoKind { IO_OPEN_R=0, IO_OPEN_W, IO_READ, IO_WRITE, IO_CLOSE, IO_SYNC, IO_TRUNC, IO_MKDIR, IO_RENAME, IO_UNLINK,
              IO_STAT, IO_SYSTEM, IO_POPEN, IO_NKINDS };
enum Action { ACT_ERRNO=1, ACT_SHORT, ACT_KILL, ACT_TORN_KILL, ACT_KILL_AFTER };
enum FaultClass { FC_IO=1, FC_MPI=2, FC_NEW=3, FC_MALLOC=4 };

struct Fault {
  int cls;            // FaultClass
  unsigned kinds;     // mask of IoKind for FC_IO
  int rank;           // -1: any
  long nth;           // 1-based index among the matching operations
  int action;
  int err;            // errno for ACT_ERRNO
  int persist;        // keep failing from then on
  char path[64];      // substring the path has to contain ("" any)
  long seen;          // matching operations so far
  long fired;
};

struct Cfg {
  int np;
  uint64_t seed;
  uint64_t cut;         // scheduling decisions from this index on take the default
  int p_switch;         // per mille: preempt at a call
  int p_delay;          // per mille: delay a message
  int max_delay;        // in ticks
  int late;             // deliver only when nothing else can run
  int eager;            // sends above eager_limit: 0 wait until matched, 1 buffered, 2 random
  int eager_limit;
  int lazy_isend;       // per mille: buffer of a nonblocking send is read as late as possible
  int coll_sync;        // per mille: a process that may leave a collective early has to wait for all
  int p_stall;          // per mille: start stalling a rank
  int stall_len;
  int fill;             // heap fill byte, 0 off
  int64_t clock0;       // seconds
  int p_jump;           // per mille per clock reading: clock jump
  int64_t skew[MAXR];
  int trace;            // 1: event log
  uint64_t max_dec;
  int wall_limit;       // seconds
  int nfault;
  Fault fault[MAXFAULT];
  char dir[512];
  char logdir[512];
  char arg[256];
};

enum RState { R_READY=0, R_BLOCKED, R_DEAD };
enum Outcome { O_NONE=0, O_DEADLOCK, O_LIVELOCK, O_ABORT, O_KILLED, O_TIMEOUT, O_USAGE };

struct Msg {
  Msg* next;
  int src, dst;         // world ranks
  int ctx, tag;
  size_t len;
  char* data;
  int sync;             // sender waits for the match
  int matched;
  int refs;             // receiver side + sender side references
  uint64_t due;
  int held;             // data not read from the user's buffer yet
};

struct RecvRec {
  RecvRec* next;
  int ctx, src, tag;    // src: world rank or -1
  Msg* msg;
};

struct Chan { Msg* head; Msg* tail; };

struct Coll {
  Coll* next;
  int ctx; long seq;
  int kind, root;
  long sig;             // size signature, -1 not compared
  int opid;
  int n;                // communicator size
  int arrived, left;
  int newctx;
  int sync_all;
  char here[MAXR];
  char blocked[MAXR];   // world rank waiting on it
  char* data[MAXR];     // by communicator rank
  size_t len[MAXR];
  size_t* lens[MAXR];   // per-destination lengths (alltoallv, scatterv)
};

struct Shared {
  Cfg cfg;
  int go[MAXR+1];       // futex words; index np is the controller (unused)
  int state[MAXR];
  int inited[MAXR], finalized[MAXR];
  int wants_probe[MAXR];
  const char* where[MAXR]; // last message call of each rank (string constant)
  uint64_t rng;
  uint64_t ndec, tick;
  uint64_t h_sched, h_event;
  uint64_t switches, preemptions, delivered, delayed, rendezvous, reorders, stalls, jumps, lazy, mpicalls, colls, msgs;
  uint64_t vtime;       // ns
  int64_t clock_off;    // ns, from jumps
  int last_rank;
  int stalled; uint64_t stall_until;
  int outcome; int outcome_rank; int outcome_code;
  char note[4096]; int note_len;
  int nanom;
  Chan chan[MAXR][MAXR];
  uint64_t last_due[MAXR][MAXR];
  Msg* unexp[MAXR]; Msg* unexp_tail[MAXR];
  RecvRec* posted[MAXR]; RecvRec* posted_tail[MAXR];
  Coll* colls_head;
  int next_ctx;
  long iocount[MAXR][IO_NKINDS];
  long ioops;
  long newcount[MAXR], malloccount[MAXR];
  long short_reads;
  // arena
  char* arena; size_t arena_size, arena_used;
  void* freel[48];
};

extern Shared* sh;
extern int me;          // world rank, -1 outside a rank
extern bool active;     // inside a rank between start and exit

void note(const char* fmt, ...);
void anomaly(const char* fmt, ...);
void yield_point();
[[noreturn]] void stop_job(int outcome, int code);
void* shalloc(size_t n);
void shfree(void* p, size_t n);
uint32_t choose(uint32_t n);
bool coin(int permille);
void ev(uint64_t a, uint64_t b, uint64_t c, uint64_t d);
void schedule_next();
void block_me();
void poll_pass();
void wake(int r);
void trace(const char* fmt, ...);
}
