// The message-passing layer of the simulated machine: every MPI call of the program ends here.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <mpi.h>
#include <algorithm>
#include <complex>
#include <map>
#include <vector>
#include <unistd.h>
#include <cstdarg>

using namespace sim;
namespace sim { double wtime(); void flush_lazy(); bool fault_hit(int cls, int kind, const char* path, Fault** out); void mpi_fault_point(); }

namespace {

enum Kind { K_BARRIER = 1, K_BCAST, K_ALLREDUCE, K_REDUCE, K_GATHER, K_GATHERV, K_ALLGATHER, K_ALLGATHERV, K_SCATTER, K_SCATTERV,
            K_ALLTOALL, K_ALLTOALLV, K_SCAN, K_EXSCAN, K_REDSCAT, K_DUP, K_SPLIT, K_CREATE, K_FREE, K_FINALIZE };
const char* kname[] = { "?", "Barrier", "Bcast", "Allreduce", "Reduce", "Gather", "Gatherv", "Allgather", "Allgatherv", "Scatter", "Scatterv",
                        "Alltoall", "Alltoallv", "Scan", "Exscan", "Reduce_scatter", "Comm_dup", "Comm_split", "Comm_create", "Comm_free", "Finalize" };

enum Base { B_NONE, B_CHAR, B_SCHAR, B_UCHAR, B_SHORT, B_USHORT, B_INT, B_UINT, B_LONG, B_ULONG, B_LL, B_ULL, B_FLOAT, B_DOUBLE, B_LDOUBLE, B_BOOL,
            B_BYTE, B_FLOATINT, B_DOUBLEINT, B_2INT, B_CF, B_CD };

struct DT {
  unsigned magic = 0xDA7A;
  size_t size = 0; MPI_Aint lb = 0, extent = 0;
  std::vector<std::pair<MPI_Aint, size_t>> seg; // displacement, length
  Base base = B_NONE;
  bool contig() const { return seg.size() == 1 && seg[0].first == 0 && (MPI_Aint)size == extent; }
};

std::map<void*, DT*>& builtins() {
  static std::map<void*, DT*> m;
  if (m.empty()) {
    auto add = [&](MPI_Datatype t, size_t n, Base b) { DT* d = new DT; d->size = n; d->extent = n; d->base = b; d->seg.push_back({0, n}); m[(void*)t] = d; };
    add(MPI_CHAR, 1, B_CHAR); add(MPI_SIGNED_CHAR, 1, B_SCHAR); add(MPI_UNSIGNED_CHAR, 1, B_UCHAR); add(MPI_BYTE, 1, B_BYTE); add(MPI_PACKED, 1, B_BYTE);
    add(MPI_SHORT, 2, B_SHORT); add(MPI_UNSIGNED_SHORT, 2, B_USHORT); add(MPI_INT, 4, B_INT); add(MPI_UNSIGNED, 4, B_UINT);
    add(MPI_LONG, 8, B_LONG); add(MPI_UNSIGNED_LONG, 8, B_ULONG); add(MPI_LONG_LONG_INT, 8, B_LL); add(MPI_UNSIGNED_LONG_LONG, 8, B_ULL);
    add(MPI_FLOAT, 4, B_FLOAT); add(MPI_DOUBLE, 8, B_DOUBLE); add(MPI_LONG_DOUBLE, sizeof(long double), B_LDOUBLE); add(MPI_C_BOOL, 1, B_BOOL);
    add(MPI_CXX_BOOL, 1, B_BOOL);
    add(MPI_INT8_T, 1, B_SCHAR); add(MPI_UINT8_T, 1, B_UCHAR); add(MPI_INT16_T, 2, B_SHORT); add(MPI_UINT16_T, 2, B_USHORT);
    add(MPI_INT32_T, 4, B_INT); add(MPI_UINT32_T, 4, B_UINT); add(MPI_INT64_T, 8, B_LONG); add(MPI_UINT64_T, 8, B_ULONG);
    add(MPI_FLOAT_INT, 8, B_FLOATINT); add(MPI_DOUBLE_INT, 16, B_DOUBLEINT); add(MPI_2INT, 8, B_2INT);
    add(MPI_C_FLOAT_COMPLEX, 8, B_CF); add(MPI_C_DOUBLE_COMPLEX, 16, B_CD); add(MPI_CXX_FLOAT_COMPLEX, 8, B_CF); add(MPI_CXX_DOUBLE_COMPLEX, 16, B_CD);
    add(MPI_COMPLEX, 8, B_CF); add(MPI_DOUBLE_COMPLEX, 16, B_CD);
    add(MPI_AINT, 8, B_LONG); add(MPI_OFFSET, 8, B_LONG); add(MPI_COUNT, 8, B_LONG); add(MPI_WCHAR, 4, B_INT);
    m[(void*)MPI_DOUBLE_INT]->size = 12; m[(void*)MPI_DOUBLE_INT]->seg[0].second = 12;
  }
  return m;
}

[[noreturn]] void usage(const char* fmt, ...) {
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  note("usage: rank %d: %s", me, b);
  stop_job(O_USAGE, 0);
}

DT* dt(MPI_Datatype t) {
  static std::map<void*, DT*>& m = builtins();
  static void* lastk = nullptr; static DT* lastv = nullptr;
  if ((void*)t == lastk) return lastv;
  auto it = m.find((void*)t);
  if (it != m.end()) { lastk = (void*)t; lastv = it->second; return it->second; }
  DT* d = (DT*)t;
  if (!d || d->magic != 0xDA7A) usage("invalid datatype");
  return d;
}

void pack(char* out, const void* buf, long count, const DT* d) {
  const char* b = (const char*)buf;
  if (d->contig()) { if (count && d->size) memcpy(out, b, count * d->size); return; }
  for (long i = 0; i < count; i++, b += d->extent) for (auto& s : d->seg) { memcpy(out, b + s.first, s.second); out += s.second; }
}
void unpack(void* buf, const char* in, size_t len, const DT* d) {
  char* b = (char*)buf;
  if (d->contig()) { if (len) memcpy(b, in, len); return; }
  for (; len;  b += d->extent) for (auto& s : d->seg) { size_t n = std::min(len, s.second); memcpy(b + s.first, in, n); in += n; len -= n; if (!len) return; }
}

struct Op { unsigned magic = 0x0909; MPI_User_function* fn; int commute; };

struct Comm {
  unsigned magic = 0xC033;
  int ctx, size, rank;
  std::vector<int> world;
  long seq = 0;
  std::map<int, void*> attrs;
  int inv(int w) const { for (int i = 0; i < size; i++) if (world[i] == w) return i; return -1; }
};
struct Group { unsigned magic = 0x6009; std::vector<int> world; };

Comm *cw = nullptr, *cs = nullptr;
void mkcomms() {
  if (cw) return;
  cw = new Comm; cw->ctx = 0; cw->size = sh->cfg.np; cw->rank = me; for (int i = 0; i < cw->size; i++) cw->world.push_back(i);
  cs = new Comm; cs->ctx = 10 + me; cs->size = 1; cs->rank = 0; cs->world.push_back(me);
}
Comm* comm(MPI_Comm c, const char* who) {
  if (!sh || !sh->inited[me] ) usage("%s before MPI_Init", who);
  if (sh->finalized[me]) usage("%s after MPI_Finalize", who);
  mkcomms();
  if (c == MPI_COMM_WORLD) return cw;
  if (c == MPI_COMM_SELF) return cs;
  if (c == MPI_COMM_NULL || !c) usage("%s: null communicator", who);
  Comm* p = (Comm*)c;
  if (p->magic != 0xC033) usage("%s: invalid communicator", who);
  return p;
}

struct Req {
  unsigned magic = 0x4E90;
  bool send; bool done = false;
  Msg* msg = nullptr;           // send
  RecvRec* rec = nullptr;       // receive
  void* buf; long cap = 0; DT* type; Comm* c;
  bool lazy = false; long cnt = 0; bool null_proc = false;
};
std::vector<Req*> lazies;
long live_reqs = 0;

void enter(const char* who, const Comm* c) {
  sh->mpicalls++;
  sh->where[me] = who;
  trace("%s ctx=%d", who, c ? c->ctx : -1);
  mpi_fault_point();
  yield_point();
}

void snap(Req* r) {
  if (!r->lazy) return;
  r->lazy = false;
  pack(r->msg->data, r->buf, r->cnt, r->type);
  r->msg->held = 0;
  lazies.erase(std::find(lazies.begin(), lazies.end(), r));
}

void drop(Msg* m) { if (--m->refs == 0) { shfree(m->data, m->len); shfree(m, sizeof(Msg)); } }

// mode: 0 standard, 1 synchronous, 2 ready, 3 buffered
Req* isend(const void* buf, int count, MPI_Datatype t, int dest, int tag, Comm* c, int mode, bool nonblocking) {
  DT* d = dt(t);
  Req* r = new Req; live_reqs++;
  r->send = true; r->buf = (void*)buf; r->type = d; r->c = c; r->cnt = count;
  if (dest == MPI_PROC_NULL) { r->done = true; r->null_proc = true; return r; }
  if (dest < 0 || dest >= c->size) usage("send to invalid rank %d of %d", dest, c->size);
  if (count < 0) usage("send with negative count");
  if (tag < 0) usage("send with negative tag");
  int dw = c->world[dest];
  size_t len = (size_t)count * d->size;
  Msg* m = (Msg*)shalloc(sizeof(Msg));
  memset(m, 0, sizeof *m);
  m->src = me; m->dst = dw; m->ctx = c->ctx; m->tag = tag; m->len = len; m->refs = 2;
  m->data = (char*)shalloc(len);
  if (mode == 1) m->sync = 1;
  else if (mode == 0) {
    // small messages are always buffered (every MPI does); larger ones may wait for their receiver
    if (len > (size_t)sh->cfg.eager_limit) m->sync = sh->cfg.eager == 0 ? 1 : sh->cfg.eager == 2 ? coin(500) : 0;
  } else if (mode == 2) {
    bool ok = false;
    for (RecvRec* p = sh->posted[dw]; p; p = p->next) if (p->ctx == m->ctx && (p->src == -1 || p->src == me) && (p->tag == -1 || p->tag == tag)) { ok = true; break; }
    if (!ok) anomaly("ready send from %d to %d tag %d without a posted receive", me, dw, tag);
  }
  if (m->sync) sh->rendezvous++;
  r->msg = m;
  if (nonblocking && coin(sh->cfg.lazy_isend)) { r->lazy = true; m->held = 1; lazies.push_back(r); sh->lazy++; }
  else pack(m->data, buf, count, d);
  m->due = 0;
  if (!sh->cfg.late && coin(sh->cfg.p_delay)) { m->due = sh->tick + 1 + choose(sh->cfg.max_delay); sh->delayed++; }
  sh->msgs++;
  Chan& ch = sh->chan[me][dw];
  if (ch.tail) ch.tail->next = m; else ch.head = m;
  ch.tail = m;
  ev(1, dw * 1000003ULL + tag, len, m->ctx);
  trace("send to %d tag %d len %zu sync %d", dw, tag, len, m->sync);
  return r;
}

Req* irecv(void* buf, int count, MPI_Datatype t, int src, int tag, Comm* c) {
  Req* r = new Req; live_reqs++;
  r->send = false; r->buf = buf; r->type = dt(t); r->c = c; r->cap = (long)count * (long)r->type->size;
  if (src == MPI_PROC_NULL) { r->done = true; r->null_proc = true; return r; }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= c->size)) usage("receive from invalid rank %d of %d", src, c->size);
  RecvRec* p = (RecvRec*)shalloc(sizeof(RecvRec));
  p->next = nullptr; p->msg = nullptr; p->ctx = c->ctx; p->src = src == MPI_ANY_SOURCE ? -1 : c->world[src]; p->tag = tag == MPI_ANY_TAG ? -1 : tag;
  r->rec = p;
  Msg *m = sh->unexp[me], *prev = nullptr;
  for (; m; prev = m, m = m->next) if (m->ctx == p->ctx && (p->src == -1 || p->src == m->src) && (p->tag == -1 || p->tag == m->tag)) break;
  if (m) {
    if (prev) prev->next = m->next; else sh->unexp[me] = m->next;
    if (sh->unexp_tail[me] == m) sh->unexp_tail[me] = prev;
    m->next = nullptr; m->matched = 1; p->msg = m;
    if (m->sync) wake(m->src);
  } else {
    if (sh->posted_tail[me]) sh->posted_tail[me]->next = p; else sh->posted[me] = p;
    sh->posted_tail[me] = p;
  }
  return r;
}

bool ready(Req* r) {
  if (r->done) return true;
  if (r->send) { if (r->lazy) snap(r); return !r->msg->sync || r->msg->matched; }
  return r->rec->msg != nullptr;
}

void set_status(MPI_Status* s, int src, int tag, size_t len) {
  if (s == MPI_STATUS_IGNORE || !s) return;
  s->MPI_SOURCE = src; s->MPI_TAG = tag; s->MPI_ERROR = MPI_SUCCESS; s->_cancelled = 0; s->_ucount = len;
}

// finish a ready request and release it
void finish(Req* r, MPI_Status* s) {
  if (r->null_proc) { set_status(s, MPI_PROC_NULL, MPI_ANY_TAG, 0); }
  else if (r->send) { set_status(s, 0, 0, 0); drop(r->msg); }
  else {
    Msg* m = r->rec->msg;
    if ((long)m->len > r->cap) usage("message of %zu bytes from %d tag %d truncated to %ld", m->len, m->src, m->tag, r->cap);
    unpack(r->buf, m->data, m->len, r->type);
    ev(2, m->src * 1000003ULL + m->tag, m->len, m->ctx);
    trace("recv from %d tag %d len %zu", m->src, m->tag, m->len);
    set_status(s, r->c->inv(m->src), m->tag, m->len);
    drop(m);
    shfree(r->rec, sizeof(RecvRec));
  }
  delete r; live_reqs--;
}

Req* rq(MPI_Request q) {
  Req* r = (Req*)q;
  if (r->magic != 0x4E90) usage("invalid request");
  return r;
}

// ---- collectives --------------------------------------------------------------------------
Coll* coll_enter(Comm* c, int kind, int root, long sig, int opid, const char* data, size_t len, const std::vector<size_t>* lens = nullptr) {
  enter(kname[kind], c);
  long seq = c->seq++;
  Coll* o = sh->colls_head;
  for (; o; o = o->next) if (o->ctx == c->ctx && o->seq == seq) break;
  if (!o) {
    o = (Coll*)shalloc(sizeof(Coll));
    memset(o, 0, sizeof *o);
    o->ctx = c->ctx; o->seq = seq; o->kind = kind; o->root = root; o->sig = sig; o->opid = opid; o->n = c->size;
    o->newctx = sh->next_ctx; if (kind == K_DUP || kind == K_SPLIT || kind == K_CREATE) sh->next_ctx += c->size + 1;
    o->sync_all = coin(sh->cfg.coll_sync);
    o->next = sh->colls_head; sh->colls_head = o;
    sh->colls++;
  } else {
    if (o->kind != kind) usage("collective mismatch: %s here while another process of the group is in %s", kname[kind], kname[o->kind]);
    if (o->root != root) usage("collective mismatch: %s with root %d here, %d elsewhere", kname[kind], root, o->root);
    if (o->sig != -1 && sig != -1 && o->sig != sig) usage("collective mismatch: %s of %ld bytes here, %ld elsewhere", kname[kind], sig, o->sig);
    if (o->opid != opid) usage("collective mismatch: %s with different operations", kname[kind]);
    if (o->sig == -1) o->sig = sig;
  }
  char* p = nullptr;
  if (data || len) { p = (char*)shalloc(len); if (len) memcpy(p, data, len); }
  o->data[c->rank] = p; o->len[c->rank] = len; o->here[c->rank] = 1;
  if (lens) { o->lens[c->rank] = (size_t*)shalloc(sizeof(size_t) * (lens->size() + 1)); memcpy(o->lens[c->rank], lens->data(), sizeof(size_t) * lens->size()); }
  o->arrived++;
  for (int r = 0; r < sh->cfg.np; r++) if (o->blocked[r]) wake(r);
  ev(3, kind * 1000003ULL + o->arrived, len, seq);
  return o;
}
// from: wait for communicator ranks [lo,hi)
void coll_wait(Coll* o, int lo, int hi) {
  if (o->sync_all) { lo = 0; hi = o->n; }
  for (;;) {
    bool ok = true;
    for (int i = lo; i < hi; i++) if (!o->here[i]) { ok = false; break; }
    if (ok) break;
    o->blocked[me] = 1;
    block_me();
  }
  o->blocked[me] = 0;
}
void coll_leave(Coll* o) {
  if (++o->left < o->n) return;
  for (int i = 0; i < o->n; i++) { if (o->data[i]) shfree(o->data[i], o->len[i]); if (o->lens[i]) shfree(o->lens[i], sizeof(size_t) * (o->n + 1)); }
  Coll** p = &sh->colls_head;
  while (*p != o) p = &(*p)->next;
  *p = o->next;
  shfree(o, sizeof(Coll));
}

int opid(MPI_Op op) {
  static MPI_Op b[] = { MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC };
  for (int i = 0; i < 12; i++) if (b[i] == op) return i + 1;
  return 0;
}

template <class T> void red(int id, const T* a, T* b, long n) {
  for (long i = 0; i < n; i++) switch (id) {
    case 1: b[i] = std::max(a[i], b[i]); break; case 2: b[i] = std::min(a[i], b[i]); break; case 3: b[i] = a[i] + b[i]; break; case 4: b[i] = a[i] * b[i]; break;
    case 5: b[i] = a[i] && b[i]; break; case 7: b[i] = a[i] || b[i]; break; case 9: b[i] = !a[i] != !b[i]; break; default: usage("unsupported reduction %d", id); }
}
template <class T> void redi(int id, const T* a, T* b, long n) {
  if (id != 6 && id != 8 && id != 10) { red<T>(id, a, b, n); return; }
  for (long i = 0; i < n; i++) switch (id) { case 6: b[i] = a[i] & b[i]; break; case 8: b[i] = a[i] | b[i]; break; default: b[i] = a[i] ^ b[i]; }
}
template <class V> struct Loc { V v; int i; };
template <class V> void redl(int id, const Loc<V>* a, Loc<V>* b, long n) {
  for (long i = 0; i < n; i++) {
    bool take = id == 11 ? (a[i].v > b[i].v || (a[i].v == b[i].v && a[i].i < b[i].i)) : (a[i].v < b[i].v || (a[i].v == b[i].v && a[i].i < b[i].i));
    if (take) b[i] = a[i];
  }
}
template <class T> void redc(int id, const T* a, T* b, long n) { for (long i = 0; i < n; i++) { if (id == 3) b[i] = a[i] + b[i]; else if (id == 4) b[i] = a[i] * b[i]; else usage("complex reduction"); } }

// b = a op b on unpacked buffers
void apply(MPI_Op op, const char* a, char* b, int count, MPI_Datatype t) {
  int id = opid(op);
  if (!id) {
    Op* o = (Op*)op;
    if (!o || o->magic != 0x0909) usage("invalid operation");
    o->fn((void*)a, b, &count, &t);
    return;
  }
  DT* d = dt(t);
  long n = (long)count;
  if (d->base == B_NONE) usage("builtin reduction on a derived type");
#define R(B, F, T) case B: F<T>(id, (const T*)a, (T*)b, n); break;
  if (builtins().find((void*)t) == builtins().end()) n = n * (d->size / 1) ; // contiguous derived types are expanded below
  if (builtins().find((void*)t) == builtins().end()) {
    size_t e = 1; switch (d->base) { case B_INT: case B_UINT: case B_FLOAT: e = 4; break; case B_LONG: case B_ULONG: case B_LL: case B_ULL: case B_DOUBLE: e = 8; break; case B_SHORT: case B_USHORT: e = 2; break; default: break; }
    n /= e;
  }
  switch (d->base) {
    R(B_CHAR, redi, char) R(B_SCHAR, redi, signed char) R(B_UCHAR, redi, unsigned char) R(B_BYTE, redi, unsigned char) R(B_BOOL, redi, unsigned char)
    R(B_SHORT, redi, short) R(B_USHORT, redi, unsigned short) R(B_INT, redi, int) R(B_UINT, redi, unsigned) R(B_LONG, redi, long) R(B_ULONG, redi, unsigned long)
    R(B_LL, redi, long long) R(B_ULL, redi, unsigned long long) R(B_FLOAT, red, float) R(B_DOUBLE, red, double) R(B_LDOUBLE, red, long double)
    R(B_CF, redc, std::complex<float>) R(B_CD, redc, std::complex<double>)
    case B_FLOATINT: redl<float>(id, (const Loc<float>*)a, (Loc<float>*)b, n); break;
    case B_DOUBLEINT: redl<double>(id, (const Loc<double>*)a, (Loc<double>*)b, n); break;
    case B_2INT: redl<int>(id, (const Loc<int>*)a, (Loc<int>*)b, n); break;
    default: usage("reduction on unsupported type");
  }
#undef R
}

// reduce contributions of ranks lo..hi-1 (rank order) into the user's buffer
void reduce_into(Coll* o, int lo, int hi, void* recv, int count, MPI_Datatype t, MPI_Op op) {
  DT* d = dt(t);
  if (!count) return;
  size_t sz = (size_t)count * d->extent + 64;
  std::vector<char> acc(sz), tmp(sz);
  // op(a,b): b = a op b; accumulate from the highest rank down so that the result is r_lo op (r_lo+1 op ...)
  unpack(acc.data(), o->data[hi - 1], o->len[hi - 1], d);
  for (int i = hi - 2; i >= lo; i--) { unpack(tmp.data(), o->data[i], o->len[i], d); apply(op, tmp.data(), acc.data(), count, t); }
  std::vector<char> packed((size_t)count * d->size);
  pack(packed.data(), acc.data(), count, d);
  unpack(recv, packed.data(), packed.size(), d);
}

std::vector<char> packed(const void* buf, long count, DT* d) { std::vector<char> v((size_t)count * d->size + 1); pack(v.data(), buf, count, d); return v; }

Comm* newcomm(int ctx, const std::vector<int>& world) {
  Comm* n = new Comm; n->ctx = ctx; n->size = world.size(); n->world = world; n->rank = n->inv(me); return n;
}

struct KV { MPI_Comm_copy_attr_function* cp; MPI_Comm_delete_attr_function* del; void* extra; };
std::vector<KV> kvs;

void outstanding() {
  int w = 0;
  for (Msg* m = sh->unexp[me]; m; m = m->next) { w++; anomaly("message from %d to %d tag %d (%zu bytes) never received", m->src, me, m->tag, m->len); }
  for (int s = 0; s < sh->cfg.np; s++) for (Msg* m = sh->chan[s][me].head; m; m = m->next) anomaly("message from %d to %d tag %d (%zu bytes) still in flight at finalize", s, me, m->tag, m->len);
  if (sh->posted[me]) anomaly("receive still posted on rank %d at finalize", me);
}

} // namespace

namespace sim {
void flush_lazy() { while (!lazies.empty()) snap(lazies.front()); }
}

#define BLOCK_UNTIL(cond) do { if (!(cond)) { flush_lazy(); while (!(cond)) block_me(); } } while (0)

extern "C" {

int MPI_Init(int*, char***) { if (sh->inited[me]) usage("MPI_Init twice"); sh->inited[me] = 1; mkcomms(); enter("Init", nullptr); return 0; }
int MPI_Init_thread(int* a, char*** b, int, int* p) { *p = MPI_THREAD_SINGLE; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { *f = active ? sh->inited[me] : 0; return 0; }
int MPI_Finalized(int* f) { *f = active ? sh->finalized[me] : 0; return 0; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_SINGLE; return 0; }
int MPI_Finalize(void) {
  Comm* c = comm(MPI_COMM_WORLD, "MPI_Finalize");
  // attributes of COMM_SELF are deleted first
  while (!cs->attrs.empty()) { auto it = cs->attrs.begin(); int k = it->first; void* v = it->second; cs->attrs.erase(it); if (kvs[k].del) kvs[k].del(MPI_COMM_SELF, k, v, kvs[k].extra); }
  flush_lazy();
  Coll* o = coll_enter(c, K_FINALIZE, 0, 0, 0, nullptr, 0);
  coll_wait(o, 0, c->size); coll_leave(o);
  outstanding();
  sh->finalized[me] = 1;
  return 0;
}
int MPI_Abort(MPI_Comm, int code) { note("MPI_Abort(%d) on rank %d", code, me); stop_job(O_ABORT, code); }
double MPI_Wtime(void) { return wtime(); }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int e, char* s, int* l) { *l = sprintf(s, "MPI error %d", e); return 0; }
int MPI_Error_class(int e, int* c) { *c = e; return 0; }

// ---- point to point
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm cc, MPI_Request* q) { Comm* c = comm(cc, "Isend"); enter("Isend", c); *q = (MPI_Request)isend(b, n, t, d, tag, c, 0, true); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm cc, MPI_Request* q) { Comm* c = comm(cc, "Issend"); enter("Issend", c); *q = (MPI_Request)isend(b, n, t, d, tag, c, 1, true); return 0; }
int MPI_Irsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm cc, MPI_Request* q) { Comm* c = comm(cc, "Irsend"); enter("Irsend", c); *q = (MPI_Request)isend(b, n, t, d, tag, c, 2, true); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm cc, MPI_Request* q) { Comm* c = comm(cc, "Irecv"); enter("Irecv", c); *q = (MPI_Request)irecv(b, n, t, s, tag, c); return 0; }
static int bsend(const char* who, const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm cc, int mode) {
  Comm* c = comm(cc, who); enter(who, c); Req* r = isend(b, n, t, d, tag, c, mode, false); BLOCK_UNTIL(ready(r)); finish(r, nullptr); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return bsend("Send", b, n, t, d, tag, c, 0); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return bsend("Ssend", b, n, t, d, tag, c, 1); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return bsend("Rsend", b, n, t, d, tag, c, 2); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm cc, MPI_Status* st) {
  Comm* c = comm(cc, "Recv"); enter("Recv", c); Req* r = irecv(b, n, t, s, tag, c); BLOCK_UNTIL(ready(r)); finish(r, st); return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm cc, MPI_Status* stat) {
  Comm* c = comm(cc, "Sendrecv"); enter("Sendrecv", c);
  Req* r = irecv(rb, rn, rt, s, rtag, c); Req* q = isend(sb, sn, st, d, stag, c, 0, false);
  BLOCK_UNTIL(ready(r) && ready(q)); finish(q, nullptr); finish(r, stat); return 0; }
int MPI_Wait(MPI_Request* q, MPI_Status* st) {
  if (*q == MPI_REQUEST_NULL) { set_status(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
  enter("Wait", nullptr); Req* r = rq(*q); BLOCK_UNTIL(ready(r)); finish(r, st); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) {
  enter("Waitall", nullptr);
  auto all = [&] { for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && !ready(rq(q[i]))) return false; return true; };
  BLOCK_UNTIL(all());
  for (int i = 0; i < n; i++) { MPI_Status* s = st == MPI_STATUSES_IGNORE ? nullptr : st + i; if (q[i] == MPI_REQUEST_NULL) set_status(s, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); else { finish(rq(q[i]), s); q[i] = MPI_REQUEST_NULL; } }
  return 0; }
static int ready_set(int n, MPI_Request* q, std::vector<int>& v) { v.clear(); int act = 0; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { act++; if (ready(rq(q[i]))) v.push_back(i); } return act; }
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st) {
  enter("Waitany", nullptr);
  std::vector<int> v;
  if (!ready_set(n, q, v)) { *idx = MPI_UNDEFINED; return 0; }
  BLOCK_UNTIL((ready_set(n, q, v), !v.empty()));
  *idx = v[choose(v.size())]; finish(rq(q[*idx]), st); q[*idx] = MPI_REQUEST_NULL; return 0; }
int MPI_Waitsome(int n, MPI_Request* q, int* cnt, int* idx, MPI_Status* st) {
  enter("Waitsome", nullptr);
  std::vector<int> v;
  if (!ready_set(n, q, v)) { *cnt = MPI_UNDEFINED; return 0; }
  BLOCK_UNTIL((ready_set(n, q, v), !v.empty()));
  int k = 0;
  for (int i : v) { if (k && coin(200)) continue; idx[k] = i; finish(rq(q[i]), st == MPI_STATUSES_IGNORE ? nullptr : st + k); q[i] = MPI_REQUEST_NULL; k++; }
  *cnt = k; return 0; }
// polling calls yield to others so that polling loops make progress
static void poll_yield() { poll_pass(); }
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st) {
  if (*q == MPI_REQUEST_NULL) { *f = 1; set_status(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
  enter("Test", nullptr); Req* r = rq(*q); *f = ready(r);
  if (!*f) { poll_yield(); *f = ready(r); }
  if (*f) { finish(r, st); *q = MPI_REQUEST_NULL; } return 0; }
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* st) {
  enter("Testall", nullptr); *f = 1;
  for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && !ready(rq(q[i]))) *f = 0;
  if (!*f) { poll_yield(); return 0; }
  for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { finish(rq(q[i]), st == MPI_STATUSES_IGNORE ? nullptr : st + i); q[i] = MPI_REQUEST_NULL; }
  return 0; }
static Msg* find_unexp(Comm* c, int s, int tag) {
  for (Msg* m = sh->unexp[me]; m; m = m->next) if (m->ctx == c->ctx && (s == MPI_ANY_SOURCE || c->world[s] == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) return m;
  return nullptr; }
int MPI_Iprobe(int s, int tag, MPI_Comm cc, int* f, MPI_Status* st) {
  Comm* c = comm(cc, "Iprobe"); enter("Iprobe", c); Msg* m = find_unexp(c, s, tag);
  if (!m) { poll_yield(); m = find_unexp(c, s, tag); }
  *f = m != nullptr; if (m) set_status(st, c->inv(m->src), m->tag, m->len); return 0; }
int MPI_Probe(int s, int tag, MPI_Comm cc, MPI_Status* st) {
  Comm* c = comm(cc, "Probe"); enter("Probe", c); sh->wants_probe[me] = 1; BLOCK_UNTIL(find_unexp(c, s, tag)); sh->wants_probe[me] = 0;
  Msg* m = find_unexp(c, s, tag); set_status(st, c->inv(m->src), m->tag, m->len); return 0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { DT* d = dt(t); *n = d->size ? (st->_ucount % d->size ? MPI_UNDEFINED : (int)(st->_ucount / d->size)) : 0; return 0; }
int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n) { return MPI_Get_count(st, t, n); }
int MPI_Request_free(MPI_Request* q) {
  Req* r = rq(*q); *q = MPI_REQUEST_NULL;
  if (!r->send) usage("Request_free of a receive");
  if (r->null_proc) { delete r; live_reqs--; return 0; }
  if (r->lazy) { snap(r); }
  drop(r->msg); delete r; live_reqs--; return 0; }

// ---- collectives
int MPI_Barrier(MPI_Comm cc) { Comm* c = comm(cc, "Barrier"); Coll* o = coll_enter(c, K_BARRIER, 0, 0, 0, nullptr, 0); coll_wait(o, 0, c->size); coll_leave(o); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm cc) {
  Comm* c = comm(cc, "Bcast"); DT* d = dt(t); if (n < 0 || root < 0 || root >= c->size) usage("Bcast arguments");
  bool r = c->rank == root; std::vector<char> v; if (r) v = packed(b, n, d);
  Coll* o = coll_enter(c, K_BCAST, root, (long)n * d->size, 0, r ? v.data() : nullptr, r ? (size_t)n * d->size : 0);
  if (!r) { coll_wait(o, root, root + 1); unpack(b, o->data[root], o->len[root], d); } else coll_wait(o, 0, 0);
  coll_leave(o); return 0; }
static int allred(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cc, int kind, int root) {
  Comm* c = comm(cc, kname[kind]); DT* d = dt(t); if (n < 0) usage("%s with negative count", kname[kind]);
  if (root >= c->size) usage("%s root", kname[kind]);
  std::vector<char> v = packed(s == MPI_IN_PLACE ? r : s, n, d);
  Coll* o = coll_enter(c, kind, root, (long)n * d->size, opid(op), v.data(), (size_t)n * d->size);
  if (kind == K_REDUCE) { if (c->rank == root) { coll_wait(o, 0, c->size); reduce_into(o, 0, c->size, r, n, t, op); } else coll_wait(o, 0, 0); }
  else if (kind == K_SCAN) { coll_wait(o, 0, c->rank + 1); reduce_into(o, 0, c->rank + 1, r, n, t, op); }
  else if (kind == K_EXSCAN) { coll_wait(o, 0, c->rank); if (c->rank) reduce_into(o, 0, c->rank, r, n, t, op); }
  else { coll_wait(o, 0, c->size); reduce_into(o, 0, c->size, r, n, t, op); }
  coll_leave(o); return 0; }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return allred(s, r, n, t, op, c, K_ALLREDUCE, 0); }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return allred(s, r, n, t, op, c, K_REDUCE, root); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return allred(s, r, n, t, op, c, K_SCAN, 0); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return allred(s, r, n, t, op, c, K_EXSCAN, 0); }
int MPI_Reduce_scatter(const void* s, void* r, const int* cnt, MPI_Datatype t, MPI_Op op, MPI_Comm cc) {
  Comm* c = comm(cc, "Reduce_scatter"); DT* d = dt(t); int n = 0, off = 0; for (int i = 0; i < c->size; i++) { if (i == c->rank) off = n; n += cnt[i]; }
  std::vector<char> v = packed(s == MPI_IN_PLACE ? r : s, n, d);
  Coll* o = coll_enter(c, K_REDSCAT, 0, (long)n * d->size, opid(op), v.data(), (size_t)n * d->size);
  coll_wait(o, 0, c->size); std::vector<char> full((size_t)n * d->extent + 64); reduce_into(o, 0, c->size, full.data(), n, t, op);
  std::vector<char> pk = packed(full.data() + off * d->extent, cnt[c->rank], d); unpack(r, pk.data(), (size_t)cnt[c->rank] * d->size, d);
  coll_leave(o); return 0; }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm cc) {
  Comm* c = comm(cc, "Allgather"); DT* rd = dt(rt); const void* sb = s; DT* sd;
  if (s == MPI_IN_PLACE) { sd = rd; sn = rn; sb = (char*)r + (long)c->rank * rn * rd->extent; } else sd = dt(st);
  if ((size_t)sn * sd->size != (size_t)rn * rd->size) usage("Allgather sends %zu bytes but receives %zu", sn * sd->size, rn * rd->size);
  std::vector<char> v = packed(sb, sn, sd);
  Coll* o = coll_enter(c, K_ALLGATHER, 0, (long)sn * sd->size, 0, v.data(), (size_t)sn * sd->size);
  coll_wait(o, 0, c->size); for (int i = 0; i < c->size; i++) unpack((char*)r + (long)i * rn * rd->extent, o->data[i], o->len[i], rd);
  coll_leave(o); return 0; }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* dis, MPI_Datatype rt, MPI_Comm cc) {
  Comm* c = comm(cc, "Allgatherv"); DT* rd = dt(rt); const void* sb = s; DT* sd;
  if (s == MPI_IN_PLACE) { sd = rd; sn = rn[c->rank]; sb = (char*)r + (long)dis[c->rank] * rd->extent; } else sd = dt(st);
  std::vector<char> v = packed(sb, sn, sd);
  Coll* o = coll_enter(c, K_ALLGATHERV, 0, -1, 0, v.data(), (size_t)sn * sd->size);
  coll_wait(o, 0, c->size);
  for (int i = 0; i < c->size; i++) { if (o->len[i] != (size_t)rn[i] * rd->size) usage("Allgatherv: rank %d sent %zu bytes, %zu expected", i, o->len[i], rn[i] * rd->size); unpack((char*)r + (long)dis[i] * rd->extent, o->data[i], o->len[i], rd); }
  coll_leave(o); return 0; }
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm cc) {
  Comm* c = comm(cc, "Gather"); bool isr = c->rank == root; const void* sb = s; DT* sd;
  if (s == MPI_IN_PLACE) { sd = dt(rt); sn = rn; sb = (char*)r + (long)c->rank * rn * sd->extent; } else sd = dt(st);
  std::vector<char> v = packed(sb, sn, sd);
  Coll* o = coll_enter(c, K_GATHER, root, (long)sn * sd->size, 0, v.data(), (size_t)sn * sd->size);
  if (isr) { DT* rd = dt(rt); coll_wait(o, 0, c->size); for (int i = 0; i < c->size; i++) { if (o->len[i] != (size_t)rn * rd->size) usage("Gather size"); unpack((char*)r + (long)i * rn * rd->extent, o->data[i], o->len[i], rd); } } else coll_wait(o, 0, 0);
  coll_leave(o); return 0; }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* dis, MPI_Datatype rt, int root, MPI_Comm cc) {
  Comm* c = comm(cc, "Gatherv"); bool isr = c->rank == root; const void* sb = s; DT* sd;
  if (s == MPI_IN_PLACE) { sd = dt(rt); sn = rn[c->rank]; sb = (char*)r + (long)dis[c->rank] * sd->extent; } else sd = dt(st);
  std::vector<char> v = packed(sb, sn, sd);
  Coll* o = coll_enter(c, K_GATHERV, root, -1, 0, v.data(), (size_t)sn * sd->size);
  if (isr) { DT* rd = dt(rt); coll_wait(o, 0, c->size); for (int i = 0; i < c->size; i++) { if (o->len[i] != (size_t)rn[i] * rd->size) usage("Gatherv size"); unpack((char*)r + (long)dis[i] * rd->extent, o->data[i], o->len[i], rd); } } else coll_wait(o, 0, 0);
  coll_leave(o); return 0; }
static int scat(const void* s, const int* sn, const int* dis, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm cc, int kind) {
  Comm* c = comm(cc, kname[kind]); bool isr = c->rank == root; std::vector<char> v; std::vector<size_t> lens;
  if (isr) { DT* sd = dt(st); for (int i = 0; i < c->size; i++) { std::vector<char> p = packed((char*)s + (long)dis[i] * sd->extent, sn[i], sd); lens.push_back(sn[i] * sd->size); v.insert(v.end(), p.begin(), p.begin() + lens.back()); } }
  size_t total = v.size(); v.push_back(0);
  Coll* o = coll_enter(c, kind, root, -1, 0, isr ? v.data() : nullptr, isr ? total : 0, isr ? &lens : nullptr);
  coll_wait(o, root, root + 1);
  if (r != MPI_IN_PLACE) { DT* rd = dt(rt); size_t off = 0; for (int i = 0; i < c->rank; i++) off += o->lens[root][i]; if (o->lens[root][c->rank] > (size_t)rn * rd->size) usage("Scatter truncation"); unpack(r, o->data[root] + off, o->lens[root][c->rank], rd); }
  coll_leave(o); return 0; }
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm cc) {
  Comm* c = comm(cc, "Scatter"); std::vector<int> n(c->size, sn), d(c->size); for (int i = 0; i < c->size; i++) d[i] = i * sn; return scat(s, n.data(), d.data(), st, r, rn, rt, root, cc, K_SCATTER); }
int MPI_Scatterv(const void* s, const int* sn, const int* dis, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm cc) { return scat(s, sn, dis, st, r, rn, rt, root, cc, K_SCATTERV); }
static int a2a(const void* s, const int* sn, const int* sd_, MPI_Datatype st, void* r, const int* rn, const int* rd_, MPI_Datatype rt, MPI_Comm cc, int kind) {
  Comm* c = comm(cc, kname[kind]); DT *sd = dt(st), *rd = dt(rt); std::vector<char> v; std::vector<size_t> lens;
  for (int i = 0; i < c->size; i++) { std::vector<char> p = packed((char*)s + (long)sd_[i] * sd->extent, sn[i], sd); lens.push_back(sn[i] * sd->size); v.insert(v.end(), p.begin(), p.begin() + lens.back()); }
  size_t total = v.size(); v.push_back(0);
  Coll* o = coll_enter(c, kind, 0, -1, 0, v.data(), total, &lens);
  coll_wait(o, 0, c->size);
  for (int i = 0; i < c->size; i++) { size_t off = 0; for (int k = 0; k < c->rank; k++) off += o->lens[i][k]; size_t l = o->lens[i][c->rank]; if (l != (size_t)rn[i] * rd->size) usage("%s: rank %d sends %zu bytes, %zu expected", kname[kind], i, l, rn[i] * rd->size); unpack((char*)r + (long)rd_[i] * rd->extent, o->data[i] + off, l, rd); }
  coll_leave(o); return 0; }
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm cc) {
  Comm* c = comm(cc, "Alltoall"); if (s == MPI_IN_PLACE) usage("Alltoall in place"); std::vector<int> a(c->size, sn), b(c->size, rn), ad(c->size), bd(c->size); for (int i = 0; i < c->size; i++) { ad[i] = i * sn; bd[i] = i * rn; }
  return a2a(s, a.data(), ad.data(), st, r, b.data(), bd.data(), rt, cc, K_ALLTOALL); }
int MPI_Alltoallv(const void* s, const int* sn, const int* sd, MPI_Datatype st, void* r, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm cc) { return a2a(s, sn, sd, st, r, rn, rd, rt, cc, K_ALLTOALLV); }

// ---- communicators and groups
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = comm(c, "Comm_rank")->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = comm(c, "Comm_size")->size; return 0; }
int MPI_Comm_dup(MPI_Comm cc, MPI_Comm* nc) {
  Comm* c = comm(cc, "Comm_dup"); Coll* o = coll_enter(c, K_DUP, 0, 0, 0, nullptr, 0); coll_wait(o, 0, c->size);
  Comm* n = newcomm(o->newctx, c->world);
  for (auto& a : c->attrs) { void* v; int flag = 0; if (kvs[a.first].cp) { kvs[a.first].cp(cc, a.first, kvs[a.first].extra, a.second, &v, &flag); if (flag) n->attrs[a.first] = v; } }
  *nc = (MPI_Comm)n; coll_leave(o); return 0; }
int MPI_Comm_split(MPI_Comm cc, int color, int key, MPI_Comm* nc) {
  Comm* c = comm(cc, "Comm_split"); int d[2] = { color, key }; Coll* o = coll_enter(c, K_SPLIT, 0, 8, 0, (char*)d, 8); coll_wait(o, 0, c->size);
  std::vector<int> colors; std::vector<std::pair<int, int>> mem;
  for (int i = 0; i < c->size; i++) { int* x = (int*)o->data[i]; if (x[0] != MPI_UNDEFINED) colors.push_back(x[0]); if (x[0] == color) mem.push_back({ x[1], i }); }
  std::sort(colors.begin(), colors.end()); colors.erase(std::unique(colors.begin(), colors.end()), colors.end());
  if (color == MPI_UNDEFINED) *nc = MPI_COMM_NULL;
  else { std::stable_sort(mem.begin(), mem.end()); std::vector<int> w; for (auto& m : mem) w.push_back(c->world[m.second]);
    *nc = (MPI_Comm)newcomm(o->newctx + (int)(std::find(colors.begin(), colors.end(), color) - colors.begin()), w); }
  coll_leave(o); return 0; }
int MPI_Comm_create(MPI_Comm cc, MPI_Group g, MPI_Comm* nc) {
  Comm* c = comm(cc, "Comm_create"); Coll* o = coll_enter(c, K_CREATE, 0, 0, 0, nullptr, 0); coll_wait(o, 0, c->size);
  Group* gr = (Group*)g; bool in = g != MPI_GROUP_EMPTY && std::find(gr->world.begin(), gr->world.end(), me) != gr->world.end();
  *nc = in ? (MPI_Comm)newcomm(o->newctx, gr->world) : MPI_COMM_NULL; coll_leave(o); return 0; }
int MPI_Comm_free(MPI_Comm* cc) { Comm* c = comm(*cc, "Comm_free"); if (c == cw || c == cs) usage("Comm_free of a predefined communicator"); c->magic = 0; *cc = MPI_COMM_NULL; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { Comm *x = comm(a, "Comm_compare"), *y = comm(b, "Comm_compare"); *r = x == y ? MPI_IDENT : x->world == y->world ? MPI_CONGRUENT : std::is_permutation(x->world.begin(), x->world.end(), y->world.begin(), y->world.end()) ? MPI_SIMILAR : MPI_UNEQUAL; return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { Group* n = new Group; n->world = comm(c, "Comm_group")->world; *g = (MPI_Group)n; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* ng) { Group* x = new Group; for (int i = 0; i < n; i++) x->world.push_back(((Group*)g)->world[r[i]]); *ng = (MPI_Group)x; return 0; }
int MPI_Group_excl(MPI_Group g, int n, const int* r, MPI_Group* ng) { Group *x = new Group, *s = (Group*)g; for (int i = 0; i < (int)s->world.size(); i++) if (std::find(r, r + n, i) == r + n) x->world.push_back(s->world[i]); *ng = (MPI_Group)x; return 0; }
int MPI_Group_free(MPI_Group* g) { delete (Group*)*g; *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group g, int* n) { *n = ((Group*)g)->world.size(); return 0; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function* cp, MPI_Comm_delete_attr_function* del, int* k, void* e) { kvs.push_back({ cp, del, e }); *k = (int)kvs.size() - 1; return 0; }
int MPI_Comm_free_keyval(int* k) { *k = MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr(MPI_Comm c, int k, void* v) { comm(c, "Comm_set_attr")->attrs[k] = v; return 0; }
int MPI_Comm_get_attr(MPI_Comm c, int k, void* v, int* f) {
  static int tagub = 0x7fffffff; Comm* x = comm(c, "Comm_get_attr");
  if (k == MPI_TAG_UB) { *(void**)v = &tagub; *f = 1; return 0; }
  auto it = x->attrs.find(k); *f = it != x->attrs.end(); if (*f) *(void**)v = it->second; return 0; }
int MPI_Comm_delete_attr(MPI_Comm c, int k) { comm(c, "Comm_delete_attr")->attrs.erase(k); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm) { return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint) { return MPI_COMM_WORLD; }

// ---- datatypes
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* t) {
  DT* s = dt(o); DT* d = new DT; d->base = s->base; for (int i = 0; i < n; i++) for (auto& g : s->seg) { MPI_Aint x = g.first + i * s->extent; if (!d->seg.empty() && d->seg.back().first + (MPI_Aint)d->seg.back().second == x) d->seg.back().second += g.second; else d->seg.push_back({ x, g.second }); }
  d->size = n * s->size; d->extent = n * s->extent; d->lb = s->lb; *t = (MPI_Datatype)d; return 0; }
static void bounds(DT* d) { MPI_Aint lo = 0, hi = 0; bool f = true; for (auto& g : d->seg) { if (f || g.first < lo) lo = g.first; if (f || g.first + (MPI_Aint)g.second > hi) hi = g.first + g.second; f = false; } d->lb = lo; d->extent = hi - lo; }
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* dis, const MPI_Datatype* ty, MPI_Datatype* t) {
  DT* d = new DT; size_t al = 1; for (int i = 0; i < n; i++) { DT* s = dt(ty[i]); if (s->size >= 8) al = 8; else if (s->size > al) al = s->size; for (int k = 0; k < bl[i]; k++) for (auto& g : s->seg) d->seg.push_back({ dis[i] + k * s->extent + g.first, g.second }); d->size += bl[i] * s->size; }
  bounds(d); if (d->extent % al) d->extent += al - d->extent % al; *t = (MPI_Datatype)d; return 0; }
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* dis, MPI_Datatype o, MPI_Datatype* t) {
  DT* s = dt(o); DT* d = new DT; for (int i = 0; i < n; i++) { for (int k = 0; k < bl[i]; k++) for (auto& g : s->seg) d->seg.push_back({ dis[i] + k * s->extent + g.first, g.second }); d->size += bl[i] * s->size; } bounds(d); *t = (MPI_Datatype)d; return 0; }
int MPI_Type_indexed(int n, const int* bl, const int* dis, MPI_Datatype o, MPI_Datatype* t) { std::vector<MPI_Aint> x(n); for (int i = 0; i < n; i++) x[i] = dis[i] * dt(o)->extent; return MPI_Type_create_hindexed(n, bl, x.data(), o, t); }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype* t) { std::vector<int> b(n, bl); std::vector<MPI_Aint> x(n); for (int i = 0; i < n; i++) x[i] = i * st; return MPI_Type_create_hindexed(n, b.data(), x.data(), o, t); }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype* t) { return MPI_Type_create_hvector(n, bl, (MPI_Aint)st * dt(o)->extent, o, t); }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ex, MPI_Datatype* t) { DT* d = new DT(*dt(o)); d->lb = lb; d->extent = ex; *t = (MPI_Datatype)d; return 0; }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* t) { *t = (MPI_Datatype) new DT(*dt(o)); return 0; }
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype* t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = dt(t)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* ex) { DT* d = dt(t); *lb = d->lb; *ex = d->extent; return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int* s) { *s = n * dt(t)->size; return 0; }
int MPI_Pack(const void* b, int n, MPI_Datatype t, void* o, int os, int* pos, MPI_Comm) { DT* d = dt(t); size_t l = (size_t)n * d->size; if (*pos + (long)l > os) usage("Pack overflow"); pack((char*)o + *pos, b, n, d); *pos += l; return 0; }
int MPI_Unpack(const void* i, int is, int* pos, void* b, int n, MPI_Datatype t, MPI_Comm) { DT* d = dt(t); size_t l = (size_t)n * d->size; if (*pos + (long)l > is) usage("Unpack overflow"); unpack(b, (const char*)i + *pos, l, d); *pos += l; return 0; }

// ---- operations
int MPI_Op_create(MPI_User_function* f, int commute, MPI_Op* o) { Op* x = new Op; x->fn = f; x->commute = commute; *o = (MPI_Op)x; return 0; }
int MPI_Op_free(MPI_Op* o) { *o = MPI_OP_NULL; return 0; }
int MPI_Op_commutative(MPI_Op o, int* c) { *c = opid(o) ? 1 : ((Op*)o)->commute; return 0; }
int MPI_Info_create(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Info_dup(MPI_Info, MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
}
namespace sim { void unsupported(const char* f) { if (me >= 0) usage("%s is not simulated", f); fprintf(stderr, "%s called outside a simulated rank\n", f); abort(); } }
