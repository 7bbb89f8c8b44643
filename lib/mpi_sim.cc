#include "mpi_sim.hh"
#include "mc.hh"
#include <mpi.h>
#include <cstring>
#include <deque>
#include <vector>
using namespace std;
namespace sim {
struct Msg { int src, dst, tag, ctx; vector<char> data; bool taken = false; bool sync = false; };
struct Rank { bool init = false, fin = false; deque<Msg *> in; };
struct Req { int kind; Msg * msg = nullptr; int rank = 0; void * buf = nullptr; size_t cap = 0; int src = 0, tag = 0, ctx = 0; bool done = false; MPI_Status st; };   // 0: send, 1: receive
static vector<Rank> R; static Sends mode; static function<string(int)> on_abort; long sent = 0; static int finalizing = 0;
void setup(int n, Sends s, const function<string(int)> & a) { R.assign(n, Rank()); mode = s; on_abort = a; sent = 0; finalizing = 0; }
bool all_finalized() { for (auto & r : R) if (!r.fin) return false; return true; }
string undelivered() { string s; for (auto & r : R) for (auto m : r.in) s += fmt(" (tag %d from %d to %d)", m->tag, m->src, m->dst); return s; }
static int self() { return mc::tag(); }
static vector<pair<MPI_Datatype, size_t>> derived;   // never freed
static size_t size_of(MPI_Datatype t) {
  if (t == MPI_PACKED || t == MPI_BYTE || t == MPI_CHAR || t == MPI_SIGNED_CHAR || t == MPI_UNSIGNED_CHAR || t == MPI_CXX_BOOL || t == MPI_C_BOOL) return 1;
  if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT) return 2; if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT || t == MPI_WCHAR) return 4;
  if (t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_DOUBLE) return 8; if (t == MPI_LONG_DOUBLE) return 16;
  if (t == MPI_INT8_T || t == MPI_UINT8_T) return 1; if (t == MPI_INT16_T || t == MPI_UINT16_T) return 2; if (t == MPI_INT32_T || t == MPI_UINT32_T) return 4; if (t == MPI_INT64_T || t == MPI_UINT64_T || t == MPI_AINT || t == MPI_COUNT) return 8;
  for (auto & d : derived) if (d.first == t) return d.second;
  fprintf(stderr, "mpi_sim: unknown datatype\n"); _exit(3);
}
static bool fits(const Msg & m, int src, int tag, int ctx) { return m.ctx == ctx && (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG ? true : m.tag == tag); }
// the messages that may be matched next: per source the first that fits
static vector<Msg *> candidates(int src, int tag, int ctx) {
  vector<Msg *> c; for (auto m : R[self()].in) if (fits(*m, src, tag, ctx)) { bool seen = false; for (auto x : c) if (x->src == m->src) seen = true; if (!seen) c.push_back(m); } return c;
}
struct Want { int rank, src, tag, ctx; };
static bool arrived(void * w) { Want & q = *(Want *)w; for (auto m : R[q.rank].in) if (fits(*m, q.src, q.tag, q.ctx)) return true; return false; }
static bool taken(void * m) { return ((Msg *)m)->taken; }
static Msg * post(const void * b, size_t n, int dst, int tag, int ctx, bool sync) {
  if (dst < 0 || dst >= (int)R.size()) mc::fail(fmt("message to rank %d of %zu", dst, R.size()));
  Msg * m = new Msg; m->src = self(); m->dst = dst; m->tag = tag; m->ctx = ctx; m->data.assign((const char *)b, (const char *)b + n); m->sync = sync;
  mc::block(nullptr, nullptr, m, "MPI_Send"); R[dst].in.push_back(m); ++sent; return m;
}
static bool sync_now() { if (mode == EITHER) return mc::choose(2, 2, "send blocks until received"); return mode == SYNCHRONOUS; }
static Msg * wait_for(int src, int tag, int ctx, const char * what) {
  Want w {self(), src, tag, ctx}; mc::block(arrived, &w, nullptr, what); auto c = candidates(src, tag, ctx); Msg * m = c[mc::choose((int)c.size(), ~1u, "which message")]; return m;
}
static void take(Msg * m) { auto & q = R[m->dst].in; for (auto it = q.begin(); it != q.end(); ++it) if (*it == m) { q.erase(it); break; } }
static void got(Msg * m) { m->taken = true; mc::event(m); }
static void status(MPI_Status * s, const Msg & m) { if (s == MPI_STATUS_IGNORE) return; memset(s, 0, sizeof *s); s->MPI_SOURCE = m.src; s->MPI_TAG = m.tag; s->MPI_ERROR = MPI_SUCCESS; s->_ucount = m.data.size(); }
static int copy(Msg * m, void * b, size_t cap) { if (m->data.size() > cap) mc::fail(fmt("message of %zu bytes (tag %d from %d to %d) received into %zu bytes", m->data.size(), m->tag, m->src, m->dst, cap)); memcpy(b, m->data.data(), m->data.size()); return MPI_SUCCESS; }
static bool ready(Req * r) {   // completes a request if possible
  if (r->done) return true;
  if (r->kind == 0) { if (r->msg->sync && !r->msg->taken) return false; mc::event(r->msg); memset(&r->st, 0, sizeof r->st); return r->done = true; }
  auto c = candidates(r->src, r->tag, r->ctx); if (c.empty()) return false; Msg * m = c[0]; take(m); copy(m, r->buf, r->cap); status(&r->st, *m); got(m); return r->done = true;
}
static bool could(void * v) { Req * r = (Req *)v; if (r->done) return true; if (r->kind == 0) return !r->msg->sync || r->msg->taken; Want w {r->rank, r->src, r->tag, r->ctx}; return arrived(&w); }
static int ctx_of(MPI_Comm c) { return c == MPI_COMM_WORLD ? 0 : (int)((long)c & 0x7fffffff); }
enum { COLL = 1 };   // contexts of collective operations: -1-sequence is not needed, messages between two ranks stay ordered
static int coll(MPI_Comm c) { return ~ctx_of(c); }
struct All { vector<Req *> q; };
static bool all_could(void * v) { for (auto r : ((All *)v)->q) if (!could(r)) return false; return true; }
static bool any_could(void * v) { for (auto r : ((All *)v)->q) if (could(r)) return true; return false; }
}
using namespace sim;
#define T size_of(t)
extern "C" {
int MPI_Init(int *, char ***) { R[self()].init = true; return 0; }
int MPI_Init_thread(int *, char ***, int want, int * got_) { R[self()].init = true; if (got_) *got_ = want; return 0; }
int MPI_Initialized(int * f) { *f = R[self()].init; return 0; }
int MPI_Finalized(int * f) { *f = R[self()].fin; return 0; }
static bool everybody(void *) { return finalizing >= (int)R.size(); }
int MPI_Finalize() { ++finalizing; mc::block(everybody, nullptr, &R, "MPI_Finalize"); R[self()].fin = true; return 0; }
int MPI_Query_thread(int * l) { *l = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Is_thread_main(int * f) { *f = 1; return 0; }
int MPI_Abort(MPI_Comm, int code) { mc::block(nullptr, nullptr, nullptr, "MPI_Abort"); mc::complete([&] { return on_abort(code); }); return 0; }
int MPI_Comm_rank(MPI_Comm, int * r) { *r = self(); return 0; }
int MPI_Comm_size(MPI_Comm, int * n) { *n = R.size(); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_get_attr(MPI_Comm, int, void * v, int * f) { static int ub = 0x7fffffff; *(int **)v = &ub; *f = 1; return 0; }
int MPI_Get_processor_name(char * n, int * l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Get_version(int * a, int * b) { *a = 3; *b = 1; return 0; }
double MPI_Wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void * p) { *(void **)p = malloc(n ? n : 1); return 0; }
int MPI_Free_mem(void * p) { free(p); return 0; }
int MPI_Type_free(MPI_Datatype * t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype * d) { size_t k = n * T; *d = (MPI_Datatype)malloc(8); derived.push_back({*d, k}); return 0; }
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_size(MPI_Datatype t, int * n) { *n = T; return 0; }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int * s) { *s = n * T; return 0; }
int MPI_Pack(const void * in, int n, MPI_Datatype t, void * out, int cap, int * pos, MPI_Comm) { if (*pos + n * T > (size_t)cap) return MPI_ERR_TRUNCATE; memcpy((char *)out + *pos, in, n * T); *pos += n * T; return 0; }
int MPI_Unpack(const void * in, int size, int * pos, void * out, int n, MPI_Datatype t, MPI_Comm) { if (*pos + n * T > (size_t)size) mc::fail("a message is read beyond its end"); memcpy(out, (const char *)in + *pos, n * T); *pos += n * T; return 0; }
int MPI_Get_count(const MPI_Status * s, MPI_Datatype t, int * n) { *n = s->_ucount / T; return 0; }
int MPI_Send(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { bool s = sync_now(); Msg * m = post(b, n * T, d, tag, ctx_of(c), s); if (s) mc::block(taken, m, m, "MPI_Send"); return 0; }
int MPI_Ssend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { Msg * m = post(b, n * T, d, tag, ctx_of(c), true); mc::block(taken, m, m, "MPI_Ssend"); return 0; }
int MPI_Bsend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { post(b, n * T, d, tag, ctx_of(c), false); return 0; }
int MPI_Rsend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Recv(void * b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status * st) { Msg * m = wait_for(s, tag, ctx_of(c), "MPI_Recv"); take(m); copy(m, b, n * T); status(st, *m); got(m); return 0; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status * st) { Msg * m = wait_for(s, tag, ctx_of(c), "MPI_Probe"); status(st, *m); return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int * f, MPI_Status * st) { mc::block(nullptr, nullptr, nullptr, "MPI_Iprobe"); auto q = candidates(s, tag, ctx_of(c)); *f = !q.empty() && !mc::choose(2, 2, "message not visible yet"); if (*f) status(st, *q[mc::choose(q.size(), ~1u, "which message")]); return 0; }
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message * h, MPI_Status * st) { Msg * m = wait_for(s, tag, ctx_of(c), "MPI_Mprobe"); take(m); status(st, *m); *h = (MPI_Message)m; return 0; }
int MPI_Improbe(int s, int tag, MPI_Comm c, int * f, MPI_Message * h, MPI_Status * st) { mc::block(nullptr, nullptr, nullptr, "MPI_Improbe"); auto q = candidates(s, tag, ctx_of(c)); *f = !q.empty() && !mc::choose(2, 2, "message not visible yet"); if (*f) { Msg * m = q[mc::choose(q.size(), ~1u, "which message")]; take(m); status(st, *m); *h = (MPI_Message)m; } return 0; }
int MPI_Mrecv(void * b, int n, MPI_Datatype t, MPI_Message * h, MPI_Status * st) { Msg * m = (Msg *)*h; copy(m, b, n * T); status(st, *m); got(m); *h = MPI_MESSAGE_NULL; return 0; }
static int isend(const void * b, size_t n, int d, int tag, int ctx, MPI_Request * q) { Req * r = new Req; r->kind = 0; r->rank = self(); r->msg = post(b, n, d, tag, ctx, sync_now()); *q = (MPI_Request)r; return 0; }
int MPI_Isend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * q) { return isend(b, n * T, d, tag, ctx_of(c), q); }
int MPI_Irecv(void * b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request * q) { Req * r = new Req; r->kind = 1; r->rank = self(); r->buf = b; r->cap = n * T; r->src = s; r->tag = tag; r->ctx = ctx_of(c); *q = (MPI_Request)r; return 0; }
int MPI_Wait(MPI_Request * q, MPI_Status * st) { if (*q == MPI_REQUEST_NULL) return 0; Req * r = (Req *)*q; mc::block(could, r, nullptr, "MPI_Wait"); ready(r); if (st != MPI_STATUS_IGNORE) *st = r->st; *q = MPI_REQUEST_NULL; return 0; }
int MPI_Test(MPI_Request * q, int * f, MPI_Status * st) { if (*q == MPI_REQUEST_NULL) { *f = 1; return 0; } Req * r = (Req *)*q; mc::block(nullptr, nullptr, nullptr, "MPI_Test"); *f = could(r) && !mc::choose(2, 2, "request not complete yet") && ready(r); if (*f) { if (st != MPI_STATUS_IGNORE) *st = r->st; *q = MPI_REQUEST_NULL; } return 0; }
static All collect(int n, MPI_Request * q) { All a; for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL) a.q.push_back((Req *)q[i]); return a; }
int MPI_Waitall(int n, MPI_Request * q, MPI_Status * st) { All a = collect(n, q); mc::block(all_could, &a, nullptr, "MPI_Waitall"); for (int i = 0; i < n; ++i) MPI_Wait(&q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]); return 0; }
int MPI_Waitany(int n, MPI_Request * q, int * k, MPI_Status * st) { All a = collect(n, q); if (a.q.empty()) { *k = MPI_UNDEFINED; return 0; } mc::block(any_could, &a, nullptr, "MPI_Waitany"); vector<int> c; for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL && could(q[i])) c.push_back(i); *k = c[mc::choose(c.size(), ~1u, "which request")]; return MPI_Wait(&q[*k], st); }
int MPI_Testall(int n, MPI_Request * q, int * f, MPI_Status * st) { All a = collect(n, q); mc::block(nullptr, nullptr, nullptr, "MPI_Testall"); *f = all_could(&a); if (*f) return MPI_Waitall(n, q, st); return 0; }
int MPI_Cancel(MPI_Request *) { return 0; }
int MPI_Test_cancelled(const MPI_Status *, int * f) { *f = 0; return 0; }
int MPI_Request_free(MPI_Request * q) { *q = MPI_REQUEST_NULL; return 0; }
int MPI_Bcast(void * b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  int k = coll(c); if (self() == root) { vector<Msg *> ms; for (int i = 0; i < (int)R.size(); ++i) if (i != root) ms.push_back(post(b, n * T, i, 1, k, mode == SYNCHRONOUS)); for (auto m : ms) if (m->sync) mc::block(taken, m, m, "MPI_Bcast"); }
  else { Msg * m = wait_for(root, 1, k, "MPI_Bcast"); take(m); copy(m, b, n * T); got(m); } return 0;
}
int MPI_Gather(const void * sb, int n, MPI_Datatype t, void * rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  int k = coll(c); if (self() != root) { Msg * m = post(sb, n * T, root, 2, k, mode == SYNCHRONOUS); if (m->sync) mc::block(taken, m, m, "MPI_Gather"); return 0; }
  for (int i = 0; i < (int)R.size(); ++i) { char * d = (char *)rb + (size_t)i * rn * size_of(rt); if (i == root) { if (sb != MPI_IN_PLACE) memcpy(d, sb, n * T); } else { Msg * m = wait_for(i, 2, k, "MPI_Gather"); take(m); copy(m, d, rn * size_of(rt)); got(m); } } return 0;
}
int MPI_Barrier(MPI_Comm c) { char x = 0; int k = coll(c); if (self() == 0) { for (int i = 1; i < (int)R.size(); ++i) { Msg * m = wait_for(i, 3, k, "MPI_Barrier"); take(m); got(m); } } else post(&x, 1, 0, 3, k, false); return MPI_Bcast(&x, 1, MPI_BYTE, 0, c); }
}
