#include "fs.hh"
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <limits.h>
using namespace std;
extern "C" long mc_raw_syscall(long n, long a, long b, long c, long d, long e, long f); extern "C" char mc_raw_syscall_ret[];
asm(".text\n.globl mc_raw_syscall\n.type mc_raw_syscall,@function\nmc_raw_syscall:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl mc_raw_syscall_ret\nmc_raw_syscall_ret:\n ret\n");
#define RAW(n, ...) raw(n, ##__VA_ARGS__)
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return mc_raw_syscall(n, a, b, c, d, e, f); }

namespace fsx {
struct Budget { int left, spent; };
static Budget * bud; static Faults F; static string * root; static bool full; static bool tracked[4096], folder[4096];
void set_budget(int n) { if (!bud) bud = (Budget *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); bud->left = n; bud->spent = 0; }
int spent() { return bud ? bud->spent : 0; }
static bool under(int at, const char * p) {
  if (!p) return false; char b[PATH_MAX]; string s;
  if (p[0] == '/') s = p; else if (at == AT_FDCWD) { long n = raw(SYS_getcwd, (long)b, sizeof b); if (n <= 0) return false; s = string(b) + "/" + p; }
  else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", at); long n = raw(SYS_readlink, (long)l, (long)b, sizeof b - 1); if (n <= 0) return false; b[n] = 0; s = string(b) + "/" + p; }
  return s.compare(0, root->size(), *root) == 0 && (s.size() == root->size() || s[root->size()] == '/');
}
static void die() { raw(SYS_exit_group, 137); }
struct Alt { int kind; long arg; };   // 0 normal, 1 kill, 2 torn, 3 error, 4 short, 5 lost
static Alt pick(const char * what, vector<Alt> v) {
  if (bud->left <= 0 || v.empty()) return {0, 0};
  int n = (int)v.size() + 1, i; if (n <= 200) i = mc::choose(n, ~1u, what); else { int hi = mc::choose((n + 199) / 200, ~1u, what); int lo = hi ? mc::choose(min(200, n - hi * 200), 0, what) : mc::choose(200, ~1u, what); i = hi * 200 + lo; }
  if (!i) return {0, 0}; --bud->left; ++bud->spent; return v[i - 1];
}
static long write_op(int fd, long total, const function<long(long)> & part) {   // part(k): write the first k bytes
  vector<Alt> v; if (F.kill) v.push_back({1, 0});
  if (F.torn && total > 1) { if (F.torn < 0 || total - 1 <= F.torn) for (long k = 1; k < total; ++k) v.push_back({2, k}); else for (int i = 1; i <= F.torn; ++i) { long k = total * i / (F.torn + 1); if (i == F.torn) k = total - 1; if (k > 0 && k < total) v.push_back({2, k}); } }
  if (full) return -ENOSPC;
  if (F.errors) v.push_back({3, -ENOSPC}), v.push_back({3, -EIO});
  if (F.shorts) { v.push_back({4, 0}); if (total > 1) v.push_back({4, 1}), v.push_back({4, total / 2}), v.push_back({4, total - 1}); }
  Alt a = pick("write", v);
  switch (a.kind) { case 1: die(); case 2: part(a.arg); die(); case 3: return a.arg; case 4: full = true; return a.arg ? part(a.arg) : -ENOSPC; }
  return part(total);
}
static long handle(long n, long * x) {
  auto pass = [&] { return raw(n, x[0], x[1], x[2], x[3], x[4], x[5]); };
  if (!mc::active() || !bud) { if (n == SYS_close && x[0] >= 0 && x[0] < 4096) tracked[x[0]] = folder[x[0]] = false; return pass(); }
  auto simple = [&](const char * what, bool mine, vector<long> errs) -> long {
    if (!mine) return pass(); vector<Alt> v; if (F.kill) v.push_back({1, 0}); if (F.errors) for (long e : errs) v.push_back({3, e});
    Alt a = pick(what, v); if (a.kind == 1) die(); if (a.kind == 3) return a.arg; return pass();
  };
  switch (n) {
    case SYS_open: case SYS_openat: case SYS_creat: {
      bool at = n == SYS_openat; const char * p = (const char *)x[at ? 1 : 0]; int fl = n == SYS_creat ? O_WRONLY | O_CREAT | O_TRUNC : (int)x[at ? 2 : 1]; bool mine = under(at ? (int)x[0] : AT_FDCWD, p); if (!mine) return pass();
      bool w = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); long r;
      if (w) { if (full && (fl & O_CREAT) && raw(SYS_access, (long)p, F_OK) != 0) return -ENOSPC; r = simple("open", true, {-ENOSPC, -EMFILE}); } else if (F.reads) { Alt a = pick(fl & O_DIRECTORY ? "open folder" : "open for reading", {{3, -EIO}, {3, -EMFILE}}); r = a.kind ? a.arg : pass(); } else r = pass();
      if (r >= 0 && r < 4096) { tracked[r] = !(fl & O_DIRECTORY); folder[r] = fl & O_DIRECTORY; } return r; }
    case SYS_getdents64: if (x[0] < 0 || x[0] >= 4096 || !folder[x[0]] || !F.reads) return pass(); { Alt a = pick("list folder", {{3, -EIO}}); return a.kind ? a.arg : pass(); }
    case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: case SYS_access: case SYS_faccessat: case SYS_faccessat2: {
      bool at = n == SYS_newfstatat || n == SYS_statx || n == SYS_faccessat || n == SYS_faccessat2; const char * p = (const char *)x[at ? 1 : 0]; if (!F.reads || !p || !*p || !under(at ? (int)x[0] : AT_FDCWD, p)) return pass();
      Alt a = pick("stat", {{3, -EIO}}); return a.kind ? a.arg : pass(); }
    case SYS_read: case SYS_readv: case SYS_pread64: if (x[0] < 0 || x[0] >= 4096 || !tracked[x[0]] || !F.reads) return pass(); { Alt a = pick("read", {{3, -EIO}}); return a.kind ? a.arg : pass(); }
    case SYS_write: if (x[0] < 0 || x[0] >= 4096 || !tracked[x[0]]) return pass(); return write_op((int)x[0], x[2], [&](long k) { return raw(SYS_write, x[0], x[1], k); });
    case SYS_pwrite64: if (x[0] < 0 || x[0] >= 4096 || !tracked[x[0]]) return pass(); return write_op((int)x[0], x[2], [&](long k) { return raw(SYS_pwrite64, x[0], x[1], k, x[3]); });
    case SYS_writev: { if (x[0] < 0 || x[0] >= 4096 || !tracked[x[0]]) return pass(); const iovec * v = (const iovec *)x[1]; string all; for (long i = 0; i < x[2]; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len); return write_op((int)x[0], all.size(), [&](long k) { return raw(SYS_write, x[0], (long)all.data(), k); }); }
    case SYS_close: { if (x[0] >= 0 && x[0] < 4096) folder[x[0]] = false; if (x[0] < 0 || x[0] >= 4096 || !tracked[x[0]]) return pass(); int fd = (int)x[0]; tracked[fd] = false; int fl = (int)raw(SYS_fcntl, fd, F_GETFL); if ((fl & O_ACCMODE) == O_RDONLY) return pass(); vector<Alt> v; if (F.lost) v.push_back({5, 0}), v.push_back({5, 1}); Alt a = pick("close", v); if (a.kind == 5) { struct stat st; fstat(fd, &st); raw(SYS_ftruncate, fd, a.arg ? st.st_size / 2 : 0); pass(); return -EIO; } return pass(); }
    case SYS_fsync: case SYS_fdatasync: return simple("fsync", x[0] >= 0 && x[0] < 4096 && tracked[x[0]], {-EIO});
    case SYS_ftruncate: return simple("ftruncate", x[0] >= 0 && x[0] < 4096 && tracked[x[0]], {-EIO});
    case SYS_rename: return simple("rename", under(AT_FDCWD, (char *)x[0]) || under(AT_FDCWD, (char *)x[1]), {-EIO, -ENOSPC});
    case SYS_renameat: case SYS_renameat2: return simple("rename", under((int)x[0], (char *)x[1]) || under((int)x[2], (char *)x[3]), {-EIO, -ENOSPC});
    case SYS_unlink: case SYS_rmdir: return simple("unlink", under(AT_FDCWD, (char *)x[0]), {-EIO}); case SYS_unlinkat: return simple("unlink", under((int)x[0], (char *)x[1]), {-EIO});
    case SYS_mkdir: return simple("mkdir", under(AT_FDCWD, (char *)x[0]), {-ENOSPC}); case SYS_mkdirat: return simple("mkdir", under((int)x[0], (char *)x[1]), {-ENOSPC});
    case SYS_truncate: return simple("truncate", under(AT_FDCWD, (char *)x[0]), {-EIO}); case SYS_link: return simple("link", under(AT_FDCWD, (char *)x[1]), {-EIO}); case SYS_linkat: return simple("link", under((int)x[2], (char *)x[3]), {-EIO}); case SYS_symlink: return simple("symlink", under(AT_FDCWD, (char *)x[1]), {-EIO}); case SYS_symlinkat: return simple("symlink", under((int)x[1], (char *)x[2]), {-EIO});
    case SYS_copy_file_range: case SYS_sendfile: return -ENOSYS;   // callers fall back to read and write
  }
  return pass();
}
static void on_sigsys(int, siginfo_t * si, void * uc) {
  int e = errno; ucontext_t * u = (ucontext_t *)uc; greg_t * g = u->uc_mcontext.gregs; long x[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
  g[REG_RAX] = handle(si->si_syscall, x); errno = e;
}
void control(const string & r, const Faults & f) {
  F = f; full = false; memset(tracked, 0, sizeof tracked); memset(folder, 0, sizeof folder); if (!root) root = new string; *root = r; if (!bud) set_budget(0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sigsys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr);
  vector<int> calls {SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_writev, SYS_pwrite64, SYS_close, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_truncate, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_copy_file_range, SYS_sendfile};
  if (f.reads) calls.insert(calls.end(), {SYS_read, SYS_readv, SYS_pread64, SYS_getdents64, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_access, SYS_faccessat, SYS_faccessat2});
  vector<sock_filter> p; unsigned long ip = (unsigned long)mc_raw_syscall_ret;
  p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer))); p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)ip, 0, 3));
  p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4)); p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(ip >> 32), 0, 1)); p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
  for (size_t i = 0; i < calls.size(); ++i) p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)calls[i], (u_char)(calls.size() - i), 0));
  p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)); p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  sock_fprog fp {(unsigned short)p.size(), p.data()};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fp)) { fprintf(stderr, "seccomp is not available: %s\n", strerror(errno)); mc::fail("HARNESS: seccomp is not available"); }
}
} // namespace fsx
