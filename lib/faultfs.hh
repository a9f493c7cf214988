// Crash and fault injection at system call level for a (forked) process: a seccomp filter traps every file system call,
// whoever makes it (libc, libstdc++, direct); the handler counts those that concern the scratch directory and applies
// the plan: die before, inside (after a partial write) or after it, or let it fail or do part of its work.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" long faultfs_raw(long n, long a, long b, long c, long d, long e, long f);
extern "C" char faultfs_raw_ret[];
__asm__(
    ".text\n.globl faultfs_raw\nfaultfs_raw:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n"
    " mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl faultfs_raw_ret\nfaultfs_raw_ret:\n ret\n");

namespace faultfs {
enum Kind { NONE, CRASH_BEFORE, CRASH_AFTER, TORN_CRASH, FAIL, SHORT, SHORT_THEN_FULL };
struct Fault {
  int op = -1;
  Kind kind = NONE;
  long arg = 0;  // errno, or number of bytes
};
struct Op {
  int nr;
  long size;  // for reads and writes
  char cls;   // 'w' write, 'r' read, 'o' open, 'm' other modification, 's' stat
};
// Shared with the parent.
struct Record {
  int count;
  Op ops[512];
  int crashed;
};
inline Fault plan[3];
inline Record *record = nullptr;
inline char root[512];
inline bool full = false;
inline unsigned char tracked[4096];
inline bool active = false;
inline void (*before)(char cls) = nullptr;  // called before each tracked operation (signal context)

constexpr int SYSCALLS[] = {SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_writev, SYS_pwrite64, SYS_pwritev, SYS_read, SYS_readv, SYS_pread64, SYS_close, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_ftruncate, SYS_truncate, SYS_fsync, SYS_fdatasync, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_fallocate, SYS_sendfile, SYS_copy_file_range, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_access, SYS_faccessat};

inline bool under(const char *p) { return p && strncmp(p, root, strlen(root)) == 0; }
inline bool fd_tracked(long fd) { return fd >= 0 && fd < 4096 && tracked[fd]; }

inline void on_sys(int, siginfo_t *si, void *uc) {
  greg_t *g = static_cast<ucontext_t *>(uc)->uc_mcontext.gregs;
  const int nr = si->si_syscall;
  long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
  const auto real = [&] { return faultfs_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); };
  char cls = 0;
  long size = 0;
  switch (nr) {
    case SYS_open:
    case SYS_creat:
      if (under(reinterpret_cast<const char *>(a[0]))) cls = 'o';
      break;
    case SYS_openat:
      if (under(reinterpret_cast<const char *>(a[1])) || (a[0] >= 0 && fd_tracked(a[0]))) cls = 'o';
      break;
    case SYS_write:
    case SYS_pwrite64:
      if (fd_tracked(a[0])) cls = 'w', size = a[2];
      break;
    case SYS_writev:
    case SYS_pwritev:
      if (fd_tracked(a[0])) {
        cls = 'w';
        for (long i = 0; i < a[2]; ++i) size += static_cast<long>(reinterpret_cast<const iovec *>(a[1])[i].iov_len);
      }
      break;
    case SYS_sendfile:
      if (fd_tracked(a[0])) cls = 'w', size = a[3];
      break;
    case SYS_copy_file_range:
      if (fd_tracked(a[2])) cls = 'w', size = a[4];
      break;
    case SYS_read:
    case SYS_pread64:
      if (fd_tracked(a[0])) cls = 'r', size = a[2];
      break;
    case SYS_readv:
      if (fd_tracked(a[0])) cls = 'r', size = 1;
      break;
    case SYS_close:
    case SYS_ftruncate:
    case SYS_fsync:
    case SYS_fdatasync:
    case SYS_fallocate:
    case SYS_fchmod:
      if (fd_tracked(a[0])) cls = 'm';
      break;
    case SYS_rename:
    case SYS_link:
      if (under(reinterpret_cast<const char *>(a[0])) || under(reinterpret_cast<const char *>(a[1]))) cls = 'm';
      break;
    case SYS_renameat:
    case SYS_renameat2:
    case SYS_linkat:
      if (under(reinterpret_cast<const char *>(a[1])) || under(reinterpret_cast<const char *>(a[3]))) cls = 'm';
      break;
    case SYS_symlink:
    case SYS_symlinkat:
      cls = 'm';
      break;
    case SYS_unlink:
    case SYS_rmdir:
    case SYS_mkdir:
    case SYS_truncate:
    case SYS_chmod:
      if (under(reinterpret_cast<const char *>(a[0]))) cls = 'm';
      break;
    case SYS_unlinkat:
    case SYS_mkdirat:
    case SYS_fchmodat:
      if (under(reinterpret_cast<const char *>(a[1])) || fd_tracked(a[0])) cls = 'm';
      break;
    case SYS_stat:
    case SYS_lstat:
    case SYS_access:
      if (under(reinterpret_cast<const char *>(a[0]))) cls = 's';
      break;
    case SYS_newfstatat:
    case SYS_statx:
    case SYS_faccessat:
      if (under(reinterpret_cast<const char *>(a[1]))) cls = 's';
      break;
    default: break;
  }
  if (!cls || !active) {
    g[REG_RAX] = real();
    return;
  }
  if (before) before(cls);
  const int index = record->count;
  if (index < 512) {
    record->ops[index] = {nr, size, cls};
    ++record->count;
  }
  const auto die = [] {
    record->crashed = 1;
    faultfs_raw(SYS_exit_group, 99, 0, 0, 0, 0, 0);
  };
  const auto partial = [&](long n) -> long {
    if (nr == SYS_writev || nr == SYS_pwritev) {
      long done = 0;
      for (long i = 0; i < a[2] && done < n; ++i) {
        const iovec &v = reinterpret_cast<const iovec *>(a[1])[i];
        const long k = static_cast<long>(v.iov_len) < n - done ? static_cast<long>(v.iov_len) : n - done;
        const long r = faultfs_raw(SYS_write, a[0], reinterpret_cast<long>(v.iov_base), k, 0, 0, 0);
        if (r < 0) return done ? done : r;
        done += r;
      }
      return done;
    }
    const int pos = nr == SYS_sendfile ? 3 : nr == SYS_copy_file_range ? 4 : 2;
    a[pos] = n;
    return real();
  };
  const Fault *f = nullptr;
  for (const Fault &x : plan)
    if (x.kind != NONE && x.op == index) f = &x;
  if (f && f->kind == CRASH_BEFORE) die();
  long r;
  if (f && f->kind == FAIL) {
    if (nr == SYS_close) real();
    r = -f->arg;
  } else if (f && f->kind == TORN_CRASH) {
    if (f->arg > 0) partial(f->arg);
    die();
    r = 0;
  } else if (f && (f->kind == SHORT || f->kind == SHORT_THEN_FULL)) {
    r = f->arg > 0 ? partial(f->arg) : (f->kind == SHORT && cls == 'r') ? real() : -ENOSPC;
    if (f->kind == SHORT_THEN_FULL) full = true;
  } else if (full && cls == 'w' && size > 0) {
    r = -ENOSPC;
  } else {
    r = real();
  }
  if (cls == 'o' && r >= 0 && r < 4096) tracked[r] = 1;
  if (nr == SYS_close && a[0] >= 0 && a[0] < 4096) tracked[a[0]] = 0;
  if (f && f->kind == CRASH_AFTER) die();
  g[REG_RAX] = r;
}

// Installs the trap in this process (irrevocably). Returns false if that is not possible here.
inline bool install(const char *scratch_root, Record *rec) {
  snprintf(root, sizeof root, "%s", scratch_root);
  record = rec;
  struct sigaction sa {};
  sa.sa_sigaction = on_sys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (sigaction(SIGSYS, &sa, nullptr)) return false;
  constexpr int N = sizeof SYSCALLS / sizeof *SYSCALLS;
  const uint64_t ip = reinterpret_cast<uint64_t>(faultfs_raw_ret);
  struct sock_filter f[N + 16];
  int n = 0;
  const auto stmt = [&](uint16_t c, uint32_t k) { f[n++] = sock_filter{c, 0, 0, k}; };
  const auto jump = [&](uint16_t c, uint32_t k, uint8_t t, uint8_t e) { f[n++] = sock_filter{c, t, e, k}; };
  stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer));
  jump(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(ip), 0, 3);
  stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4);
  jump(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(ip >> 32), 0, 1);
  stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
  for (int i = 0; i < N; ++i) jump(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(SYSCALLS[i]), static_cast<uint8_t>(N - i), 0);
  stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  stmt(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  struct sock_fprog p {
    static_cast<unsigned short>(n), f
  };
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
  if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) return false;
  active = true;
  return true;
}
}  // namespace faultfs
