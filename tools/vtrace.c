/* vtrace DIR LOG AT ACTION -- PROG ARGS...
 *
 * Runs PROG, recording in LOG every system call that reads or changes a file
 * under DIR, and letting the AT-th of them (counted over all threads, from 1)
 * fail: ACTION is "none", "pause" (it waits before the call, LOG.paused is made,
 * until there is LOG.go), "kill" (the process dies just before it), "killafter",
 * "short" (half of a write or read), "full" (from then on nothing can be written: half
 * of the write in progress, then no space), "cut" (half of a read, after which reading
 * that file fails) or the number of an error.
 *
 * LOG: a line per call:  n op ret fd path path2 flags off len data
 * tab-separated, texts in hex, "-" for none; ret is "?" if the process died in it.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/reg.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXT 4096
#define MAXFD 4096
struct thread {
  pid_t tid;
  int in;          /* inside a system call */
  int rec;         /* it is recorded */
  int inject;      /* errno to return, 0: none */
  int killafter;
  char op[16], path[PATH_MAX], path2[PATH_MAX];
  long fd, flags, off, len;
  unsigned char *data;
  unsigned long n;
} th[MAXT];
static int nth;
static char *fdpath[MAXFD]; /* paths of the files under DIR that are open (one process) */
static char dir[PATH_MAX];
static unsigned long count, at;
static const char *action;
static int full;
static char *cut; /* the file that cannot be read on */
static FILE *lg;
static pid_t child;

static struct thread *get(pid_t t) {
  for (int i = 0; i < nth; i++) if (th[i].tid == t) return &th[i];
  for (int i = 0; i < nth; i++) if (th[i].tid == 0) { memset(&th[i], 0, sizeof th[i]); th[i].tid = t; return &th[i]; }
  if (nth == MAXT) { fprintf(stderr, "vtrace: too many threads\n"); exit(99); }
  memset(&th[nth], 0, sizeof th[nth]);
  th[nth].tid = t;
  return &th[nth++];
}

static int peek(pid_t t, unsigned long a, void *buf, size_t n) {
  struct iovec l = {buf, n}, r = {(void *)a, n};
  return process_vm_readv(t, &l, 1, &r, 1, 0) == (ssize_t)n ? 0 : -1;
}
static void str(pid_t t, unsigned long a, char *buf) {
  size_t i = 0;
  while (i < PATH_MAX - 1) {
    if (peek(t, a + i, buf + i, 1) || !buf[i]) break;
    i++;
  }
  buf[i] = 0;
}
/* path of argument `a` relative to directory descriptor `dfd` */
static void resolve(pid_t t, long dfd, unsigned long a, char *out) {
  char p[PATH_MAX], b[PATH_MAX], l[64];
  str(t, a, p);
  if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return; }
  if ((int)dfd == AT_FDCWD) snprintf(l, sizeof l, "/proc/%d/cwd", t);
  else snprintf(l, sizeof l, "/proc/%d/fd/%d", t, (int)dfd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  if (n < 0) n = 0;
  b[n] = 0;
  snprintf(out, PATH_MAX, "%.2000s/%.2000s", b, p);
}
static int under(const char *p) {
  size_t n = strlen(dir);
  return !strncmp(p, dir, n) && (p[n] == '/' || !p[n]);
}
static void hex(const unsigned char *b, size_t n) {
  if (!n) fputc('-', lg);
  for (size_t i = 0; i < n; i++) fprintf(lg, "%02x", b[i]);
}
static void put(struct thread *x, const char *ret) {
  fprintf(lg, "%lu\t%s\t%s\t%ld\t", x->n, x->op, ret, x->fd);
  hex((unsigned char *)x->path, strlen(x->path)); fputc('\t', lg);
  hex((unsigned char *)x->path2, strlen(x->path2));
  fprintf(lg, "\t%ld\t%ld\t%ld\t", x->flags, x->off, x->len);
  hex(x->data, x->data ? (size_t)x->len : 0);
  fputc('\n', lg);
  fflush(lg);
}
static const char *fdp(long fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }

static int onfd(struct thread *x, const char *op, long fd) {
  const char *p = fdp(fd);
  if (!p) return 0;
  snprintf(x->op, sizeof x->op, "%s", op);
  x->fd = fd;
  snprintf(x->path, sizeof x->path, "%s", p);
  return 1;
}
static int onpath(struct thread *x, const char *op, long dfd, unsigned long a) {
  resolve(x->tid, dfd, a, x->path);
  if (!under(x->path)) return 0;
  snprintf(x->op, sizeof x->op, "%s", op);
  return 1;
}
static int onpaths(struct thread *x, const char *op, long d1, unsigned long a, long d2, unsigned long b) {
  resolve(x->tid, d1, a, x->path);
  resolve(x->tid, d2, b, x->path2);
  if (!under(x->path) && !under(x->path2)) return 0;
  snprintf(x->op, sizeof x->op, "%s", op);
  return 1;
}
static void data(struct thread *x, unsigned long a, unsigned long n) {
  if (n > 64 << 20) n = 64 << 20;
  x->len = n;
  x->data = malloc(n + 1);
  if (peek(x->tid, a, x->data, n)) x->len = 0;
}

/* is the call of interest? */
static int entry(struct thread *x, struct user_regs_struct *r) {
  unsigned long a = r->rdi, b = r->rsi, c = r->rdx, d = r->r10, e = r->r8;
  x->path[0] = x->path2[0] = 0;
  x->fd = -1; x->flags = 0; x->off = -1; x->len = 0;
  free(x->data); x->data = 0;
  switch (r->orig_rax) {
  case SYS_open: x->flags = b; return onpath(x, "open", AT_FDCWD, a);
  case SYS_creat: x->flags = O_CREAT | O_WRONLY | O_TRUNC; return onpath(x, "open", AT_FDCWD, a);
  case SYS_openat: x->flags = c; return onpath(x, "open", a, b);
  case SYS_openat2: { uint64_t f = 0; peek(x->tid, c, &f, 8); x->flags = f; return onpath(x, "open", a, b); }
  case SYS_close: return onfd(x, "close", a);
  case SYS_read: case SYS_pread64: case SYS_readv: return onfd(x, "read", a);
  case SYS_write: if (!onfd(x, "write", a)) return 0; data(x, b, c); return 1;
  case SYS_pwrite64: if (!onfd(x, "write", a)) return 0; data(x, b, c); x->off = d; return 1;
  case SYS_writev: case SYS_pwritev: case SYS_pwritev2: {
    if (!onfd(x, "write", a)) return 0;
    size_t n = 0;
    struct iovec v[1024];
    if (c > 1024) c = 1024;
    peek(x->tid, b, v, c * sizeof *v);
    for (size_t i = 0; i < c; i++) n += v[i].iov_len;
    x->data = malloc(n + 1); x->len = n; n = 0;
    for (size_t i = 0; i < c; i++) { peek(x->tid, (unsigned long)v[i].iov_base, x->data + n, v[i].iov_len); n += v[i].iov_len; }
    if (r->orig_rax != SYS_writev) x->off = d;
    return 1; }
  case SYS_fsync: case SYS_fdatasync: return onfd(x, "fsync", a);
  case SYS_ftruncate: x->len = b; if (!onfd(x, "ftruncate", a)) return 0; return 1;
  case SYS_truncate: x->len = b; return onpath(x, "truncate", AT_FDCWD, a);
  case SYS_lseek: x->off = b; x->flags = c; return onfd(x, "lseek", a);
  case SYS_rename: return onpaths(x, "rename", AT_FDCWD, a, AT_FDCWD, b);
  case SYS_renameat: return onpaths(x, "rename", a, b, c, d);
  case SYS_renameat2: x->flags = e; return onpaths(x, "rename", a, b, c, d);
  case SYS_link: return onpaths(x, "link", AT_FDCWD, a, AT_FDCWD, b);
  case SYS_linkat: return onpaths(x, "link", a, b, c, d);
  case SYS_symlink: if (!onpath(x, "symlink", AT_FDCWD, b)) return 0; str(x->tid, a, x->path2); return 1;
  case SYS_symlinkat: if (!onpath(x, "symlink", b, c)) return 0; str(x->tid, a, x->path2); return 1;
  case SYS_unlink: return onpath(x, "unlink", AT_FDCWD, a);
  case SYS_unlinkat: x->flags = c; return onpath(x, c & AT_REMOVEDIR ? "rmdir" : "unlink", a, b);
  case SYS_rmdir: return onpath(x, "rmdir", AT_FDCWD, a);
  case SYS_mkdir: return onpath(x, "mkdir", AT_FDCWD, a);
  case SYS_mkdirat: return onpath(x, "mkdir", a, b);
  case SYS_chmod: return onpath(x, "chmod", AT_FDCWD, a);
  case SYS_fchmod: return onfd(x, "chmod", a);
  case SYS_fchmodat: return onpath(x, "chmod", a, b);
  case SYS_sync: case SYS_syncfs: x->fd = -1; snprintf(x->op, sizeof x->op, "sync"); return 1;
  case SYS_fallocate: return onfd(x, "odd", a);
  case SYS_copy_file_range: return onfd(x, "odd", c);
  case SYS_sendfile: return onfd(x, "odd", a);
  case SYS_splice: return onfd(x, "odd", c);
  case SYS_dup: case SYS_dup2: case SYS_dup3: return onfd(x, "odd", a);
  case SYS_mmap: return (c & 2) && (d & 1) && onfd(x, "odd", e);
  }
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 7 || !realpath(argv[1], dir) || strcmp(argv[5], "--")) { fprintf(stderr, "vtrace: usage\n"); return 99; }
  lg = fopen(argv[2], "w");
  at = strtoul(argv[3], 0, 10);
  action = argv[4];
  if (!lg) { perror("vtrace"); return 99; }
  child = fork();
  if (!child) {
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);
    execv(argv[6], argv + 6);
    perror("vtrace: exec");
    _exit(99);
  }
  int st;
  if (waitpid(child, &st, 0) < 0 || !WIFSTOPPED(st)) { perror("vtrace: wait"); return 99; }
  if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) { perror("vtrace: ptrace"); return 99; }
  for (int k = 0; k < 3; k++) { /* files under DIR it is given at the start */
    char l[64], p[PATH_MAX];
    snprintf(l, sizeof l, "/proc/%d/fd/%d", child, k);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n > 0) { p[n] = 0; if (under(p)) fdpath[k] = strdup(p); }
  }
  ptrace(PTRACE_SYSCALL, child, 0, 0);
  int status = 99;
  for (;;) {
    pid_t t = waitpid(-1, &st, __WALL);
    if (t < 0) { if (errno == EINTR) continue; break; }
    struct thread *x = get(t);
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      if (x->in && x->rec) { put(x, "?"); }
      if (t == child) status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
      x->tid = 0; x->in = x->rec = 0;
      continue;
    }
    int sig = WSTOPSIG(st);
    if (sig == (SIGTRAP | 0x80)) {
      struct user_regs_struct r;
      if (ptrace(PTRACE_GETREGS, t, 0, &r)) { continue; }
      if (!x->in) {
        x->in = 1; x->inject = 0; x->killafter = 0;
        x->rec = entry(x, &r);
        if (x->rec) {
          int isw = !strcmp(x->op, "write");
          x->n = ++count;
          if (full && (isw || (!strcmp(x->op, "open") && (x->flags & O_CREAT)) || !strcmp(x->op, "mkdir") || !strcmp(x->op, "link") || !strcmp(x->op, "symlink"))) x->inject = ENOSPC;
          if (cut && !strcmp(x->op, "read") && !strcmp(x->path, cut)) x->inject = EIO;
          if (x->n == at) {
            if (!strcmp(action, "cut")) {
              if (r.orig_rax == SYS_read && r.rdx > 1) {
                struct stat f;
                size_t n = r.rdx;
                if (!stat(x->path, &f) && f.st_size > 1 && (size_t)f.st_size < n) n = f.st_size;
                r.rdx = n / 2;
                ptrace(PTRACE_SETREGS, t, 0, &r);
                cut = strdup(x->path);
              } else if (!strcmp(x->op, "read")) x->inject = EIO;
            } else if (!strcmp(action, "pause")) {
              char p[PATH_MAX], g[PATH_MAX];
              snprintf(p, sizeof p, "%s.paused", argv[2]);
              snprintf(g, sizeof g, "%s.go", argv[2]);
              FILE *f = fopen(p, "w");
              if (f) fclose(f);
              for (int k = 0; k < 60000 && access(g, F_OK); k++) usleep(1000);
            } else if (!strcmp(action, "kill")) { kill(child, SIGKILL); }
            else if (!strcmp(action, "killafter")) x->killafter = 1;
            else if (!strcmp(action, "short") || !strcmp(action, "full")) {
              if (!strcmp(action, "full")) full = 1;
              int part = isw || (!full && (r.orig_rax == SYS_read || r.orig_rax == SYS_pread64));
              if (part && r.rdx > 1 && r.orig_rax != SYS_writev && r.orig_rax != SYS_pwritev && r.orig_rax != SYS_pwritev2) {
                r.rdx /= 2;
                ptrace(PTRACE_SETREGS, t, 0, &r);
              } else if (full) x->inject = ENOSPC;
            } else if (strcmp(action, "none")) x->inject = atoi(action);
          }
          if (x->inject) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, t, 0, &r); }
          /* a descriptor may be given to another thread's file before its closing is seen to have ended */
          else if (!strcmp(x->op, "close") && x->fd >= 0 && x->fd < MAXFD) {
            free(fdpath[x->fd]); fdpath[x->fd] = 0;
            if (x->n != at) { put(x, "0"); x->rec = 0; }
          }
        }
      } else {
        x->in = 0;
        if (x->rec) {
          char ret[32];
          if (x->inject) { r.rax = -x->inject; ptrace(PTRACE_SETREGS, t, 0, &r); }
          long v = (long)r.rax;
          snprintf(ret, sizeof ret, "%ld", v);
          if (!strcmp(x->op, "open")) {
            x->fd = v;
            if (v >= 0 && v < MAXFD) {
              char l[64], p[PATH_MAX];
              snprintf(l, sizeof l, "/proc/%d/fd/%ld", t, v);
              ssize_t n = readlink(l, p, sizeof p - 1);
              if (n > 0) { p[n] = 0; snprintf(x->path2, sizeof x->path2, "%s", x->path); snprintf(x->path, sizeof x->path, "%s", p); }
              free(fdpath[v]);
              fdpath[v] = strdup(x->path);
            }
          }
          put(x, ret);
          if (x->killafter) kill(child, SIGKILL);
          x->rec = 0;
        }
      }
      ptrace(PTRACE_SYSCALL, t, 0, 0);
    } else if (sig == SIGTRAP && (st >> 16)) {
      ptrace(PTRACE_SYSCALL, t, 0, 0); /* clone, fork, exec */
    } else if (sig == SIGSTOP && !x->in && x->n == 0) {
      ptrace(PTRACE_SYSCALL, t, 0, 0); /* a new thread */
    } else {
      ptrace(PTRACE_SYSCALL, t, 0, sig);
    }
  }
  fclose(lg);
  return status;
}
