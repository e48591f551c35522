// The parts of the C library that SQLite (and std, for files) ask for; used in symbolic execution only.
// Files live in memory: the names used are absolute paths, directories always exist.
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include <stddef.h>
#include <stdarg.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
void *malloc(size_t); void *realloc(void *, size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); size_t strlen(const char *);
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int in(char c, const char *s) { for (; *s; s++) if (*s == c) return 1; return 0; }
size_t strspn(const char *a, const char *s) { size_t n = 0; while (a[n] && in(a[n], s)) n++; return n; }
size_t strcspn(const char *a, const char *s) { size_t n = 0; while (a[n] && !in(a[n], s)) n++; return n; }
char *strrchr(const char *a, int c) { const char *r = 0; for (;; a++) { if (*a == (char)c) r = a; if (!*a) return (char *)r; } }
time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
int gettimeofday(struct timeval *t, void *z) { t->tv_sec = 1700000000; t->tv_usec = 0; return 0; }
int getpid(void) { return 4242; }
unsigned geteuid(void) { return 0; }
long sysconf(int n) { return 4096; }
struct file { char name[200]; char *data; size_t size, room; int live, ino; };
static struct file files[16]; static int inos;
struct pipe; static struct { struct file *f; long pos; int open, dir, end; struct pipe *p; } fds[32]; // end: 1 reads from the pipe, 2 writes to it, 3 is /dev/null
// Pipes, between the program and the processes it starts (which are threads here).
struct pipe { unsigned char b[4]; size_t n; int r, w; unsigned gen; };
long syscall(long, ...); static int pipe_end(int fd, struct pipe *p, int end);
static void changed(unsigned *gen) { ++*gen; syscall(202, gen, 1, 99, 0, 0, 0); }
static void await(unsigned *gen) { syscall(202, gen, 0, *gen, 0, 0, 0); }
static void drop_end(struct pipe *p, int end) { if (end == 1) p->r--; else p->w--; changed(&p->gen); }
static long pipe_read(struct pipe *p, unsigned char *b, size_t n);
static long pipe_write(struct pipe *p, const unsigned char *b, size_t n);
static int fail(int e) { errno = e; return -1; }
static struct file *find(const char *n) { for (int i = 0; i < 16; i++) if (files[i].live && !strcmp(files[i].name, n)) return &files[i]; return 0; }
static int isdir(const char *n) { size_t k = strlen(n); return !strcmp(n, "/tmp") || !strcmp(n, "/") || !strcmp(n, "/tmp/"); }
static int deeper(const char *n) { for (; *n; n++) if (*n == '/') return 1; return 0; }
int open64(const char *n, int fl, ...) { if (!strcmp(n, "/dev/null")) return pipe_end(-1, 0, 3); struct file *f = find(n); int dir = isdir(n); if (strlen(n) >= sizeof files[0].name) return fail(ENAMETOOLONG); if (dir && (fl & O_ACCMODE) != O_RDONLY) return fail(EISDIR); if (f && (fl & O_CREAT) && (fl & O_EXCL)) return fail(EEXIST);
  if (!f && !dir) { if (!(fl & O_CREAT) || strncmp(n, "/tmp/", 5) || deeper(n + 5)) return fail(ENOENT); for (int i = 0; i < 16; i++) if (!files[i].live) { f = &files[i]; break; } if (!f) return fail(ENFILE); memcpy(f->name, n, strlen(n) + 1); f->live = 1; f->size = f->room = 0; f->data = 0; f->ino = ++inos; }
  if (f && (fl & O_TRUNC)) f->size = 0; for (int i = 3; i < 32; i++) if (!fds[i].open) { fds[i].open = 1; fds[i].end = 0; fds[i].dir = dir; fds[i].f = f; fds[i].pos = 0; return i; } return fail(EMFILE); }
static int bad(int fd) { return fd < 3 || fd >= 32 || !fds[fd].open; }
static int pipe_end(int fd, struct pipe *p, int end) { for (int i = 3; i < 32; i++) if (!fds[i].open) { fds[i].open = 1; fds[i].dir = 0; fds[i].f = 0; fds[i].end = end; fds[i].p = p; return i; } return fail(EMFILE); }
static long pipe_read(struct pipe *p, unsigned char *b, size_t n) { if (!n) return 0; while (!p->n) { if (!p->w) return 0; await(&p->gen); } if (n > p->n) n = p->n; memcpy(b, p->b, n); for (size_t i = n; i < p->n; i++) p->b[i - n] = p->b[i]; p->n -= n; changed(&p->gen); return n; }
static long pipe_write(struct pipe *p, const unsigned char *b, size_t n) { size_t d = 0; while (d < n) { if (!p->r) return d ? (long)d : fail(EPIPE); size_t k = sizeof p->b - p->n; if (!k) { await(&p->gen); continue; } if (k > n - d) k = n - d; memcpy(p->b + p->n, b + d, k); p->n += k; d += k; changed(&p->gen); } return d; }
int pipe2(int *r, int fl) { struct pipe *p = malloc(sizeof *p); memset(p, 0, sizeof *p); p->r = p->w = 1; r[0] = pipe_end(-1, p, 1); r[1] = pipe_end(-1, p, 2); return 0; }
int close(int fd) { if (bad(fd)) return fail(EBADF); fds[fd].open = 0; if (fds[fd].end == 1 || fds[fd].end == 2) drop_end(fds[fd].p, fds[fd].end); return 0; }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (bad(fd) || fds[fd].dir) return fail(EBADF); struct file *f = fds[fd].f; if (o < 0) return fail(EINVAL); if ((size_t)o >= f->size) return 0; if (n > f->size - o) n = f->size - o; memcpy(b, f->data + o, n); return n; }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (bad(fd) || fds[fd].dir) return fail(EBADF); struct file *f = fds[fd].f; size_t end = o + n; if (end > f->room) { f->room = end < 16384 ? 16384 : 2 * end; f->data = realloc(f->data, f->room); } if ((size_t)o > f->size) memset(f->data + f->size, 0, o - f->size); memcpy(f->data + o, b, n); if (end > f->size) f->size = end; return n; }
// The process run by sym_run: its standard input, and what it writes to its standard output.
struct io { const char *in; size_t inn, inp; char *out; size_t outn; char *err; size_t errn, cap; }; static struct io *io;
int main(int, char **) __attribute__((weak));
int uc_run(int argc, char **argv, struct io *i) { io = i; return main(argc, argv); }
int isatty(int fd) { errno = ENOTTY; return 0; }
int poll(void *p, unsigned long n, int t) { return 0; }
int sigaction(int n, const void *a, void *o) { if (o) { memset(o, 0, 152); *(long *)o = 1; } return 0; } // SIG_IGN: std then installs no handlers of its own
void *signal(int n, void *h) { return 0; }
void *dlsym(void *h, const char *n) { return 0; }
int pthread_attr_init(void *a) { return 0; }
int pthread_attr_destroy(void *a) { return 0; }
int pthread_attr_setstacksize(void *a, size_t n) { return 0; }
int pthread_getattr_np(unsigned long t, void *a) { return 0; }
int pthread_attr_getstack(const void *a, void **p, size_t *n) { *p = (void *)0x10000; *n = 1 << 23; return 0; }
int pthread_attr_getguardsize(const void *a, size_t *n) { *n = 4096; return 0; }
int pthread_detach(unsigned long t) { return 0; }
int pthread_setname_np(unsigned long t, const char *n) { return 0; }
int sched_getaffinity(int p, size_t n, unsigned char *m) { memset(m, 0, n); m[0] = 7; return 0; } // three processors
int gettid(void) { return 4242; }
unsigned long getauxval(unsigned long n) { return 0; }
int dup(int fd) { return fail(EBADF); }
ssize_t write(int fd, const void *b, size_t n) { if (fd == 1 || fd == 2) { if (io) { char *o = fd == 1 ? io->out : io->err; size_t *k = fd == 1 ? &io->outn : &io->errn; if (*k + n > io->cap) return fail(EFBIG); memcpy(o + *k, b, n); *k += n; } return n; }
  if (bad(fd)) return fail(EBADF); if (fds[fd].end == 3) return n; if (fds[fd].end) return fds[fd].end == 2 ? pipe_write(fds[fd].p, b, n) : fail(EBADF); ssize_t r = pwrite64(fd, b, n, fds[fd].pos); fds[fd].pos += r; return r; }
struct iov { const void *p; size_t n; };
ssize_t writev(int fd, const struct iov *v, int k) { ssize_t r = 0; for (int i = 0; i < k; i++) { ssize_t w = write(fd, v[i].p, v[i].n); if (w < 0) return r ? r : w; r += w; } return r; }
ssize_t read(int fd, void *b, size_t n) { if (fd == 0) { if (!io) return 0; if (n > io->inn - io->inp) n = io->inn - io->inp; memcpy(b, io->in + io->inp, n); io->inp += n; return n; } if (!bad(fd) && fds[fd].end) return fds[fd].end == 1 ? pipe_read(fds[fd].p, b, n) : fds[fd].end == 3 ? 0 : fail(EBADF); ssize_t r = pread64(fd, b, n, fds[fd].pos); if (r > 0) fds[fd].pos += r; return r; }
off64_t lseek64(int fd, off64_t o, int w) { if (bad(fd)) return fail(EBADF); fds[fd].pos = w == 0 ? o : w == 1 ? fds[fd].pos + o : (off64_t)fds[fd].f->size + o; return fds[fd].pos; }
int ftruncate64(int fd, off64_t n) { if (bad(fd)) return fail(EBADF); struct file *f = fds[fd].f; if ((size_t)n > f->size) { char z = 0; pwrite64(fd, &z, 1, n - 1); } f->size = n; return 0; }
int fsync(int fd) { return bad(fd) ? fail(EBADF) : 0; }
int unlink(const char *n) { struct file *f = find(n); if (!f) return fail(ENOENT); f->live = 0; return 0; }
static void fill(struct stat64 *s, struct file *f) { memset(s, 0, sizeof *s); s->st_mode = f ? S_IFREG | 0644 : S_IFDIR | 0755; s->st_nlink = f ? f->live : 2; s->st_size = f ? f->size : 4096; s->st_ino = f ? f->ino : 1000; s->st_dev = 1; s->st_blksize = 4096; }
int stat64(const char *n, struct stat64 *s) { struct file *f = find(n); if (!f && !isdir(n)) return fail(ENOENT); fill(s, f); return 0; }
int lstat64(const char *n, struct stat64 *s) { return stat64(n, s); }
int fstat64(int fd, struct stat64 *s) { if (bad(fd)) return fail(EBADF); fill(s, fds[fd].f); return 0; }
int statx(int d, const char *n, int fl, unsigned m, struct statx *x) { struct stat64 s; if (!n || !x) { errno = EFAULT; return -1; } int r = *n ? stat64(n, &s) : fstat64(d, &s); if (r) return r; memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_ino = s.st_ino; x->stx_nlink = s.st_nlink; x->stx_blksize = 4096; return 0; }
int access(const char *n, int m) { return find(n) || isdir(n) ? 0 : fail(ENOENT); }
ssize_t readlink(const char *n, char *b, size_t k) { return fail(EINVAL); }
char *getcwd(char *b, size_t n) { memcpy(b, "/tmp", 5); return b; }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); if (cmd == F_GETLK) va_arg(a, struct flock64 *)->l_type = F_UNLCK; va_end(a); return 0; }
int fcntl(int fd, int cmd, ...) { return 0; }
int fchmod(int fd, mode_t m) { return 0; }
int fchown(int fd, uid_t u, gid_t g) { return 0; }

char *strerror(int e) { return "error"; }
int __xpg_strerror_r(int e, char *b, size_t n) { memcpy(b, "some error", 11); return 0; }
// Processes that are started.  What one does is a plan set by the harness: R n (read n bytes, or all there are), E (read to the end), W n (write the next n bytes of the output), C (close standard input), O (close standard output), X c (exit), K (die of a signal).
static char *theenv[] = {"UCI=inherited", 0}; char **environ = theenv;
char *getenv(const char *n) { return strcmp(n, "UCI") ? 0 : theenv[0] + 4; }
static const unsigned char *plan, *plan_out; static size_t plan_n; static const char prog[] = "/bin/prog";
static struct proc { const char *prog; char **argv, **envp; const char *cwd; struct pipe *in, *out; unsigned char *got; size_t gotn, wrote; int status; unsigned over; } procs[4]; static int nprocs;
struct actions { int io[3]; const char *cwd; };
void uc_child(const unsigned char *p, size_t n, const unsigned char *out) { plan = p; plan_n = n; plan_out = out; }
long uc_program(char *b, size_t n) { memcpy(b, prog, sizeof prog - 1); return sizeof prog - 1; }
static long give(const void *s, size_t k, char *b, size_t n) { if (k > n) k = n; memcpy(b, s, k); return k; }
// What the k-th process got: 0 the program, 1 argument i, 2 variable i of those named UC..., 3 the directory, 4 what it read.  -1: no such thing.
long uc_spawned(int k, int what, int i, char *b, size_t n) { if (k >= nprocs) return -1; struct proc *p = &procs[k]; switch (what) { case 0: return give(p->prog, strlen(p->prog), b, n); case 1: { int c = 0; while (p->argv[c]) c++; return i < c ? give(p->argv[i], strlen(p->argv[i]), b, n) : -1; }
  case 2: { int c = 0; while (p->envp[c]) c++; if (i < 0 || i >= c) return -1; return give(p->envp[i], strlen(p->envp[i]), b, n); } case 3: return p->cwd ? give(p->cwd, strlen(p->cwd), b, n) : 0; default: return give(p->got, p->gotn, b, n); } }
int pthread_create(unsigned long *, const void *, void *(*)(void *), void *);
static long child_read(struct proc *p, size_t n) { unsigned char c[4]; if (!p->in) return 0; long r = pipe_read(p->in, c, n < 4 ? n : 4); if (r > 0) { p->got = realloc(p->got, p->gotn + r); memcpy(p->got + p->gotn, c, r); p->gotn += r; } return r; }
static void *child(void *a) { struct proc *p = a; for (size_t i = 0; i < plan_n; i++) { switch (plan[i]) {
    case 'R': { size_t n = plan[++i]; while (n) { long r = child_read(p, n); if (r <= 0) break; n -= r; } break; } case 'E': while (child_read(p, 4) > 0) ; break;
    case 'W': { size_t n = plan[++i]; if (p->out && pipe_write(p->out, plan_out + p->wrote, n) < (long)n) { p->status = 13; goto end; } p->wrote += n; break; }
    case 'C': if (p->in) drop_end(p->in, 1); p->in = 0; break; case 'O': if (p->out) drop_end(p->out, 2); p->out = 0; break; case 'X': p->status = plan[++i] << 8; goto end; case 'K': p->status = plan[++i]; goto end; } }
end: if (p->in) drop_end(p->in, 1); if (p->out) drop_end(p->out, 2); p->over = 1; syscall(202, &p->over, 1, 99, 0, 0, 0); return 0; }
static char *copy(const char *s) { size_t n = strlen(s); char *r = malloc(n + 1); memcpy(r, s, n + 1); return r; }
static char **copies(char *const *v) { int n = 0; while (v[n]) n++; char **r = malloc((n + 1) * sizeof *r); for (int i = 0; i < n; i++) r[i] = copy(v[i]); r[n] = 0; return r; }
int posix_spawn_file_actions_init(struct actions *a) { a->io[0] = a->io[1] = a->io[2] = -1; a->cwd = 0; return 0; }
int posix_spawn_file_actions_destroy(struct actions *a) { return 0; }
int posix_spawn_file_actions_adddup2(struct actions *a, int from, int to) { a->io[to] = from; return 0; }
int posix_spawn_file_actions_addchdir_np(struct actions *a, const char *d) { a->cwd = copy(d); return 0; }
int posix_spawnattr_init(void *a) { return 0; }
int posix_spawnattr_destroy(void *a) { return 0; }
int posix_spawnattr_setflags(void *a, short f) { return 0; }
int posix_spawnattr_setpgroup(void *a, int p) { return 0; }
int posix_spawnattr_setsigmask(void *a, const void *s) { return 0; }
int posix_spawnattr_setsigdefault(void *a, const void *s) { return 0; }
int sigemptyset(void *s) { return 0; }
int sigaddset(void *s, int n) { return 0; }
const char *gnu_get_libc_version(void) { return "2.39"; }
int posix_spawnp(int *pid, const char *name, struct actions *a, const void *at, char *const *argv, char *const *envp) { if (a && a->cwd && !isdir(a->cwd)) return ENOENT; if (strcmp(name, prog)) return ENOENT; if (nprocs == 4) return EAGAIN;
  struct proc *p = &procs[nprocs]; memset(p, 0, sizeof *p); p->prog = copy(name); p->argv = copies(argv); p->envp = copies(envp); p->cwd = a ? a->cwd : 0; *pid = 5000 + nprocs++;
  int i = a ? a->io[0] : -1, o = a ? a->io[1] : -1; if (i >= 3 && !bad(i) && fds[i].end == 1) { p->in = fds[i].p; p->in->r++; } if (o >= 3 && !bad(o) && fds[o].end == 2) { p->out = fds[o].p; p->out->w++; }
  unsigned long t; return pthread_create(&t, 0, child, p); }
int waitpid(int pid, int *st, int fl) { if (pid < 5000 || pid >= 5000 + nprocs) return fail(ECHILD); struct proc *p = &procs[pid - 5000]; while (!p->over) { if (fl & 1) return 0; await(&p->over); } if (st) *st = p->status; return pid; }
