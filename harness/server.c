// Fork server: runs the interpreter (its main renamed lb_main) once per request in a child process.
// Linked with the interpreter's objects. Requests and responses are length-prefixed on fds 0 and 1.
// system() and time() are wrapped at link time: system only records its argument and returns the status in the request.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <grp.h>

int lb_main(int argc, char** argv);

#define NOINST __attribute__((no_instrument_function))
#define NCOUNT 128
static uint32_t* counts;              // shared: [0] sessions so far, [i] function entries in session i; [NCOUNT] allocations

static int syslog_fd = -1;
static long fake_time = 0;
static uint32_t sysret = 1;

int __wrap_system(const char* cmd) NOINST;
int __wrap_system(const char* cmd) {
  if (syslog_fd >= 0 && cmd) {
    // how much of standard output has been written so far, and the command
    char at[32];
    int n = snprintf(at, sizeof at, "%lld ", (long long)lseek(1, 0, SEEK_CUR));
    (void)!write(syslog_fd, at, n);
    (void)!write(syslog_fd, cmd, strlen(cmd));
    (void)!write(syslog_fd, "\n", 1);
  }
  return (int)sysret;
}

long __wrap_time(long* t) NOINST;
long __wrap_time(long* t) {
  if (t) *t = fake_time;
  return fake_time;
}

// ---- breaks: (session, gap) pairs; a session is a period in which SIGINT is trapped
static uint32_t nbreaks, brk_i;
static struct { uint32_t session, gap; } breaks[256];
static uint32_t session;
static volatile int trapped;
static uint32_t gap_count;
static volatile int in_hook;

static void set_trapped(int now) NOINST;
static uint32_t brk_first;
static void set_trapped(int now) {
  if (now && !trapped) {
    session++; gap_count = 0;
    brk_first = brk_i;
    if (counts) counts[0] = session;
  }
  else if (now) { // trapped anew (RUN: once when typed, once when the program starts): the period begins here, with all its breaks
    gap_count = 0;
    brk_i = brk_first;
    if (counts && session < NCOUNT) counts[session] = 0;
  }
  trapped = now;
}


// ---- allocation failures: the failat'th request fails, and with persist all later ones too
static uint32_t failat, persist;
static int running;
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t) NOINST; void* __wrap_calloc(size_t, size_t) NOINST; void* __wrap_realloc(void*, size_t) NOINST;
char* __wrap_strdup(const char*) NOINST;
static int refuse(void) NOINST;
static int refuse(void) {
  if (!running) return 0;
  uint32_t n = ++counts[NCOUNT];
  return failat && (n == failat || (persist && n > failat));
}
void* __wrap_malloc(size_t n) { return refuse() ? NULL : __real_malloc(n); }
void* __wrap_calloc(size_t k, size_t n) { return refuse() ? NULL : __real_calloc(k, n); }
void* __wrap_realloc(void* p, size_t n) { return refuse() ? NULL : __real_realloc(p, n); }
char* __wrap_strdup(const char* s) {
  char* p = __wrap_malloc(strlen(s) + 1);
  return p ? strcpy(p, s) : NULL;
}

typedef void (*handler_t)(int);
handler_t __real_signal(int, handler_t);
handler_t __wrap_signal(int, handler_t) NOINST;
handler_t __wrap_signal(int sig, handler_t h) {
  handler_t r = __real_signal(sig, h);
  if (sig == SIGINT) set_trapped(h != SIG_DFL && h != SIG_IGN);
  return r;
}
int __real_sigaction(int, const struct sigaction*, struct sigaction*);
int __wrap_sigaction(int, const struct sigaction*, struct sigaction*) NOINST;
int __wrap_sigaction(int sig, const struct sigaction* a, struct sigaction* old) {
  int r = __real_sigaction(sig, a, old);
  if (sig == SIGINT && a) set_trapped(a->sa_handler != SIG_DFL && a->sa_handler != SIG_IGN);
  return r;
}

void __cyg_profile_func_enter(void* a, void* b) NOINST;
void __cyg_profile_func_exit(void* a, void* b) NOINST;
void __cyg_profile_func_exit(void* a, void* b) { (void)a; (void)b; }
void __cyg_profile_func_enter(void* a, void* b) {
  (void)a; (void)b;
  if (!trapped || in_hook) return;
  in_hook = 1;
  if (counts && session < NCOUNT) counts[session]++;
  while (brk_i < nbreaks && breaks[brk_i].session < session) brk_i++;
  if (brk_i < nbreaks && breaks[brk_i].session == session && ++gap_count >= breaks[brk_i].gap) {
    brk_i++;
    gap_count = 0;
    raise(SIGINT);
  }
  in_hook = 0;
}

// ---- coverage (gcc -fsanitize-coverage=trace-pc)
#define COVSIZE 65536
static unsigned char* cov;            // shared map of the current child
static unsigned char virgin[COVSIZE]; // edges seen by any child of this server
static uintptr_t cov_prev;
void __sanitizer_cov_trace_pc(void) NOINST __attribute__((no_sanitize("address")));
void __sanitizer_cov_trace_pc(void) {
  if (!cov) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  pc = (pc * 0x9E3779B97F4A7C15ull) >> 40;
  unsigned char* p = &cov[(pc ^ cov_prev) & (COVSIZE - 1)];
  if (*p < 255) ++*p;
  cov_prev = pc >> 1;
}

static int bucket(int n) NOINST;
static int bucket(int n) {
  return n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 4 : n < 8 ? 8 : n < 16 ? 16 : n < 32 ? 32 : n < 128 ? 64 : 128;
}

static int readn(int fd, void* p, size_t n) NOINST;
static int readn(int fd, void* p, size_t n) {
  char* s = p;
  while (n) {
    ssize_t k = read(fd, s, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return 0;
    s += k; n -= k;
  }
  return 1;
}
static void writen(int fd, const void* p, size_t n) NOINST;
static void writen(int fd, const void* p, size_t n) {
  const char* s = p;
  while (n) {
    ssize_t k = write(fd, s, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) _exit(3);
    s += k; n -= k;
  }
}

static char* buf;
static size_t pos;
static uint32_t u32(void) NOINST;
static uint32_t u32(void) { uint32_t v; memcpy(&v, buf + pos, 4); pos += 4; return v; }

static pid_t child;
static volatile int timed_out;
static void on_alarm(int sig) NOINST;
static void on_alarm(int sig) { (void)sig; timed_out = 1; if (child > 0) kill(child, SIGKILL); }

static void send_fd(int fd, uint32_t cap) NOINST;
static void send_fd(int fd, uint32_t cap) {
  struct stat st;
  fstat(fd, &st);
  uint32_t n = st.st_size > cap ? cap : (uint32_t)st.st_size;
  writen(1, &n, 4);
  if (n) {
    char* m = malloc(n);
    lseek(fd, 0, SEEK_SET);
    readn(fd, m, n);
    writen(1, m, n);
    free(m);
  }
}

static uid_t run_uid = 65534;

int main(void) NOINST;
int main(void) {
  signal(SIGPIPE, SIG_IGN);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, NULL);
  unsigned char* map = mmap(NULL, COVSIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  counts = mmap(NULL, (NCOUNT + 1) * sizeof *counts, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (;;) {
    uint32_t total;
    if (!readn(0, &total, 4)) return 0;
    buf = malloc(total + 1);
    if (!readn(0, buf, total)) return 0;
    buf[total] = 0;
    pos = 0;
    uint32_t cpu = u32(), wall = u32(), fsize = u32(), ftime = u32();
    failat = u32(); persist = u32();
    uint32_t merge = u32();
    sysret = u32();
    nbreaks = u32();
    if (nbreaks > 256) nbreaks = 256;
    for (uint32_t i = 0; i < nbreaks; i++) { breaks[i].session = u32(); breaks[i].gap = u32(); }
    uint32_t wdlen = u32();
    char* wd = strndup(buf + pos, wdlen); pos += wdlen;
    uint32_t argc = u32();
    char** argv = calloc(argc + 2, sizeof *argv);
    argv[0] = "lb";
    for (uint32_t i = 0; i < argc; i++) { uint32_t n = u32(); argv[i + 1] = strndup(buf + pos, n); pos += n; }
    uint32_t inlen = u32();
    int in = memfd_create("in", 0), out = memfd_create("out", 0), err = memfd_create("err", 0), sys = memfd_create("sys", 0);
    if (inlen) { writen(in, buf + pos, inlen); lseek(in, 0, SEEK_SET); }
    brk_i = 0; session = 0; trapped = 0; gap_count = 0; in_hook = 0;
    memset(counts, 0, (NCOUNT + 1) * sizeof *counts);
    memset(map, 0, COVSIZE);
    timed_out = 0;
    child = fork();
    if (child == 0) {
      dup2(in, 0); dup2(out, 1); dup2(merge ? out : err, 2);
      syslog_fd = sys;
      fake_time = ftime;
      struct rlimit rl = { cpu, cpu + 1 };
      setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = fsize;
      setrlimit(RLIMIT_FSIZE, &rl);
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      if (chdir(wd) != 0) _exit(97);
      if (getuid() == 0) {
        if (setgroups(0, NULL) != 0 || setgid(65534) != 0 || setuid(run_uid) != 0) _exit(98);
      }
      signal(SIGPIPE, SIG_DFL);
      signal(SIGALRM, SIG_DFL);
      cov_prev = 0;
      cov = map;
      running = 1;
      exit(lb_main((int)argc + 1, argv));
    }
    struct itimerval it = { { 0, 0 }, { wall, 0 } };
    setitimer(ITIMER_REAL, &it, NULL);
    int status = 0;
    while (waitpid(child, &status, 0) < 0 && errno == EINTR) ;
    child = 0;
    memset(&it, 0, sizeof it);
    setitimer(ITIMER_REAL, &it, NULL);
    uint32_t fresh = 0;
    for (int i = 0; i < COVSIZE; i++) if (map[i]) {
      int b = bucket(map[i]);
      if (!(virgin[i] & b)) { if (!virgin[i]) fresh += 16; else fresh++; virgin[i] |= b; }
    }
    int32_t st = status; uint32_t to = timed_out;
    writen(1, &st, 4); writen(1, &to, 4); writen(1, &fresh, 4);
    writen(1, counts, (NCOUNT + 1) * sizeof *counts);
    send_fd(out, fsize); send_fd(err, fsize); send_fd(sys, fsize);
    close(in); close(out); close(err); close(sys);
    for (uint32_t i = 0; i < argc; i++) free(argv[i + 1]);
    free(argv); free(wd); free(buf);
  }
}
