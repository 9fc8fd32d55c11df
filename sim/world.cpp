#include "world.h"
#include <cerrno>
#include <climits>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);

World W;
const char* const fault_names[F_COUNT] = { "none", "interrupt", "interrupt-while-reading", "kill", "open-fails", "write-fails", "close-fails",
  "read-fails", "short-reads", "malloc-fails-once", "malloc-fails-on", "stdin-error", "clock-jump", "end-of-input" };

static jmp_buf life_end;
static volatile int end_how, end_status;
static bool in_life;
static FILE *sut_in, *sut_out, *sut_err;
typedef void (*Handler)(int);
static Handler handler;
static bool one_shot, blocked, pending; // SIGINT: reset on delivery, masked, waiting for the mask to be lifted
static void (*at_exit[32])();
static int n_at_exit;
static uint64_t next_event = ~0ull;

struct OpenFile;
static std::set<FILE*>* sut_files;

// ---------------------------------------------------------------- steps, interrupts, kills

static void schedule() {
  uint64_t t = W.hang_at ? W.hang_at : ~0ull;
  if (!W.fired && (W.fault.kind == F_INT || W.fault.kind == F_KILL)) {
    uint64_t s = W.op_steps + (uint64_t) W.fault.a;
    if (s <= W.steps) s = W.steps + 1;
    if (s < t) t = s;
  }
  if (W.auto_int && W.op_steps + W.auto_int < t) t = W.op_steps + W.auto_int;
  if (W.again_at && W.again_at < t) t = W.again_at;
  next_event = t;
}

void World::arm(const Fault& f) {
  fault = f;
  fired = false; io_fired = false;
  fire_step = 0; fire_out = 0;
  op_steps = steps;
  op_allocs = allocs;
  again_at = 0;
  hang_at = steps + 20000000;
  schedule();
}

void World::rearm() { schedule(); }

size_t out_produced() { return W.seen.size() + __fpending(sut_out); }

static void note_fired() {
  W.fired = true;
  W.fired_count[W.fault.kind]++;
  W.fire_step = W.steps;
  W.fire_out = out_produced();
}

static void deliver_sigint() {
  if (blocked) { pending = true; return; }
  Handler h = handler;
  if (one_shot) { handler = SIG_DFL; W.trapped = false; }
  h(SIGINT);
  if (!W.trapped) runner_violation("EXIT", "after one CTRL-C a second one would end the session: it is no longer caught");
}

extern "C" void __sanitizer_cov_trace_pc() {
  if (++W.steps < next_event || !in_life) return;
  if (W.hang_at && W.steps >= W.hang_at) { end_how = HOW_HANG; longjmp(life_end, 1); }
  if (W.auto_int && W.steps >= W.op_steps + W.auto_int) {
    if (W.trapped) {
      W.auto_int = 0;
      W.fired_count[F_INT]++;
      if (W.hang_at > W.steps + 4000000) W.hang_at = W.steps + 4000000;
      deliver_sigint();
    }
  }
  else if (W.again_at && W.steps >= W.again_at) {
    W.again_at = 0;
    if (W.trapped) { W.fired_count[F_INT]++; deliver_sigint(); }
  }
  else if (!W.fired && W.fault.kind == F_KILL) {
    note_fired();
    end_how = HOW_KILL;
    longjmp(life_end, 1);
  }
  else if (!W.fired && W.fault.kind == F_INT && W.trapped) {
    note_fired();
    if (W.hang_at > W.steps + 4000000) W.hang_at = W.steps + 4000000;
    if (W.fault.b > 0) W.again_at = W.steps + (uint64_t) W.fault.b;
    deliver_sigint();
  }
  schedule();
  if (next_event <= W.steps) next_event = W.steps + 1;
}

bool world_interrupt() {
  if (!W.trapped) return false;
  note_fired();
  if (W.hang_at > W.steps + 4000000) W.hang_at = W.steps + 4000000;
  schedule();
  deliver_sigint();
  return true;
}

extern "C" Handler sim_signal(int sig, Handler h) {
  if (sig != SIGINT) return SIG_DFL;
  Handler old = handler;
  handler = h;
  bool was = W.trapped;
  W.trapped = h != SIG_DFL && h != SIG_IGN;
  W.restart = true;
  one_shot = false;
  if (was && !W.trapped) W.untrap_step = W.steps;
  return old ? old : SIG_DFL;
}

extern "C" Handler sim_sysv_signal(int sig, Handler h) {
  Handler old = sim_signal(sig, h);
  if (sig == SIGINT) { one_shot = true; W.restart = false; }
  return old;
}

extern "C" int sim_sigaction(int sig, const struct sigaction* a, struct sigaction* old) {
  if (sig != SIGINT) { if (old) memset(old, 0, sizeof *old); return 0; }
  if (old) { memset(old, 0, sizeof *old); old->sa_handler = handler; old->sa_flags = (W.restart ? SA_RESTART : 0) | (one_shot ? (int) SA_RESETHAND : 0); }
  if (a) { sim_signal(sig, a->sa_handler); W.restart = (a->sa_flags & SA_RESTART) != 0; one_shot = (a->sa_flags & SA_RESETHAND) != 0; }
  return 0;
}

extern "C" int sim_siginterrupt(int sig, int flag) { if (sig == SIGINT) W.restart = !flag; return 0; }

extern "C" int sim_sigprocmask(int how, const sigset_t* set, sigset_t* old) {
  if (old) { sigemptyset(old); if (blocked) sigaddset(old, SIGINT); }
  if (set) {
    bool in = sigismember(set, SIGINT) == 1;
    if (how == SIG_BLOCK) { if (in) blocked = true; }
    else if (how == SIG_UNBLOCK) { if (in) blocked = false; }
    else blocked = in;
    if (!blocked && pending) { pending = false; if (W.trapped) deliver_sigint(); }
  }
  return 0;
}

extern "C" int sim_raise(int sig) {
  if (sig == SIGINT && W.trapped) deliver_sigint();
  return 0;
}

// ---------------------------------------------------------------- exit

static void flush_files() {
  fflush(sut_out);
  for (auto f : *sut_files) fflush(f);
}

static void run_at_exit() { while (n_at_exit > 0) at_exit[--n_at_exit](); }

extern "C" int sim_atexit(void (*f)()) {
  if (n_at_exit == 32) return -1;
  at_exit[n_at_exit++] = f;
  return 0;
}

extern "C" void sim_exit(int status) {
  run_at_exit();
  flush_files();
  end_how = HOW_EXIT;
  end_status = status & 255;
  longjmp(life_end, 1);
}

extern "C" void sim_exit_now(int status) { end_how = HOW_EXIT; end_status = status & 255; longjmp(life_end, 1); }
extern "C" void sim_Exit(int status) { sim_exit_now(status); }
extern "C" void sim_abort() { runner_crash("abort() called"); }
extern "C" void sim_assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  static char b[512];
  const char* base = strrchr(file, '/');
  snprintf(b, sizeof b, "assertion failed: %s (%s:%u %s)", e, base ? base + 1 : file, line, fn);
  runner_crash(b);
}

// ---------------------------------------------------------------- streams

static ssize_t in_read(void*, char* buf, size_t n) {
  W.n_reads++;
  size_t k = runner_read(buf, n);
  if (k == (size_t) -1) { errno = W.int_eintr ? EINTR : EIO; return -1; }
  return (ssize_t) k;
}
static ssize_t out_write(void*, const char* buf, size_t n) {
  for (size_t i = 0; i < n; i++) W.seen.push_back((unsigned char) buf[i]);
  return (ssize_t) n;
}
static ssize_t err_write(void*, const char* buf, size_t n) { W.seen_err.append(buf, n); return (ssize_t) n; }

// ---------------------------------------------------------------- disk

struct OpenFile { std::string name; size_t pos; bool rd, wr, app; size_t done; uint64_t life; int fd; };
static std::map<int, OpenFile*>* fds;  // open descriptors: those of streams too
static std::map<FILE*, OpenFile*>* stream_files;
static std::map<FILE*, std::vector<char>>* stream_bufs;

static void file_step() {
  if (!W.file_first) W.file_first = W.steps;
  W.file_last = W.steps;
}

static ssize_t f_read(void* c, char* buf, size_t n) {
  file_step();
  OpenFile* f = (OpenFile*) c;
  const std::string& d = W.disk[f->name];
  size_t left = f->pos < d.size() ? d.size() - f->pos : 0;
  if (n > left) n = left;
  if (W.fault.kind == F_SHORT_READ && n > (size_t) W.fault.a) {
    n = (size_t) W.fault.a ? (size_t) W.fault.a : 1;
    if (!W.fired) note_fired();
  }
  if (W.fault.kind == F_READ_FAIL && !(W.fault.b && W.fired) && f->done + n >= (size_t) W.fault.a) { // once if b is set
    if (f->done >= (size_t) W.fault.a) {
      if (!W.fired) note_fired();
      W.io_fired = true;
      errno = EIO;
      return -1;
    }
    n = (size_t) W.fault.a - f->done;
  }
  memcpy(buf, d.data() + f->pos, n);
  f->pos += n;
  f->done += n;
  return (ssize_t) n;
}

static ssize_t f_write(void* c, const char* buf, size_t n) {
  OpenFile* f = (OpenFile*) c;
  file_step();
  if (f->life != W.life) return (ssize_t) n; // left behind by a killed process
  bool fails = false;
  if (W.fault.kind == F_WRITE_FAIL && !(W.fault.b >= ONCE && W.fired) && f->done + n > (size_t) W.fault.a) {
    if (!W.fired) note_fired();
    W.io_fired = true;
    fails = true; // some of it is written, the rest is refused
    n = f->done < (size_t) W.fault.a ? (size_t) W.fault.a - f->done : 0;
  }
  std::string& d = W.disk[f->name];
  if (f->app) f->pos = d.size();
  if (d.size() < f->pos + n) d.resize(f->pos + n);
  if (n) memcpy(&d[f->pos], buf, n);
  f->pos += n;
  f->done += n;
  if (fails) errno = W.fault.b % ONCE ? (int)(W.fault.b % ONCE) : ENOSPC;
  return (ssize_t) n; // less than asked is an error for a stream
}

static int f_seek(void* c, off64_t* off, int whence) {
  OpenFile* f = (OpenFile*) c;
  long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long) f->pos : (long) W.disk[f->name].size();
  if (base + *off < 0) { errno = EINVAL; return -1; }
  f->pos = (size_t)(base + *off);
  *off = (off64_t) f->pos;
  return 0;
}

static int f_close(void* c) {
  OpenFile* f = (OpenFile*) c;
  bool wrote = f->wr;
  file_step();
  if (f->life == W.life) fds->erase(f->fd);
  delete f;
  W.open_files--;
  if (wrote && W.fault.kind == F_CLOSE_FAIL && !W.fired) {
    note_fired();
    W.io_fired = true;
    errno = EIO;
    return -1;
  }
  return 0;
}

static OpenFile* open_file(const std::string& n, bool rd, bool wr, bool create, bool trunc, bool excl, bool app) {
  W.n_fopen++;
  file_step();
  if (W.fault.kind == F_OPEN_FAIL && !W.fired) {
    note_fired();
    W.io_fired = true;
    errno = W.fault.b ? (int) W.fault.b : EACCES;
    return NULL;
  }
  if (!good_file_name(n)) { errno = ENOENT; return NULL; }
  if (W.open_files >= W.env.max_open) { errno = EMFILE; return NULL; }
  bool there = W.disk.count(n);
  if (!create && !there) { errno = ENOENT; return NULL; }
  if (excl && there) { errno = EEXIST; return NULL; }
  if (trunc) W.disk[n].clear(); else W.disk[n];
  int fd = 3;
  while (fds->count(fd)) fd++;
  OpenFile* f = new OpenFile{ n, 0, rd, wr, app, 0, W.life, fd };
  (*fds)[fd] = f;
  W.open_files++;
  if (W.open_files > W.max_open_seen) W.max_open_seen = W.open_files;
  return f;
}

// The C library ignores the size unless it is given the buffer.
static void set_buffer(FILE* fp, int mode, int size) {
  if (size <= 0) return;
  std::vector<char>& b = (*stream_bufs)[fp];
  b.resize((size_t) size);
  setvbuf(fp, b.data(), mode, (size_t) size);
}

static int close_stream(FILE* fp) {
  std::vector<char> b;
  auto i = stream_bufs->find(fp);
  if (i != stream_bufs->end()) { b.swap(i->second); stream_bufs->erase(i); }
  return fclose(fp);
}

static FILE* make_stream(OpenFile* f, const char* mode) {
  cookie_io_functions_t io = { f_read, f_write, f_seek, f_close };
  char m[8];
  int k = 0;
  for (const char* p = mode; *p && *p != ',' && k < 6; p++) if (strchr("rwa+", *p)) m[k++] = *p;
  m[k] = 0;
  FILE* fp = fopencookie(f, m, io);
  set_buffer(fp, _IOFBF, W.env.filebuf);
  sut_files->insert(fp);
  (*stream_files)[fp] = f;
  return fp;
}

extern "C" FILE* sim_fopen(const char* name, const char* mode) {
  bool plus = strchr(mode, '+') != NULL;
  OpenFile* f = open_file(name, mode[0] == 'r' || plus, mode[0] != 'r' || plus, mode[0] != 'r', mode[0] == 'w', strchr(mode, 'x') != NULL, mode[0] == 'a');
  return f ? make_stream(f, mode) : NULL;
}

extern "C" int sim_open(const char* name, int flags, ...) {
  int acc = flags & O_ACCMODE;
  OpenFile* f = open_file(name, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, (flags & O_CREAT) && (flags & O_EXCL), flags & O_APPEND);
  return f ? f->fd : -1;
}
extern "C" int sim_creat(const char* name, mode_t) { return sim_open(name, O_CREAT | O_WRONLY | O_TRUNC); }
extern "C" int sim_mkstemp(char* name) {
  size_t n = strlen(name);
  if (n < 6 || strcmp(name + n - 6, "XXXXXX") != 0) { errno = EINVAL; return -1; }
  for (int i = 0; i < 1000; i++) {
    snprintf(name + n - 6, 7, "tmp%03d", i);
    if (!W.disk.count(name)) return sim_open(name, O_CREAT | O_EXCL | O_RDWR);
  }
  errno = EEXIST;
  return -1;
}
static OpenFile* by_fd(int fd) {
  auto f = fds->find(fd);
  if (f == fds->end()) { errno = EBADF; return NULL; }
  return f->second;
}
extern "C" FILE* sim_fdopen(int fd, const char* mode) {
  if (fd >= 0 && fd <= 2) return fd == 0 ? sut_in : fd == 1 ? sut_out : sut_err;
  OpenFile* f = by_fd(fd);
  return f ? make_stream(f, mode) : NULL;
}
extern "C" ssize_t sim_read(int fd, void* buf, size_t n) {
  if (fd == 0) return in_read(NULL, (char*) buf, n);
  OpenFile* f = by_fd(fd);
  return f ? f_read(f, (char*) buf, n) : -1;
}
extern "C" ssize_t sim_write(int fd, const void* buf, size_t n) {
  if (fd == 1) return out_write(NULL, (const char*) buf, n);
  if (fd == 2) return err_write(NULL, (const char*) buf, n);
  OpenFile* f = by_fd(fd);
  if (!f) return -1;
  ssize_t k = f_write(f, (const char*) buf, n);
  return k == 0 && n > 0 ? -1 : k;
}
extern "C" int sim_close(int fd) {
  if (fd >= 0 && fd <= 2) return 0;
  OpenFile* f = by_fd(fd);
  return f ? f_close(f) : -1;
}
extern "C" off_t sim_lseek(int fd, off_t off, int whence) {
  OpenFile* f = by_fd(fd);
  if (!f) return -1;
  off64_t o = off;
  return f_seek(f, &o, whence) == 0 ? (off_t) o : -1;
}
extern "C" int sim_ftruncate(int fd, off_t n) {
  OpenFile* f = by_fd(fd);
  if (!f) return -1;
  W.disk[f->name].resize((size_t) n);
  return 0;
}
static int fill_stat(const std::string& name, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = (off_t) W.disk[name].size();
  return 0;
}
extern "C" int sim_fstat(int fd, struct stat* st) {
  if (fd >= 0 && fd <= 2) { memset(st, 0, sizeof *st); st->st_mode = W.env.tty ? S_IFCHR | 0600 : S_IFIFO | 0600; return 0; }
  OpenFile* f = by_fd(fd);
  return f ? fill_stat(f->name, st) : -1;
}
extern "C" int sim_stat(const char* name, struct stat* st) {
  if (!W.disk.count(name)) { errno = ENOENT; return -1; }
  return fill_stat(name, st);
}

extern "C" int sim_fclose(FILE* fp) {
  if (!fp) runner_crash("fclose(NULL)");
  if (fp != sut_in && fp != sut_out && fp != sut_err) {
    if (!sut_files->count(fp)) runner_crash("fclose of a stream that is not open");
    sut_files->erase(fp);
    stream_files->erase(fp);
  }
  return close_stream(fp);
}

extern "C" FILE* sim_freopen(const char* name, const char* mode, FILE* fp) {
  std::string n;
  if (fp && sut_files->count(fp)) {
    if (!name) n = stream_files->count(fp) ? (*stream_files)[fp]->name : "";
    sim_fclose(fp);
  }
  if (name) n = name;
  return n.empty() ? NULL : sim_fopen(n.c_str(), mode);
}
extern "C" FILE* sim_tmpfile() {
  char n[] = "tmpXXXXXX";
  int fd = sim_mkstemp(n);
  if (fd < 0) return NULL;
  W.disk.erase(n);
  (*fds)[fd]->name = std::string("deleted ") + n;
  OpenFile* f = by_fd(fd);
  return make_stream(f, "w+");
}

extern "C" FILE* sim_fopen64(const char* name, const char* mode) { return sim_fopen(name, mode); }

extern "C" int sim_rename(const char* a, const char* b) {
  file_step();
  if ((W.fault.kind == F_OPEN_FAIL || W.fault.kind == F_CLOSE_FAIL) && !W.fired) {
    note_fired();
    W.io_fired = true;
    errno = EACCES;
    return -1;
  }
  if (!W.disk.count(a) || !good_file_name(b)) { errno = ENOENT; return -1; }
  if (strcmp(a, b) == 0) return 0;
  W.disk[b] = W.disk[a];
  W.disk.erase(a);
  return 0;
}
extern "C" int sim_remove(const char* a) {
  file_step();
  if (!W.disk.erase(a)) { errno = ENOENT; return -1; }
  return 0;
}
extern "C" int sim_unlink(const char* a) { return sim_remove(a); }
extern "C" int sim_access(const char* a, int) {
  if (!W.disk.count(a)) { errno = ENOENT; return -1; }
  return 0;
}
extern "C" int sim_fsync(int) { return 0; }
extern "C" int sim_fileno(FILE* f) {
  if (f == sut_in || f == sut_out || f == sut_err) return f == sut_in ? 0 : f == sut_out ? 1 : 2;
  auto i = stream_files->find(f);
  if (i == stream_files->end()) { errno = EBADF; return -1; }
  return i->second->fd;
}
extern "C" int sim_isatty(int fd) { if (fd >= 0 && fd <= 2 && W.env.tty) return 1; errno = ENOTTY; return 0; }

// ---------------------------------------------------------------- clock, random numbers, shell

extern "C" time_t sim_time(time_t* t) { W.n_time++; if (t) *t = W.clock; return W.clock; }
extern "C" int sim_gettimeofday(struct timeval* tv, void*) { W.n_time++; tv->tv_sec = W.clock; tv->tv_usec = 0; return 0; }
extern "C" int sim_clock_gettime(clockid_t, struct timespec* ts) { W.n_time++; ts->tv_sec = W.clock; ts->tv_nsec = 0; return 0; }
extern "C" clock_t sim_clock() { return (clock_t)(W.steps / 100); }
extern "C" int sim_rand() { W.n_rand++; return (int) env_rand(W.cfg, W.rand_seed, W.rand_n++); }
extern "C" void sim_srand(unsigned s) { W.rand_seed = s; W.rand_n = 0; }
extern "C" double sim_drand48() { return sim_rand() / (INT_MAX + 1.0); }
extern "C" void sim_srand48(long s) { W.rand_seed = (unsigned) s; W.rand_n = 0; }
extern "C" ssize_t sim_getrandom(void* p, size_t n, unsigned) {
  for (size_t i = 0; i < n; i++) ((unsigned char*) p)[i] = (unsigned char) mix64(W.cfg.env_seed + ++W.n_rand);
  return (ssize_t) n;
}
extern "C" pid_t sim_getpid() { return (pid_t)(1000 + W.cfg.env_seed % 30000 + W.life); }
extern "C" unsigned sim_sleep(unsigned s) { W.clock += s; return 0; }
extern "C" int sim_usleep(unsigned us) { W.clock += us / 1000000; return 0; }
extern "C" int sim_nanosleep(const struct timespec* t, struct timespec*) { W.clock += t->tv_sec; return 0; }
extern "C" pid_t sim_fork() { errno = EAGAIN; return -1; }
extern "C" long sim_random() { return sim_rand(); }
extern "C" void sim_srandom(unsigned s) { sim_srand(s); }
extern "C" int sim_system(const char* cmd) {
  if (!cmd) return 1;
  W.n_system++;
  W.seen.push_back(T_SYS);
  for (const char* p = cmd; *p; p++) W.seen.push_back((unsigned char) *p);
  W.seen.push_back(T_SYSEND);
  W.clock += W.cfg.sys_delay;
  return env_system_status(W.cfg, W.sys_n++);
}
extern "C" FILE* sim_popen(const char* cmd, const char*) { sim_system(cmd); errno = EAGAIN; return NULL; }

// ---------------------------------------------------------------- memory

static bool fail_alloc() {
  W.allocs++;
  if (W.oom_all) return true;
  if ((W.fault.kind == F_MALLOC_ONCE || W.fault.kind == F_MALLOC_ALL) && !W.fired && W.allocs - W.op_allocs >= (uint64_t) W.fault.a) {
    note_fired();
    if (W.fault.kind == F_MALLOC_ALL) W.oom_all = true;
    return true;
  }
  return false;
}
// Two ways of giving out memory. Either ASAN's, which never gives out a released block again within a run, or, when
// W.env.reuse is set, one that gives out the block released last first, with its old contents, as a real allocator
// does: stale pointers are then aliases of new objects. Bytes not given out are poisoned in both.
static std::map<size_t, std::vector<char*>>* freed_blocks;
static std::map<void*, size_t>* block_class;

static void* get_block(size_t n, bool zero) {
  void* p;
  if (!W.env.reuse) p = zero ? calloc(1, n) : malloc(n);
  else {
    size_t cls = n ? (n + 15) / 16 * 16 : 16;
    auto& v = (*freed_blocks)[cls];
    if (!v.empty()) { p = v.back(); v.pop_back(); }
    else {
      p = malloc(cls);
      if (p) (*block_class)[p] = cls;
    }
    if (p) {
      __asan_unpoison_memory_region(p, cls);
      if (zero) memset(p, 0, n);
      __asan_poison_memory_region((char*) p + n, cls - n);
    }
  }
  if (p) W.live[p] = n;
  return p;
}

static void put_block(void* p) {
  auto c = block_class->find(p);
  if (c == block_class->end()) { W.live.erase(p); free(p); return; }
  if (!W.live.erase(p)) runner_crash("a memory block is released twice");
  __asan_poison_memory_region(p, c->second);
  (*freed_blocks)[c->second].push_back((char*) p);
}

extern "C" void* sim_malloc(size_t n) {
  if (fail_alloc()) { errno = ENOMEM; return NULL; }
  return get_block(n, false);
}
extern "C" void* sim_calloc(size_t a, size_t b) {
  size_t n;
  if (fail_alloc() || __builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  return get_block(n, true);
}
extern "C" void* sim_realloc(void* q, size_t n) {
  if (fail_alloc()) { errno = ENOMEM; return NULL; }
  if (!q) return get_block(n, false);
  if (!block_class->count(q)) {
    W.live.erase(q);
    void* p = realloc(q, n);
    if (p) W.live[p] = n;
    return p;
  }
  if (!W.live.count(q)) runner_crash("a released memory block is reallocated");
  size_t had = W.live[q];
  void* p = get_block(n, false);
  if (!p) return NULL;
  memcpy(p, q, std::min(had, n));
  put_block(q);
  return p;
}
extern "C" void sim_free(void* p) { if (p) put_block(p); }
extern "C" void* sim_reallocarray(void* q, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  return sim_realloc(q, n);
}
extern "C" char* sim_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*) sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}

extern "C" char* sim_strdup2(const char* s) { return sim_strdup(s); }
extern "C" char* sim_strndup(const char* s, size_t n) {
  size_t k = strnlen(s, n);
  char* p = (char*) sim_malloc(k + 1);
  if (p) { memcpy(p, s, k); p[k] = 0; }
  return p;
}
extern "C" int sim_vasprintf(char** to, const char* fmt, va_list ap) {
  va_list a2;
  va_copy(a2, ap);
  int n = vsnprintf(NULL, 0, fmt, a2);
  va_end(a2);
  if (n < 0) return n;
  char* p = (char*) sim_malloc((size_t) n + 1);
  if (!p) return -1;
  *to = p;
  return vsnprintf(p, (size_t) n + 1, fmt, ap);
}
extern "C" int sim_asprintf(char** to, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int n = sim_vasprintf(to, fmt, ap);
  va_end(ap);
  return n;
}
extern "C" ssize_t sim_getdelim(char** line, size_t* size, int delim, FILE* fp) {
  size_t k = 0;
  int c;
  if (!*line) *size = 0;
  while ((c = getc(fp)) != EOF) {
    if (k + 2 > *size) {
      size_t n = *size ? 2 * *size : 120;
      char* p = (char*) sim_realloc(*line, n);
      if (!p) return -1;
      *line = p; *size = n;
    }
    (*line)[k++] = (char) c;
    if (c == delim) break;
  }
  if (k == 0) return -1;
  (*line)[k] = 0;
  return (ssize_t) k;
}
extern "C" ssize_t sim_getline(char** line, size_t* size, FILE* fp) { return sim_getdelim(line, size, '\n', fp); }

// ---------------------------------------------------------------- other names of the same entries

asm(".globl sim_pthread_sigmask\n.set sim_pthread_sigmask, sim_sigprocmask\n");
asm(".globl sim_fdatasync\n.set sim_fdatasync, sim_fsync\n");
asm(".globl sim_open64\n.set sim_open64, sim_open\n");
asm(".globl sim_lseek64\n.set sim_lseek64, sim_lseek\n");
asm(".globl sim_ftruncate64\n.set sim_ftruncate64, sim_ftruncate\n");
asm(".globl sim_freopen64\n.set sim_freopen64, sim_freopen\n");
asm(".globl sim_tmpfile64\n.set sim_tmpfile64, sim_tmpfile\n");
asm(".globl sim_stat64\n.set sim_stat64, sim_stat\n");
asm(".globl sim_lstat\n.set sim_lstat, sim_stat\n");
asm(".globl sim_fstat64\n.set sim_fstat64, sim_fstat\n");
asm(".globl sim_vfork\n.set sim_vfork, sim_fork\n");
asm(".globl sim_strndup_\n.set sim_strndup_, sim_strndup\n");
asm(".globl sim_getdelim_\n.set sim_getdelim_, sim_getdelim\n");

// ---------------------------------------------------------------- lives

extern char __start_sut_data[], __stop_sut_data[], __start_sut_bss[], __stop_sut_bss[];
static char *save_data, *save_bss;

__attribute__((optimize("no-tree-loop-distribute-patterns")))
static void copy_bytes(volatile char* to, const volatile char* from, size_t n) { for (size_t i = 0; i < n; i++) to[i] = from[i]; }

void world_init() {
  size_t nd = (size_t)(__stop_sut_data - __start_sut_data), nb = (size_t)(__stop_sut_bss - __start_sut_bss);
  save_data = new char[nd + 1];
  save_bss = new char[nb + 1];
  copy_bytes(save_data, __start_sut_data, nd);
  copy_bytes(save_bss, __start_sut_bss, nb);
}

extern "C" int sut_main(int argc, char** argv);

LifeEnd run_life(const std::vector<std::string>& args) {
  copy_bytes(__start_sut_data, save_data, (size_t)(__stop_sut_data - __start_sut_data));
  copy_bytes(__start_sut_bss, save_bss, (size_t)(__stop_sut_bss - __start_sut_bss));
  sut_files = new std::set<FILE*>;
  fds = new std::map<int, OpenFile*>;
  stream_files = new std::map<FILE*, OpenFile*>;
  stream_bufs = new std::map<FILE*, std::vector<char>>;
  freed_blocks = new std::map<size_t, std::vector<char*>>;
  block_class = new std::map<void*, size_t>;
  W.life++;
  W.live.clear();
  W.open_files = 0;
  W.rand_seed = 1; W.rand_n = 0; W.sys_n = 0;
  W.trapped = false; W.restart = true; W.oom_all = false; W.untrap_step = 0;
  W.seen.clear(); W.seen_err.clear();
  handler = SIG_DFL;
  one_shot = blocked = pending = false;
  n_at_exit = 0;
  setenv("TZ", W.env.tz.c_str(), 1);
  tzset();

  FILE *save_in = stdin, *save_out = stdout, *save_err = stderr;
  cookie_io_functions_t io = { in_read, NULL, NULL, NULL };
  sut_in = fopencookie(NULL, "r", io);
  set_buffer(sut_in, W.env.tty ? _IOLBF : _IOFBF, W.env.inbuf);
  io = { NULL, out_write, NULL, NULL };
  sut_out = fopencookie(NULL, "w", io);
  set_buffer(sut_out, W.env.tty ? _IOLBF : _IOFBF, W.env.outbuf);
  io = { NULL, err_write, NULL, NULL };
  sut_err = fopencookie(NULL, "w", io);
  setvbuf(sut_err, NULL, _IONBF, 0);

  static std::vector<std::string> argbuf;
  static std::vector<char*> argv;
  argbuf = args;
  argv.clear();
  for (auto& a : argbuf) argv.push_back(&a[0]);
  argv.push_back(NULL);

  stdin = sut_in; stdout = sut_out; stderr = sut_err;
  in_life = true;
  end_how = HOW_EXIT; end_status = 0;
  if (setjmp(life_end) == 0) {
    end_status = sut_main((int) argbuf.size(), argv.data()) & 255;
    end_how = HOW_EXIT;
    run_at_exit();
    flush_files();
  }
  in_life = false;
  stdin = save_in; stdout = save_out; stderr = save_err;
  // streams of a killed life keep what they had buffered: it is lost with the process (never flushed here)
  if (end_how == HOW_EXIT) {
    for (auto f : *sut_files) close_stream(f);
    fclose(sut_in); fclose(sut_out); fclose(sut_err);
    delete stream_bufs; // otherwise the streams are still there, unused
  }
  for (auto i = W.disk.begin(); i != W.disk.end(); ) if (i->first.compare(0, 8, "deleted ") == 0) i = W.disk.erase(i); else ++i;
  // the descriptors go with the process; what a killed life left open stays behind unseen
  delete sut_files; delete fds; delete stream_files; delete freed_blocks; delete block_class;
  fds = new std::map<int, OpenFile*>;
  LifeEnd e = { (EndHow) end_how, end_status };
  return e;
}
