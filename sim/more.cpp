// Calls the library does not make today. They reach the simulator only through build.py's renaming of the library's own
// references, so that neither they nor anything on its list of unsimulated calls ever has an effect outside the simulation.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <mutex>
#include <string>
#include <system_error>
#include <vector>

#include "sim.h"

extern "C" {
int __wrap_link(const char*, const char*);
int __wrap_rename(const char*, const char*);
int __wrap_mkdir(const char*, mode_t);
int __wrap_open(const char*, int, ...);
int __wrap_close(int);
int __wrap_access(const char*, int);
int __wrap_ftruncate(int, off_t);
int __wrap_clock_gettime(clockid_t, struct timespec*);
int __wrap_sched_yield(void);
ssize_t __wrap_getrandom(void*, size_t, unsigned);
int __wrap_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_join(pthread_t, void**);
int __wrap_pthread_detach(pthread_t);
int __wrap_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __wrap_pthread_cond_signal(pthread_cond_t*);
int __wrap_pthread_cond_broadcast(pthread_cond_t*);

int __wrap_fsync(int);
ssize_t __wrap_read(int, void*, size_t);
ssize_t __wrap_write(int, const void*, size_t);
int __wrap_poll(struct pollfd*, nfds_t, int);
int __wrap_pthread_mutex_trylock(pthread_mutex_t*);
DIR* __wrap_opendir(const char*);
struct dirent* __wrap_readdir(DIR*);
int __wrap_closedir(DIR*);
int __wrap_stat(const char*, struct stat*);
int __wrap_lstat(const char*, struct stat*);

int __sim_fdatasync(int fd) { return __wrap_fsync(fd); }
// Signals exist in the simulation as interruptions of calls only.
int __sim_pthread_sigmask(int, const sigset_t*, sigset_t* old) {
  if (old) sigemptyset(old);
  return 0;
}
int __sim_sigprocmask(int, const sigset_t*, sigset_t* old) { return __sim_pthread_sigmask(0, nullptr, old); }
int __sim_ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) {
  return __wrap_poll(p, n, !ts ? -1 : (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000));
}
ssize_t __sim_readv(int fd, const struct iovec* v, int n) {
  ssize_t all = 0;
  for (int i = 0; i < n; i++) {
    ssize_t r = __wrap_read(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return all ? all : r;
    all += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return all;
}
ssize_t __sim_writev(int fd, const struct iovec* v, int n) {
  ssize_t all = 0;
  for (int i = 0; i < n; i++) {
    ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return all ? all : r;
    all += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return all;
}
// The memory is the caller's to free, so it comes from the simulated heap.
void* __wrap_malloc(size_t);
void* __wrap_realloc(void*, size_t);
void __wrap_free(void*);
char* __wrap_strdup(const char*);
int __sim_scandir(const char* path, struct dirent*** out, int (*sel)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) {
  DIR* d = __wrap_opendir(path);
  if (!d) return -1;
  struct dirent** v = nullptr;
  int n = 0;
  while (struct dirent* e = __wrap_readdir(d)) {
    if (sel && !sel(e)) continue;
    v = (struct dirent**)__wrap_realloc(v, (n + 1) * sizeof *v);
    v[n] = (struct dirent*)__wrap_malloc(sizeof(struct dirent));
    *v[n++] = *e;
  }
  __wrap_closedir(d);
  if (cmp) qsort(v, n, sizeof *v, (int (*)(const void*, const void*))cmp);
  *out = v;
  return n;
}
static int walk(const std::string& p, int (*fn)(const char*, const struct stat*, int, struct FTW*), int flags, int level) {
  struct stat st;
  struct FTW w = {(int)p.rfind('/') + 1, level};
  if ((flags & FTW_PHYS ? __wrap_lstat : __wrap_stat)(p.c_str(), &st)) return level ? fn(p.c_str(), &st, FTW_NS, &w) : -1;
  if (!S_ISDIR(st.st_mode)) return fn(p.c_str(), &st, S_ISLNK(st.st_mode) ? FTW_SL : FTW_F, &w);
  int r = 0;
  if (!(flags & FTW_DEPTH) && (r = fn(p.c_str(), &st, FTW_D, &w))) return r;
  DIR* d = __wrap_opendir(p.c_str());
  if (!d) return fn(p.c_str(), &st, FTW_DNR, &w);
  std::vector<std::string> names;
  while (struct dirent* e = __wrap_readdir(d))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
  __wrap_closedir(d);
  for (auto& n : names)
    if ((r = walk(p + "/" + n, fn, flags, level + 1))) return r;
  return flags & FTW_DEPTH ? fn(p.c_str(), &st, FTW_DP, &w) : 0;
}
int __sim_nftw(const char* p, int (*fn)(const char*, const struct stat*, int, struct FTW*), int, int flags) { return walk(p, fn, flags, 0); }
int __sim_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
  for (;;) {
    int e = __wrap_pthread_mutex_trylock(m);
    if (e != EBUSY) return e;
    struct timespec now;
    __wrap_clock_gettime(id, &now);
    if (now.tv_sec > ts->tv_sec || (now.tv_sec == ts->tv_sec && now.tv_nsec >= ts->tv_nsec)) return ETIMEDOUT;
    __wrap_sched_yield();
  }
}
int __sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return __sim_pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
int __sim_truncate(const char* p, off_t n) {
  int fd = __wrap_open(p, O_RDWR);
  if (fd < 0) return -1;
  int r = __wrap_ftruncate(fd, n), e = errno;
  __wrap_close(fd);
  errno = e;
  return r;
}
int __sim_symlink(const char* target, const char* p) {
  if (sim::vfs_symlink(target, p)) return 0;
  errno = EEXIST;
  return -1;
}
int __sim_symlinkat(const char* target, int, const char* p) { return __sim_symlink(target, p); }
int __sim_getentropy(void* p, size_t n) { return __wrap_getrandom(p, n, 0) == (ssize_t)n ? 0 : -1; }
unsigned __sim_arc4random() {
  unsigned v = 0;
  while (__wrap_getrandom(&v, sizeof v, 0) != sizeof v) {
  }
  return v;
}
void __sim_arc4random_buf(void* p, size_t n) {
  while (__wrap_getrandom(p, n, 0) != (ssize_t)n) {
  }
}

// Spin locks and read-write locks.
int __sim_pthread_spin_init(pthread_spinlock_t* s, int) {
  *(volatile int*)s = 0;
  return 0;
}
int __sim_pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int __sim_pthread_spin_trylock(pthread_spinlock_t* s) {
  __wrap_sched_yield();
  if (*(volatile int*)s) return EBUSY;
  *(volatile int*)s = 1;
  return 0;
}
int __sim_pthread_spin_lock(pthread_spinlock_t* s) {
  while (__sim_pthread_spin_trylock(s)) {
  }
  return 0;
}
int __sim_pthread_spin_unlock(pthread_spinlock_t* s) {
  __wrap_sched_yield();
  *(volatile int*)s = 0;
  return 0;
}
struct Rw {
  char mutex[44];
  char cond[4];
  int readers, writer;
};
static_assert(sizeof(Rw) <= sizeof(pthread_rwlock_t), "room");
static int rw_lock(pthread_rwlock_t* l, bool write, bool wait) {
  Rw* r = (Rw*)l;
  __wrap_pthread_mutex_lock((pthread_mutex_t*)r->mutex);
  int e = 0;
  while (r->writer || (write && r->readers)) {
    if (!wait) {
      e = EBUSY;
      break;
    }
    __wrap_pthread_cond_wait((pthread_cond_t*)r->cond, (pthread_mutex_t*)r->mutex);
  }
  if (!e) (write ? r->writer : r->readers)++;
  __wrap_pthread_mutex_unlock((pthread_mutex_t*)r->mutex);
  return e;
}
int __sim_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
  memset(l, 0, sizeof *l);
  return 0;
}
int __sim_pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int __sim_pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true); }
int __sim_pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true); }
int __sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false); }
int __sim_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false); }
int __sim_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  Rw* r = (Rw*)l;
  __wrap_pthread_mutex_lock((pthread_mutex_t*)r->mutex);
  if (r->writer)
    r->writer = 0;
  else
    r->readers--;
  __wrap_pthread_mutex_unlock((pthread_mutex_t*)r->mutex);
  __wrap_pthread_cond_broadcast((pthread_cond_t*)r->cond);
  return 0;
}

// The parts of the C++ library that are not templates.
static int64_t now(clockid_t id) {
  struct timespec ts;
  __wrap_clock_gettime(id, &ts);
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
int64_t __sim__ZNSt6chrono3_V212steady_clock3nowEv() { return now(CLOCK_MONOTONIC); }
int64_t __sim__ZNSt6chrono3_V212system_clock3nowEv() { return now(CLOCK_REALTIME); }
void __sim__ZNSt18condition_variableC1Ev(void* c) { memset(c, 0, sizeof(pthread_cond_t)); }
void __sim__ZNSt18condition_variableD1Ev(void*) {}
void __sim__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>* l) {
  __wrap_pthread_cond_wait((pthread_cond_t*)c, l->mutex()->native_handle());
}
void __sim__ZNSt18condition_variable10notify_oneEv(void* c) { __wrap_pthread_cond_signal((pthread_cond_t*)c); }
void __sim__ZNSt18condition_variable10notify_allEv(void* c) { __wrap_pthread_cond_broadcast((pthread_cond_t*)c); }
struct ThreadState {
  virtual ~ThreadState();
  virtual void run() = 0;
};
static void* thread_main(void* a) {
  ThreadState* s = (ThreadState*)a;
  s->run();
  delete s;
  return nullptr;
}
void __sim__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(pthread_t* self, ThreadState** state, void (*)()) {
  ThreadState* s = *state;
  *state = nullptr;
  int e = __wrap_pthread_create(self, nullptr, thread_main, s);
  if (e) {
    delete s;
    std::__throw_system_error(e);
  }
}
void __sim__ZNSt6thread4joinEv(pthread_t* self) {
  __wrap_pthread_join(*self, nullptr);
  *self = 0;
}
void __sim__ZNSt6thread6detachEv(pthread_t* self) {
  __wrap_pthread_detach(*self);
  *self = 0;
}
void __sim__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
void __sim__ZNSt13random_device7_M_finiEv(void*) {}
unsigned __sim__ZNSt13random_device9_M_getvalEv(void*) { return __sim_arc4random(); }
}
