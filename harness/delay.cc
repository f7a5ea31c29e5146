#include "delay.h"

#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <sstream>

#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <sys/uio.h>
#include <unistd.h>

namespace {
std::atomic<bool> gArmed{false};
std::atomic<uint64_t> gOps{0}, gThreads{0};
delay::Plan gPlan;
pthread_t gMain;
thread_local uint64_t tState = 0;
thread_local bool tBusy = false;

uint64_t rnd() {
  if (tState == 0) tState = (gPlan.seed + 1) * 0x9E3779B97F4A7C15ull + 0xABCDEFull * ++gThreads;
  tState += 0x9E3779B97F4A7C15ull;
  uint64_t x = tState;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

void perturb() {
  if (!gArmed.load(std::memory_order_relaxed) || tBusy) return;
  tBusy = true;
  const unsigned p = pthread_equal(pthread_self(), gMain) ? gPlan.mainPerMille : gPlan.perMille;
  if (rnd() % 1000 < p) {
    gOps.fetch_add(1, std::memory_order_relaxed);
    const uint64_t kind = rnd() % 4;
    if (kind == 0)
      sched_yield();
    else
      usleep(useconds_t(1 + rnd() % (kind == 1 ? 1 + gPlan.maxMicros / 20 : 1 + gPlan.maxMicros)));
  }
  tBusy = false;
}

std::atomic<int64_t> gKillWrites{-1};
size_t gKillBytes = 0;
// Is this a file of a Dysco manager? (table.f0 is that of the other columns)
bool isDyscoFile(int fd) {
  char link[64], path[4096];
  snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
  const ssize_t n = readlink(link, path, sizeof(path) - 1);
  if (n <= 0) return false;
  path[n] = 0;
  const char *p = strrchr(path, '/');
  return p && strncmp(p, "/table.f", 8) == 0 && p[8] >= '1' && p[8] <= '9' && (p[9] == 0 || p[10] == 0);
}
// number of bytes to write before the process is killed, or -1
ssize_t killed(int fd) {
  if (gKillWrites.load() < 0 || !isDyscoFile(fd)) return -1;
  return gKillWrites.fetch_sub(1) == 0 ? ssize_t(gKillBytes) : -1;
}

template <typename F>
F real(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(type, name)                                        \
  static std::atomic<type> cached{nullptr};                     \
  type f = cached.load(std::memory_order_relaxed);              \
  if (!f) {                                                     \
    f = real<type>(name);                                       \
    cached.store(f, std::memory_order_relaxed);                 \
  }
}  // namespace

namespace delay {
std::string Plan::text() const {
  std::ostringstream s;
  s << "delays " << perMille << "/" << mainPerMille << " per mille up to " << maxMicros << " us, spurious " << spurious
    << ", slow write " << slowWrite << ", processors " << processors;
  return s.str();
}
bool available() { return true; }
void arm(const Plan &p) {
  gPlan = p;
  gMain = pthread_self();
  gOps = 0;
  gThreads = 0;
  tState = 0;
  gArmed = true;
}
void disarm() { gArmed = false; }
uint64_t operations() { return gOps; }
void killAt(uint64_t writes, size_t bytes) {
  gKillBytes = bytes;
  gKillWrites = int64_t(writes);
}
}  // namespace delay

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  using F = int (*)(pthread_mutex_t *);
  REAL(F, "pthread_mutex_lock")
  perturb();
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  using F = int (*)(pthread_mutex_t *);
  REAL(F, "pthread_mutex_unlock")
  const int r = f(m);
  perturb();
  return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  using F = int (*)(pthread_cond_t *, pthread_mutex_t *);
  REAL(F, "pthread_cond_wait")
  if (gArmed.load(std::memory_order_relaxed) && !tBusy && gPlan.spurious && rnd() % 1000 < gPlan.spurious) {
    // a spurious wake up, which the standard allows
    pthread_mutex_unlock(m);
    sched_yield();
    pthread_mutex_lock(m);
    return 0;
  }
  const int r = f(c, m);
  return r;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  using F = int (*)(pthread_cond_t *);
  REAL(F, "pthread_cond_broadcast")
  perturb();
  const int r = f(c);
  perturb();
  return r;
}
int pthread_cond_signal(pthread_cond_t *c) {
  using F = int (*)(pthread_cond_t *);
  REAL(F, "pthread_cond_signal")
  perturb();
  const int r = f(c);
  perturb();
  return r;
}
long sysconf(int name) {
  using F = long (*)(int);
  REAL(F, "sysconf")
  if (name == _SC_NPROCESSORS_ONLN && gArmed && gPlan.processors) return long(gPlan.processors);
  return f(name);
}
ssize_t write(int fd, const void *b, size_t n) {
  using F = ssize_t (*)(int, const void *, size_t);
  REAL(F, "write")
  perturb();
  if (gArmed && gPlan.slowWrite && !tBusy && !pthread_equal(pthread_self(), gMain)) usleep(gPlan.slowWrite);
  const ssize_t k = killed(fd);
  if (k >= 0) {
    if (k) f(fd, b, std::min(n, size_t(k)));
    kill(getpid(), SIGKILL);
  }
  const ssize_t r = f(fd, b, n);
  perturb();
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  using F = ssize_t (*)(int, const struct iovec *, int);
  REAL(F, "writev")
  perturb();
  if (gArmed && gPlan.slowWrite && !tBusy && !pthread_equal(pthread_self(), gMain)) usleep(gPlan.slowWrite);
  ssize_t k = killed(fd);
  if (k >= 0) {
    for (int i = 0; i < n && k > 0; ++i) {
      const size_t part = std::min(v[i].iov_len, size_t(k));
      const struct iovec one = {v[i].iov_base, part};
      f(fd, &one, 1);
      k -= ssize_t(part);
    }
    kill(getpid(), SIGKILL);
  }
  const ssize_t r = f(fd, v, n);
  perturb();
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  using F = ssize_t (*)(int, void *, size_t);
  REAL(F, "read")
  perturb();
  const ssize_t r = f(fd, b, n);
  perturb();
  return r;
}
off_t lseek64(int fd, off_t o, int w) {
  using F = off_t (*)(int, off_t, int);
  REAL(F, "lseek64")
  perturb();
  const off_t r = f(fd, o, w);
  perturb();
  return r;
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
}
