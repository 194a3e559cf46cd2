// compiled without sanitizers, see sched.hpp
#include "sched.hpp"
#include "mc.hpp"

#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" __attribute__((weak)) int __asan_address_is_poisoned(void const volatile *);
extern "C" __attribute__((weak)) void __tsan_acquire(void *);
extern "C" __attribute__((weak)) void __tsan_release(void *);

namespace
{
enum class wait_t {none, start, mutex, cond, join, epoll, all_done, finished};
struct rec
{
  int id;
  std::atomic<int> turn{0};
  pthread_t real{};
  wait_t wait = wait_t::none;
  pthread_mutex_t * m = nullptr;
  pthread_cond_t * c = nullptr;
  bool signalled = false, timed = false;
  int fd = -1;
  rec * target = nullptr;
  void * (*fn)(void *) = nullptr;
  void * arg = nullptr;
};
constexpr int max_threads = 16;
rec recs[max_threads];
int n_recs = 0;
bool active = false;
thread_local rec * self = nullptr;
pthread_key_t key;
bool key_made = false;
unsigned long seq = 0;
unsigned long cond_order[max_threads];

template<typename F>
F real(F, const char * name)
{
  auto p = dlsym(RTLD_NEXT, name);
  if (!p)
  {
    std::fprintf(stderr, "mc: no %s\n", name);
    _exit(99);
  }
  return reinterpret_cast<F>(p);
}
#define REAL(Name) (([]{static auto p = real(&Name, #Name); return p;})())

void futex_wait(std::atomic<int> & a, int v) {syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);}
void futex_wake(std::atomic<int> & a) {syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);}

[[noreturn]] void dead(const char * what)
{
  std::fprintf(stderr, "mc: %s\n", what);
  std::abort();
}

void access(pthread_mutex_t * m)
{
  if (&__asan_address_is_poisoned && __asan_address_is_poisoned(m))
    dead("use of a mutex that was destroyed");
}
bool ours(pthread_mutex_t * m)
{
  return active && self && m->__data.__kind == 0;
}

bool enabled(rec & r)
{
  switch (r.wait)
  {
    case wait_t::none: case wait_t::start: return true;
    case wait_t::mutex: access(r.m); return r.m->__data.__lock == 0;
    case wait_t::cond: return r.signalled && r.m->__data.__lock == 0;
    case wait_t::join: return r.target->wait == wait_t::finished;
    case wait_t::epoll:
    {
      pollfd p{r.fd, POLLIN, 0};
      return ::poll(&p, 1, 0) > 0;
    }
    case wait_t::all_done:
      for (int i = 0; i < n_recs; i++)
        if (&recs[i] != &r && recs[i].wait != wait_t::finished)
          return false;
      return true;
    case wait_t::finished: return false;
  }
  return false;
}

const char * describe(rec & r)
{
  switch (r.wait)
  {
    case wait_t::none: return "running";
    case wait_t::start: return "starting";
    case wait_t::mutex: return "waiting for a mutex";
    case wait_t::cond: return "idle";
    case wait_t::join: return "joining";
    case wait_t::epoll: return "idle in epoll";
    case wait_t::all_done: return "waiting for the other threads to end";
    case wait_t::finished: return "finished";
  }
  return "";
}

// decides who goes on. Called by the running thread, its state says what it waits for.
void schedule(const char * what)
{
  rec * me = self;
  rec * en[max_threads];
  int n = 0;
  bool cur = me->wait != wait_t::finished && enabled(*me);
  if (cur)
    en[n++] = me;
  for (int i = 0; i < n_recs; i++)
    if (&recs[i] != me && recs[i].wait != wait_t::finished && enabled(recs[i]))
      en[n++] = &recs[i];
  if (n == 0)
  {
    mc::quiet q;
    std::string s = "deadlock:";
    for (int i = 0; i < n_recs; i++)
      s += std::string(" thread ") + std::to_string(i) + " is " + describe(recs[i]) + ",";
    s.pop_back();
    dead(s.c_str());
  }
  int k = 0;
  if (n > 1)
    k = cur ? mc::dev(n, what) : mc::choose(n, what);
  mc::step();
  rec * next = en[k];
  if (next == me)
    return;
  if (mc::logging())
    mc::note("thread %d -> %d at %s", me->id, next->id, what);
  bool fin = me->wait == wait_t::finished;
  me->turn.store(0);
  next->turn.store(1);
  futex_wake(next->turn);
  if (fin)
    return;
  while (me->turn.load() == 0)
    futex_wait(me->turn, 0);
}

void finished(void * p)
{
  auto r = static_cast<rec*>(p);
  // what the scenario does after sched::end() happens after everything
  if (&__tsan_release)
    __tsan_release(&recs[0]);
  r->wait = wait_t::finished;
  schedule("the end of a thread");
  self = nullptr;
}

void * trampoline(void * p)
{
  auto r = static_cast<rec*>(p);
  self = r;
  pthread_setspecific(key, r);
  while (r->turn.load() == 0)
    futex_wait(r->turn, 0);
  r->wait = wait_t::none;
  return r->fn(r->arg);
}
}

namespace sched
{
void begin()
{
  if (!key_made)
  {
    pthread_key_create(&key, &finished);
    key_made = true;
  }
  n_recs = 1;
  recs[0].id = 0;
  recs[0].turn = 1;
  recs[0].wait = wait_t::none;
  self = &recs[0];
  active = true;
}
void end()
{
  self->wait = wait_t::all_done;
  schedule("the end");
  if (&__tsan_acquire)
    __tsan_acquire(&recs[0]);
  self->wait = wait_t::none;
  active = false;
  self = nullptr;
  n_recs = 0;
}
void point(const char * what)
{
  if (active && self)
    schedule(what);
}
int threads()
{
  int n = 0;
  for (int i = 0; i < n_recs; i++)
    if (recs[i].wait != wait_t::finished)
      n++;
  return n;
}
}

extern "C"
{
int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*fn)(void *), void * arg)
{
  if (!active || !self)
    return REAL(pthread_create)(t, a, fn, arg);
  if (n_recs >= max_threads)
    dead("too many threads");
  rec & r = recs[n_recs];
  r.id = n_recs;
  r.turn = 0;
  r.wait = wait_t::start;
  r.fn = fn;
  r.arg = arg;
  int res = REAL(pthread_create)(t, a, &trampoline, &r);
  if (res != 0)
    return res;
  r.real = *t;
  n_recs++;
  schedule("pthread_create");
  return 0;
}

int pthread_join(pthread_t t, void ** res)
{
  if (active && self)
    for (int i = 0; i < n_recs; i++)
      if (pthread_equal(recs[i].real, t) && i > 0)
      {
        self->wait = wait_t::join;
        self->target = &recs[i];
        schedule("pthread_join");
        self->wait = wait_t::none;
        recs[i].real = {};
        break;
      }
  return REAL(pthread_join)(t, res);
}

int pthread_detach(pthread_t t)
{
  if (active && self)
    for (int i = 1; i < n_recs; i++)
      if (pthread_equal(recs[i].real, t))
        recs[i].real = {};
  return REAL(pthread_detach)(t);
}

int pthread_mutex_lock(pthread_mutex_t * m)
{
  if (!ours(m))
    return REAL(pthread_mutex_lock)(m);
  self->wait = wait_t::mutex;
  self->m = m;
  schedule("lock");
  self->wait = wait_t::none;
  access(m);
  return REAL(pthread_mutex_lock)(m);
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  if (ours(m))
    schedule("trylock");
  return REAL(pthread_mutex_trylock)(m);
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  if (!ours(m))
    return REAL(pthread_mutex_unlock)(m);
  access(m);
  int r = REAL(pthread_mutex_unlock)(m);
  // what follows up to the next operation doesn't depend on the lock, but e.g. on objects that are destroyed by now.
  schedule("unlock");
  return r;
}

static int cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  self->wait = wait_t::cond;
  self->c = c;
  self->m = m;
  self->signalled = false;
  cond_order[self->id] = ++seq;
  REAL(pthread_mutex_unlock)(m);
  schedule("waiting for a condition");
  self->wait = wait_t::none;
  self->c = nullptr;
  return REAL(pthread_mutex_lock)(m);
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  if (!ours(m))
    return REAL(pthread_cond_wait)(c, m);
  return cond_wait(c, m);
}
int pthread_cond_signal(pthread_cond_t * c)
{
  if (!active || !self)
    return REAL(pthread_cond_signal)(c);
  rec * first = nullptr;
  for (int i = 0; i < n_recs; i++)
    if (recs[i].wait == wait_t::cond && recs[i].c == c && !recs[i].signalled && (!first || cond_order[i] < cond_order[first->id]))
      first = &recs[i];
  if (first)
    first->signalled = true;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
  if (!active || !self)
    return REAL(pthread_cond_broadcast)(c);
  for (int i = 0; i < n_recs; i++)
    if (recs[i].wait == wait_t::cond && recs[i].c == c)
      recs[i].signalled = true;
  return 0;
}

int epoll_wait(int fd, epoll_event * ev, int n, int timeout)
{
  if (!active || !self)
    return REAL(epoll_wait)(fd, ev, n, timeout);
  if (timeout != 0)
  {
    self->wait = wait_t::epoll;
    self->fd = fd;
    schedule("epoll_wait");
    self->wait = wait_t::none;
  }
  else
    schedule("poll");
  return REAL(epoll_wait)(fd, ev, n, 0);
}
}
