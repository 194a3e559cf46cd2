// steady_timer, system_timer & sleep under a virtual clock
#include "cob.hpp"
#include <boost/cobalt/io/steady_timer.hpp>
#include <boost/cobalt/io/system_timer.hpp>
#include <boost/cobalt/io/sleep.hpp>

#include <cerrno>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

using namespace cob;
namespace io = cobalt::io;
using namespace std::chrono_literals;

// ------------------------------------------------------------------ the clock
namespace
{
bool active = false;
using tick = std::chrono::nanoseconds;
tick steady_now{}, system_now{};
}
extern "C" int clock_gettime(clockid_t id, timespec * ts) noexcept
{
  if (active && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME))
  {
    auto n = (id == CLOCK_MONOTONIC ? steady_now : system_now).count();
    ts->tv_sec = n / 1'000'000'000;
    ts->tv_nsec = n % 1'000'000'000;
    return 0;
  }
  return ::syscall(SYS_clock_gettime, id, ts);
}
// the reactor asks the clock instead
extern "C" int timerfd_create(int, int) noexcept
{
  errno = ENOSYS;
  return -1;
}

namespace
{
using ct_t = asio::cancellation_type;

template<typename F, typename Op = std::invoke_result_t<F>>
struct watched
{
  bool & suspended;
  int & depth;
  Op op;
  decltype(std::declval<Op&>().operator co_await()) a{op.operator co_await()};
  watched(bool & s, int & d, F f) : suspended(s), depth(d), op(f()) {}
  watched(const watched &) = delete;
  bool await_ready() {return a.await_ready();}
  template<typename P>
  auto await_suspend(std::coroutine_handle<P> h)
  {
    auto & d = depth;
    suspended = true;
    d++;
    auto r = a.await_suspend(h);
    d--;
    return r;
  }
  error_code await_resume()
  {
    MC_CHECK(depth == 0, "completed from within the initiation");
    return std::get<0>(a.await_resume(cobalt::as_tuple_tag{}));
  }
};

template<typename Clock> struct timer_of;
template<> struct timer_of<std::chrono::steady_clock> {using type = io::steady_timer; static tick & now() {return steady_now;}};
template<> struct timer_of<std::chrono::system_clock> {using type = io::system_timer; static tick & now() {return system_now;}};

constexpr tick never = tick::max();

struct waiter
{
  proc_state ps;
  int timer = -1;                // -1: sleep
  tick due{};
  bool suspended = false, pending = false, done = false, may_abort = false, must_abort = false;
  int depth = 0, resumed = 0;
  error_code ec;
  waiter(world & w) : ps(w) {}
};

template<typename Clock>
struct fixture
{
  using timer_t = typename timer_of<Clock>::type;
  using duration = typename Clock::duration;
  using time_point = typename Clock::time_point;
  std::deque<waiter> ws;
  int frames = 0;
  world w;
  std::optional<timer_t> timers[2];
  tick expiry[2] = {};
  int order = 0;
  std::vector<int> completed;    // since the last look
  std::string trail;
  tick & now = timer_of<Clock>::now();
  bool dirty = false;            // the clock was advanced, but the event loop has not run yet

  time_point at(tick t) {return time_point(duration(t));}

  proc wait(proc_state &, life_guard, waiter & me, int idx)
  {
    me.ec = co_await watched(me.suspended, me.depth, [&] {return timers[me.timer]->wait();});
    finish(me, idx);
  }
  template<typename Arg>
  proc sleep(proc_state &, life_guard, waiter & me, int idx, Arg a)
  {
    me.ec = co_await watched(me.suspended, me.depth, [&] {return io::sleep(a);});
    finish(me, idx);
  }
  void finish(waiter & me, int idx)
  {
    me.resumed++;
    me.done = true;
    MC_CHECK(me.resumed == 1, "resumed twice");
    mc::quiet q;
    completed.push_back(idx);
  }

  // a waiter was started
  void started(waiter & me)
  {
    if (me.done)
    {
      MC_CHECK(!me.suspended || me.due <= now, "a wait until later completed at once");
      MC_CHECK(me.due <= now, "completed %lld ns too early", (long long)(me.due - now).count());
      MC_CHECK(!me.ec, "a wait that completes at once failed");
      mc::quiet q;
      completed.clear();
    }
    else
    {
      MC_CHECK(me.suspended, "not suspended");
      MC_CHECK(!(me.due < now), "the timer is expired already, but the wait suspends");
      me.pending = true;
    }
  }
  // pending waits of a timer are aborted
  void abort(int timer)
  {
    for (auto & x : ws)
      if (x.pending && x.timer == timer)
        aborted(x);
  }
  void aborted(waiter & x)
  {
    x.may_abort = true;
    if (x.due > now)
      x.must_abort = true;
  }
  void drained()
  {
    // what had to complete?
    tick last = tick::min();
    std::vector<int> c;
    {mc::quiet q; c.swap(completed);}
    for (int i : c)
    {
      auto & x = ws[i];
      MC_CHECK(x.pending, "completed without being pending");
      x.pending = false;
      if (x.ec)
      {
        MC_CHECK(x.ec == asio::error::operation_aborted, "failed with '%s'", x.ec.message().c_str());
        MC_CHECK(x.may_abort, "aborted, but nobody cancelled it");
      }
      else
      {
        MC_CHECK(!x.must_abort, "completed although it was cancelled");
        MC_CHECK(x.due <= now, "completed %lld ns too early", (long long)(x.due - now).count());
        if (!x.may_abort)
        {
          MC_CHECK(x.due >= last, "a wait until later completed first");
          last = x.due;
        }
      }
    }
    for (auto & x : ws)
      if (x.pending)
      {
        MC_CHECK(!x.may_abort, "cancelled, but it did not complete");
        MC_CHECK(x.due > now, "still waiting although the time is over");
      }
    {mc::quiet q; c = {};}
  }
};

template<typename Clock>
void run(int depth, int max_waiters, int n_timers, bool late)
{
  using fx = fixture<Clock>;
  steady_now = tick(1'000'000'000'000);
  system_now = tick(1'700'000'000'000'000'000);
  active = true;
  std::optional<fx> st;
  {mc::quiet q; st.emplace();}
  auto & f = *st;
  using duration = typename fx::duration;
  // the timers
  for (int i = 0; i < n_timers; i++)
  {
    switch (i == 1 ? 1 : mc::choose(3, "timer constructed with (time point, duration, nothing)"))
    {
      case 0: f.timers[i].emplace(f.at(f.now + 2s)); f.expiry[i] = f.now + 2s; break;
      case 1: f.timers[i].emplace(duration(3s)); f.expiry[i] = f.now + 3s; break;
      case 2: f.timers[i].emplace(); f.expiry[i] = tick(0); break;
    }
  }
  auto observe = [&]
  {
    for (int i = 0; i < 2; i++)
      if (f.timers[i])
      {
        MC_CHECK(f.timers[i]->expiry() == f.at(f.expiry[i]), "expiry() is wrong");
        if (f.expiry[i] != f.now)
          MC_CHECK(f.timers[i]->expired() == (f.expiry[i] < f.now), "expired() is %d", f.timers[i]->expired());
      }
    std::uint64_t h = 0;
    for (auto & x : f.ws)
      h = mc::mix(h, x.done * 8 + x.pending * 4 + x.may_abort + (x.due - f.now).count());
    for (int i = 0; i < 2; i++)
      h = mc::mix(h, f.timers[i] ? (f.expiry[i] - f.now).count() : 1);
    mc::state(h);
  };
  observe();
  for (int step = 0; step < depth && !mc::failed(); step++)
  {
    mc::step();
    struct event {char what; int a;};
    std::vector<event> menu;
    tick next;                     // the next thing that expires
    {
      mc::quiet q;
      if ((int)f.ws.size() < max_waiters)
      {
        for (int i = 0; i < 2; i++)
          if (f.timers[i])
            menu.push_back({'w', i});
        menu.push_back({'s', 0});
      }
      menu.push_back({'a', 1});
      menu.push_back({'a', 3});
      next = never;
      for (auto & x : f.ws)
        if (x.pending && x.due > f.now)
          next = std::min(next, x.due);
      for (int i = 0; i < 2; i++)
        if (f.timers[i] && f.expiry[i] > f.now)
          next = std::min(next, f.expiry[i]);
      if (late && next != never && next - f.now > 1ns)
        menu.push_back({'b', 0});
      if (f.dirty)
        menu.push_back({'p', 0});
      for (int i = 0; i < 2; i++)
        if (f.timers[i])
        {
          menu.push_back({'c', i});
          menu.push_back({'r', i});
          menu.push_back({'d', i});
        }
      for (int n = 0; n < (int)f.ws.size(); n++)
        if (f.ws[n].pending)
          menu.push_back({'x', n});
    }
    int k = mc::choose((int)menu.size(), "event");
    auto ev = menu[k];
    {mc::quiet q; f.trail += ev.what; menu = {};}
    switch (ev.what)
    {
      case 'w':     // wait for a timer
      case 's':     // sleep
      {
        {mc::quiet q; f.ws.emplace_back(f.w);}
        auto & me = f.ws.back();
        int idx = (int)f.ws.size() - 1;
        if (ev.what == 'w')
        {
          me.timer = ev.a;
          me.due = f.expiry[ev.a];
          f.wait(me.ps, life_guard(f.frames), me, idx);
        }
        else
        {
          constexpr bool steady = std::is_same_v<Clock, std::chrono::steady_clock>;
          int n = mc::choose(steady ? 7 : 3, "sleep (until now + 1s, until now + 2s, until the past, for 1s, for 2000 ms, for -1s, forever)");
          switch (n)
          {
            case 0: me.due = f.now + 1s; break;
            case 1: me.due = std::chrono::floor<std::chrono::seconds>(f.now + 2s); break;
            case 2: me.due = f.now - 1s; break;
            case 3: me.due = f.now + 1s; break;
            case 4: me.due = f.now + 2s; break;
            case 5: me.due = f.now - 1s; break;
            case 6: me.due = never; break;
          }
          life_guard g(f.frames);
          if (n == 0 || n == 2)
            f.sleep(me.ps, g, me, idx, f.at(me.due));
          else if (n == 1)    // another unit
            f.sleep(me.ps, g, me, idx, std::chrono::time_point_cast<std::chrono::seconds>(f.at(me.due)));
          else if constexpr (steady)
          {
            if (n == 3 || n == 5)
              f.sleep(me.ps, g, me, idx, duration(me.due - f.now));
            else if (n == 4)
              f.sleep(me.ps, g, me, idx, std::chrono::milliseconds(2000));
            else
              f.sleep(me.ps, g, me, idx, duration::max());
          }
        }
        f.started(me);
        break;
      }
      case 'a':
        steady_now += std::chrono::seconds(ev.a);
        system_now += std::chrono::seconds(ev.a);
        f.dirty = true;
        break;
      case 'b':                      // as late as possible
        next -= f.now + tick(1);
        steady_now += next;
        system_now += next;
        f.dirty = true;
        break;
      case 'p':
        f.w.drain();
        f.drained();
        f.dirty = false;
        break;
      case 'c':
        f.timers[ev.a]->cancel();
        f.abort(ev.a);
        f.dirty = true;
        break;
      case 'd':
        f.timers[ev.a].reset();
        f.abort(ev.a);
        f.dirty = true;
        break;
      case 'r':
      {
        f.abort(ev.a);
        auto & t = *f.timers[ev.a];
        auto & e = f.expiry[ev.a];
        switch (mc::choose(5, "reset (to now + 1s, to now - 1s, by 2s, by -1s, to the end of time)"))
        {
          case 0: t.reset(f.at(e = f.now + 1s)); break;
          case 1: t.reset(f.at(e = f.now - 1s)); break;
          case 2: e = f.now + 2s; t.reset(duration(2s)); break;
          case 3: e = f.now - 1s; t.reset(duration(-1s)); break;
          case 4: e = never; t.reset(duration::max()); break;
        }
        f.dirty = true;
        break;
      }
      case 'x':
      {
        auto & x = f.ws[ev.a];
        x.ps.signal.emit((ct_t)(1 << mc::choose(mc::thorough() ? 3 : 1, "type (terminal, partial, total)")));
        f.aborted(x);
        f.dirty = true;
        break;
      }
    }
    observe();
  }
  // everything ends, when the time comes
  if (!mc::failed() && mc::choose(2, "(the time passes, everything is destroyed)") == 0)
  {
    f.w.drain();
    f.drained();
    steady_now += 100s;
    system_now += 100s;
    f.w.drain();
    f.drained();
    for (auto & x : f.ws)
      if (x.pending)
      {
        MC_CHECK(x.due == never, "still waiting");
        x.ps.signal.emit(ct_t::terminal);
        f.aborted(x);
      }
    f.w.drain();
    f.drained();
    for (auto & x : f.ws)
      MC_CHECK(x.done && x.ps.destroyed, "a coroutine does not end");
    MC_CHECK(f.frames == 0, "%d frames alive", f.frames);
  }
  if (mc::failed())
    return;
  mc::outcome(f.trail);
  mc::quiet q;
  for (auto & t : f.timers)
    t.reset();
  st.reset();
  active = false;
}
}

MC_MAIN()
{
  const bool th = mc::thorough();
  mc::add("steady_timer", [=] {run<std::chrono::steady_clock>(th ? 5 : 4, 3, 2, th);});
  mc::add("system_timer", [=] {run<std::chrono::system_clock>(th ? 5 : 4, 2, 2, th);});
  mc::add("steady_timer/one", [=] {run<std::chrono::steady_clock>(th ? 6 : 5, 2, 1, th);});
  if (!th)
  {
    mc::add("steady_timer/late", [=] {run<std::chrono::steady_clock>(4, 2, 1, true);});
    mc::add("system_timer/late", [=] {run<std::chrono::system_clock>(4, 2, 1, true);});
  }
  mc::add("sleep", [=] {run<std::chrono::steady_clock>(th ? 7 : 6, 2, 0, true);});
}
