// signal_set against a model of what was raised, queued and waited for
#include "cob.hpp"
#include <boost/cobalt/io/signal_set.hpp>

#include <cerrno>
#include <csignal>
#include <sys/syscall.h>

using namespace cob;
namespace io = cobalt::io;

namespace
{
using ct_t = asio::cancellation_type;
constexpr int sigs[] = {SIGUSR1, SIGUSR2};
bool active = false, faults = false, fault = false;
}

extern "C" int __libc_sigaction(int, const struct sigaction *, struct sigaction *);
extern "C" int sigaction(int s, const struct sigaction * a, struct sigaction * o) noexcept
{
  if (active && faults && a && (s == SIGUSR1 || s == SIGUSR2) && mc::dev(2, "sigaction (works, fails)"))
  {
    fault = true;
    errno = EINVAL;
    return -1;
  }
  return __libc_sigaction(s, a, o);
}

namespace
{
template<typename F, typename Op = std::invoke_result_t<F>>
struct watched
{
  int & depth;
  Op op;
  decltype(std::declval<Op&>().operator co_await()) a{op.operator co_await()};
  watched(int & d, F f) : depth(d), op(f()) {}
  watched(const watched &) = delete;
  bool await_ready() {return a.await_ready();}
  template<typename P>
  auto await_suspend(std::coroutine_handle<P> h)
  {
    auto & d = depth;
    d++;
    auto r = a.await_suspend(h);
    d--;
    return r;
  }
  auto await_resume()
  {
    MC_CHECK(depth == 0, "completed from within the initiation");
    return a.await_resume(cobalt::as_tuple_tag{});
  }
};

struct waiter
{
  proc_state ps;
  int set, depth = 0, resumed = 0;
  bool done = false, handled = false;
  error_code ec;
  int sig = 0;
  // expected
  bool pending = true, aborted = false;
  int expect = 0;
  waiter(world & w) : ps(w) {}
};

struct fixture
{
  std::deque<waiter> ws;
  int frames = 0;
  world w;
  std::optional<io::signal_set> s[2];
  // model
  std::map<int, int> registered[2];     // signal -> undelivered
  std::vector<int> raised;              // not seen by the event loop yet
  std::string trail;

  bool handled(int sig) const {return registered[0].count(sig) || registered[1].count(sig);}
  proc wait(proc_state &, life_guard, waiter & me)
  {
    std::tie(me.ec, me.sig) = co_await watched(me.depth, [&] {return s[me.set]->wait();});
    me.resumed++;
    me.done = true;
  }
  void deliver()
  {
    for (auto sig : raised)
      for (int i = 0; i < 2; i++)
      {
        auto it = registered[i].find(sig);
        if (it == registered[i].end())
          continue;
        bool any = false;
        for (auto & x : ws)
          if (x.pending && x.set == i)
          {
            any = true;
            x.pending = false;
            x.expect = sig;
          }
        if (!any)
          it->second++;
      }
    raised.clear();
  }
  void abort(int i)
  {
    for (auto & x : ws)
      if (x.pending && x.set == i)
      {
        x.pending = false;
        x.aborted = true;
      }
  }
  void check()
  {
    for (auto & x : ws)
    {
      if (x.pending)
        MC_CHECK(!x.done, "completes with '%s' and %d, although nothing happened", x.ec.message().c_str(), x.sig);
      else
      {
        MC_CHECK(x.done, "does not complete, although %s", x.aborted ? "it was cancelled" : "a signal was raised");
        MC_CHECK(x.resumed == 1, "resumed %d times", x.resumed);
        if (x.aborted)
          MC_CHECK(x.ec == asio::error::operation_aborted, "yields '%s' instead of being aborted", x.ec.message().c_str());
        else
          MC_CHECK(!x.ec && x.sig == x.expect, "yields '%s' and signal %d instead of %d", x.ec.message().c_str(), x.sig, x.expect);
      }
    }
  }
};

void run(int depth, int max_waits)
{
  std::optional<fixture> st;
  {
    mc::quiet q;
    st.emplace();
  }
  auto & f = *st;
  active = true;
  fault = false;
  mc::set_dev_budget(1);
  // construction
  try
  {
    f.s[0].emplace(std::initializer_list<int>{SIGUSR1});
    f.registered[0][SIGUSR1] = 0;
    MC_CHECK(!fault, "constructed, although the system failed");
  }
  catch (boost::system::system_error &)
  {
    MC_CHECK(fault, "throws");
    faults = false;
    f.s[0].emplace(std::initializer_list<int>{SIGUSR1});
    f.registered[0][SIGUSR1] = 0;
    faults = true;
  }
  f.s[1].emplace();
  bool dirty = false;
  for (int step = 0; step < depth && !mc::failed(); step++)
  {
    mc::step();
    struct event {char what; int a;};
    std::vector<event> menu;
    {
      mc::quiet q;
      for (int i = 0; i < 2; i++)
        if (f.handled(sigs[i]) && f.raised.size() < 3)
          menu.push_back({'S', sigs[i]});
      if (dirty) menu.push_back({'p', 0});
      for (int i = 0; i < 2; i++)
        if (f.s[i])
        {
          if ((int)f.ws.size() < max_waits) menu.push_back({'w', i});
          menu.push_back({'c', i});
          menu.push_back({'C', i});
          menu.push_back({'a', i});
          menu.push_back({'r', i});
          menu.push_back({'d', i});
        }
      for (int n = 0; n < (int)f.ws.size(); n++)
        if (f.ws[n].pending)
          menu.push_back({'k', n});
    }
    if (menu.empty())
      break;
    auto ev = menu[mc::choose((int)menu.size(), "event (Signal, poll, wait, cancel, Clear, add, remove, destroy, kill)")];
    {mc::quiet q; f.trail += ev.what; menu = {};}
    if (mc::logging()) mc::note("event %c%d", ev.what, ev.a);
    int i = ev.a;
    dirty = true;
    fault = false;
    switch (ev.what)
    {
      case 'S':
        {mc::quiet q; f.raised.push_back(ev.a);}
        ::raise(ev.a);
        break;
      case 'p':
        f.w.drain();
        {mc::quiet q; f.deliver();}
        f.check();
        dirty = false;
        break;
      case 'w':
      {
        {mc::quiet q; f.ws.emplace_back(f.w);}
        auto & me = f.ws.back();
        me.set = i;
        for (auto & [sig, n] : f.registered[i])
          if (n > 0)
          {
            n--;
            me.pending = false;
            me.expect = sig;
            break;
          }
        f.wait(me.ps, life_guard(f.frames), me);
        break;
      }
      case 'c':
        MC_CHECK(f.s[i]->cancel().has_value(), "cancel fails");
        f.abort(i);
        break;
      case 'C':
      {
        auto r = f.s[i]->clear();
        MC_CHECK(r.has_error() == fault, "clear reports %s", fault ? "success" : "an error");
        if (fault)
        {
          // which are left is not known
          (void)f.s[i]->clear();
        }
        f.registered[i].clear();
        break;
      }
      case 'a':
      {
        static constexpr int which[] = {SIGUSR1, SIGUSR2, SIGKILL, 1000};
        int sig = which[mc::choose(mc::thorough() || faults ? 4 : 2, "(USR1, USR2, KILL, 1000)")];
        auto r = f.s[i]->add(sig);
        bool bad = fault || sig == SIGKILL || sig == 1000;
        MC_CHECK(r.has_error() == bad, "add reports %s", bad ? "success" : "an error");
        if (r)
          f.registered[i].emplace(sig, 0);
        break;
      }
      case 'r':
      {
        static constexpr int which[] = {SIGUSR1, SIGUSR2, 1000};
        int sig = which[mc::choose(mc::thorough() || faults ? 3 : 2, "(USR1, USR2, 1000)")];
        auto r = f.s[i]->remove(sig);
        bool bad = fault || sig == 1000;
        MC_CHECK(r.has_error() == bad, "remove reports %s", bad ? "success" : "an error");
        if (r)
          f.registered[i].erase(sig);
        break;
      }
      case 'd':
      {
        bool fs = std::exchange(faults, false);    // asio can't handle a failure here
        f.s[i].reset();
        faults = fs;
        f.abort(i);
        f.registered[i].clear();
        break;
      }
      case 'k':
      {
        auto & x = f.ws[i];
        x.ps.signal.emit((ct_t)(1 << mc::choose(mc::thorough() ? 3 : 1, "type (terminal, partial, total)")));
        x.pending = false;
        x.aborted = true;
        break;
      }
    }
    // a signal that isn't handled any more would end us
    if (mc::failed()) return;
    for (auto s : sigs)
    {
      struct sigaction sa{};
      __libc_sigaction(s, nullptr, &sa);
      MC_CHECK((sa.sa_handler != SIG_DFL) == f.handled(s), "the signal is %s", f.handled(s) ? "not handled" : "still handled");
      if (mc::failed()) return;
    }
    std::uint64_t h = f.raised.size();
    for (int k = 0; k < 2; k++)
    {
      h = mc::mix(h, f.s[k].has_value());
      for (auto & [sig, n] : f.registered[k]) h = mc::mix(h, sig * 8 + n);
    }
    for (auto & x : f.ws) h = mc::mix(h, x.pending * 4 + x.aborted * 2 + x.done);
    mc::state(h);
  }
  if (!mc::failed() && mc::choose(2, "finally (everything ends, everything is destroyed)") == 0)
  {
    f.w.drain();
    {mc::quiet q; f.deliver();}
    f.check();
    mc::set_dev_budget(0);
    for (int i = 0; i < 2; i++)
    {
      f.s[i].reset();
      f.abort(i);
    }
    f.w.drain();
    f.check();
    MC_CHECK(f.frames == 0, "%d frames alive", f.frames);
  }
  if (mc::failed()) return;
  mc::outcome(f.trail);
  mc::set_dev_budget(0);
  f.s[0].reset();
  f.s[1].reset();
  f.w.ctx.poll();        // what was written to the pipe (shared by all contexts)
  active = false;
  mc::quiet q;
  st.reset();
}
}

MC_MAIN()
{
  bool th = mc::thorough();
  mc::add("signal_set", [=] {faults = false; run(th ? 6 : 5, 3);});
  mc::add("signal_set/faults", [=] {faults = true; run(th ? 5 : 4, 2);});
}
