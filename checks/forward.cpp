// A cancellation reaches the operations awaited right now, all of them, and nothing else: sequences of awaits of every
// kind, by every kind of coroutine, with cancellations at any time.
#include "cob.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/wait_group.hpp>
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/composition.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/steady_timer.hpp>

using namespace cob;

namespace
{
using ct_t = asio::cancellation_type;
enum awaiter {a_proc, a_promise, a_task, a_spawned, a_generator, a_nested, a_detached};
const char * awaiters[] = {"foreign coroutine", "promise", "task", "spawned task", "generator", "promise in a promise", "detached"};
enum kind {k_op, k_use_op, k_promise, k_task, k_generator, k_race, k_left_race, k_ranged_race, k_gather, k_ranged_gather, k_join, k_ranged_join,
           k_wait, k_wait_one, k_with, k_spawn, k_composed, k_inert, k_race_promise, k_race_generator, k_held_promise, k_read, k_write, k_timer, n_kinds};
const char * kinds = "await (op, use_op, promise, task, generator, race(op, op), left_race(promise, task), race(range), gather(op, promise), gather(range), join(op, task), "
                     "join(range), wait_group, wait_one, with, spawn, a composed operation, something that ignores cancellation, race(promise &, op), race(generator &, op), promise &, read, write, a timer)";

// doesn't even look at the slot
struct inert
{
  cobalt::unique_handle<void> h{nullptr};
  struct aw
  {
    inert * s;
    bool await_ready() {return false;}
    void await_suspend(std::coroutine_handle<void> h) {s->h.reset(h.address());}
    void await_resume() {}
  };
  aw get() {return aw{this};}
  void complete() {h.release().resume();}
};

struct composed : cobalt::op<error_code, int>
{
  io_env & o;
  composed(io_env & o) : o(o) {}
  void initiate(cobalt::completion_handler<error_code, int>) override
  {
    auto [ec, i] = co_await env_wait(o);
    co_return {ec, i};
  }
};

// the order the arguments of a race are started in
struct order
{
  bool asks = false;
  using result_type = std::uint32_t;
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return 0xFFFFFFFFu;}
  result_type operator()() {return asks ? mc::choose(2, "random number") * 0x7FFFFFFFu + 1000 : 1000;}
};

constexpr int held_p = 8, held_g = 9, n_ops = 10;

struct runner
{
  awaiter a;
  int steps;
  io_env o[n_ops];
  inert in;
  int frames = 0;
  bool finished = false, resets = false;
  unsigned current = 0;          // the operations awaited now
  bool in_inert = false, in_channel = false;
  asio::steady_timer * timer = nullptr;
  const asio::steady_timer::time_point never = asio::steady_timer::time_point::max();
  kind last = n_kinds;
  int awaits = 0, emitted = 0;
  asio::cancellation_signal sig;
  int spawned = 0;
  std::string trail;

  world w;
  proc_state ps{w}, helper{w}, outer_ps{w};
  cobalt::channel<int> rd{0, w.ctx.get_executor()}, wr{1, w.ctx.get_executor()};
  std::optional<cobalt::promise<void>> p;
  std::optional<cobalt::generator<int>> g;
  // outlive the awaiting coroutine
  std::optional<cobalt::promise<int>> hp;
  std::optional<cobalt::generator<int>> hg;

  runner(awaiter a, int steps) : a(a), steps(steps)
  {
    for (auto & x : o)
      x.aborted = []{return std::make_tuple(aborted_code(), 0);};
  }

  // an orphaned promise must not end with an exception
  cobalt::promise<int> prom(io_env & o, life_guard) {try {co_return co_await env_wait(o);} catch (...) {} co_return 0;}
  cobalt::task<int> tsk(io_env & o, life_guard) {co_return co_await env_wait(o);}
  cobalt::generator<int> gen(io_env & o, life_guard) {co_return co_await env_wait(o);}
  cobalt::generator<int> many(io_env & o, life_guard)
  {
    while (true)
    {
      int r = 0;
      try {r = co_await env_wait(o);} catch (...) {}
      co_await cobalt::this_coro::reset_cancellation_state();
      co_yield r;
    }
  }
  life_guard lg() {return life_guard(frames);}
  std::vector<cobalt::promise<int>> range(io_env & o0, io_env & o1)
  {
    std::vector<cobalt::promise<int>> r;
    r.push_back(prom(o0, lg()));
    r.push_back(prom(o1, lg()));
    return r;
  }
  void hold_promise() {mc::quiet q; if (!hp) hp.emplace(prom(o[held_p], lg()));}
  void hold_generator() {mc::quiet q; if (!hg) hg.emplace(many(o[held_g], lg()));}
  template<typename Token>
  static auto async_it(io_env & o, Token && t)
  {
    return asio::async_initiate<Token, void(error_code, int)>([](cobalt::completion_handler<error_code, int> h, io_env * o) {o->initiate(std::move(h));}, t, &o);
  }
  proc read_it(proc_state &) {co_await cobalt::as_tuple(wr.read());}
  proc write_it(proc_state &) {co_await cobalt::as_tuple(rd.write(1));}

#define ONE(MASK, ...) {current = MASK; __VA_ARGS__;} break;
#define AWAITS(NO_THROW, RESET)                                                                                      \
    NO_THROW;                                                                                                        \
    for (int i = 0; i < steps && !mc::failed(); i++)                                                                 \
    {                                                                                                                \
      kind k = (kind)mc::choose(n_kinds, kinds);                                                                     \
      {mc::quiet q; trail += char('a' + k); last = k; awaits++;}                                                     \
      auto & x = o[2 * i]; auto & y = o[2 * i + 1];                                                                  \
      unsigned mx = 1u << 2 * i, my = 2u << 2 * i;                                                                   \
      try                                                                                                            \
      {                                                                                                              \
        switch (k)                                                                                                   \
        {                                                                                                            \
          case k_op: ONE(mx, co_await env_wait(x))                                                                   \
          case k_use_op: ONE(mx, co_await async_it(x, cobalt::use_op))                                               \
          case k_promise: ONE(mx, co_await prom(x, lg()))                                                            \
          case k_task: ONE(mx, co_await tsk(x, lg()))                                                                \
          case k_generator: ONE(mx, auto gg = gen(x, lg()); co_await gg)                                             \
          case k_race: ONE(mx | my, co_await cobalt::race(order{}, env_wait(x), env_wait(y)))                                 \
          case k_left_race: ONE(mx | my, co_await cobalt::left_race(prom(x, lg()), tsk(y, lg())))                    \
          case k_ranged_race: ONE(mx | my, co_await cobalt::race(order{}, range(x, y)))                                       \
          case k_gather: ONE(mx | my, co_await cobalt::gather(env_wait(x), prom(y, lg())))                           \
          case k_ranged_gather: ONE(mx | my, co_await cobalt::gather(range(x, y)))                                   \
          case k_join: ONE(mx | my, co_await cobalt::join(env_wait(x), tsk(y, lg())))                                \
          case k_ranged_join: ONE(mx | my, co_await cobalt::join(range(x, y)))                                       \
          case k_wait: ONE(mx | my, cobalt::wait_group wg; group(wg, x, y); co_await wg)                             \
          case k_wait_one: ONE(mx | my, cobalt::wait_group wg; group(wg, x, y); co_await wg.wait_one())              \
          case k_with: ONE(mx, auto px = &x; co_await cobalt::with(1, [px](int) -> cobalt::promise<void> {co_await env_wait(*px);}, [](int, std::exception_ptr) -> cobalt::promise<void> {co_return;})) \
          case k_spawn: ONE(mx, co_await cobalt::spawn(w.ctx.get_executor(), tsk(x, lg()), cobalt::use_op))          \
          case k_composed: ONE(mx, co_await composed(x))                                                             \
          case k_inert: ONE(0, in_inert = true; co_await in.get())                                                   \
          case k_race_promise: hold_promise(); ONE(mx | (1u << held_p), co_await cobalt::race(order{}, *hp, env_wait(x)))     \
          case k_race_generator: hold_generator(); ONE(mx | (hg->ready() ? 0u : 1u << held_g), co_await cobalt::race(order{true}, *hg, env_wait(x))) \
          case k_held_promise: hold_promise(); ONE(1u << held_p, co_await *hp)                                       \
          case k_read: ONE(0, in_channel = true; co_await rd.read())                                                 \
          case k_write: ONE(0, in_channel = true; co_await wr.write(1))                                              \
          case k_timer: ONE(0, auto t = std::make_unique<asio::steady_timer>(w.ctx, never); timer = t.get(); in_channel = true; co_await t->async_wait(cobalt::use_op)) \
          default: break;                                                                                            \
        }                                                                                                            \
      }                                                                                                              \
      catch (...) {}                                                                                                 \
      current = 0; in_inert = in_channel = false; timer = nullptr;                                                                    \
      if (hp && hp->ready()) {mc::quiet q; hp.reset();}                                                              \
      if (resets) {RESET;}                                                                                           \
    }                                                                                                                \
    finished = true;

#define COBALT_AWAITS AWAITS(if (!resets) co_await cobalt::this_coro::throw_if_cancelled(false), co_await cobalt::this_coro::reset_cancellation_state())

  void group(cobalt::wait_group & wg, io_env & x, io_env & y)
  {
    wg.push_back(vprom(x, lg()));
    wg.push_back(vprom(y, lg()));
  }
  cobalt::promise<void> vprom(io_env & o, life_guard) {try {co_await env_wait(o);} catch (...) {}}

  proc as_proc(proc_state &) {AWAITS(, )}
  cobalt::promise<void> as_promise(life_guard) {COBALT_AWAITS}
  cobalt::task<void> as_task(life_guard) {COBALT_AWAITS}
  cobalt::generator<int> as_generator(life_guard) {COBALT_AWAITS co_return 0;}
  cobalt::promise<void> outer(life_guard) {co_await as_promise(lg());}
  cobalt::detached as_detached(life_guard)
  {
    co_await cobalt::this_coro::reset_cancellation_source(sig.slot());
    COBALT_AWAITS
  }
  proc await_task(proc_state &) {co_await as_task(lg());}

  void emit(ct_t ct)
  {
    switch (a)
    {
      case a_proc: case a_task: ps.signal.emit(ct); break;
      case a_promise: case a_nested: p->cancel(ct); break;
      case a_spawned: sig.emit(ct); w.drain(); break;
      case a_generator: g->cancel(ct); break;
      case a_detached: sig.emit(ct); break;
    }
  }

  void run()
  {
    bool ignores = mc::choose(2, "cancelled operations (complete, ignore it)");
    resets = mc::choose(a == a_proc ? 1 : 2, "after a cancellation, the coroutine (doesn't throw, resets its state)");
    for (auto & x : o)
      x.mode = ignores ? on_cancel::ignore : on_cancel::post;
    if (ignores)
      for (auto & x : o)
        x.mode = on_cancel::ignore;
    switch (a)
    {
      case a_proc: as_proc(ps); break;
      case a_promise: p.emplace(as_promise(lg())); break;
      case a_nested: p.emplace(outer(lg())); break;
      case a_task: await_task(ps); break;
      case a_spawned: cobalt::spawn(w.ctx.get_executor(), as_task(lg()), asio::bind_cancellation_slot(sig.slot(), [&](std::exception_ptr) {spawned++;})); break;
      case a_generator: g.emplace(as_generator(lg())); break;
      case a_detached: as_detached(lg()); break;
    }
    w.drain();
    int cancels = 0;
    while (!mc::failed() && !finished)
    {
      int pend[n_ops], n = 0;
      bool waits = in_inert || in_channel;
      for (int i = 0; i < n_ops; i++)
        if (o[i].is_pending())
        {
          pend[n++] = i;
          waits = waits || (current >> i & 1);
        }
      if (!waits)
      {
        mc::fail("nothing is awaited anymore, but the coroutine doesn't continue from %c", char('a' + last));
        break;
      }
      mc::step();
      int extra = in_inert || in_channel;
      int types = cancels < 2 ? (mc::thorough() ? 3 : 2) : 0;
      int c = mc::choose(n + extra + types, "event (an operation completes, the channel/other one completes, cancellation)");
      if (c < n)
      {
        if (pend[c] == held_g)    // goes on, but the race awaits it only once
          current &= ~(1u << held_g);
        o[pend[c]].complete(error_code(), 1);
      }
      else if (c < n + extra)
      {
        if (in_inert)
          in.complete();
        else if (timer)
          timer->cancel();
        else if (last == k_read)
          write_it(helper);
        else
          read_it(helper);
      }
      else
      {
        static const ct_t ts[] = {ct_t::terminal, ct_t::total, ct_t::partial};
        ct_t t = ts[c - n - extra];
        cancels++;
        {mc::quiet q; trail += '!';}
        int before[n_ops], aw = awaits;
        unsigned expected = 0;
        for (int i = 0; i < n_ops; i++)
        {
          before[i] = o[i].cancels;
          if (o[i].is_pending() && (current >> i & 1))
            expected |= 1u << i;
        }
        bool ch = in_channel, ine = in_inert;
        emit(t);
        if (last == k_spawn)   // dispatched to the executor of the task
          w.drain();
        for (int i = 0; i < n_ops; i++)
        {
          int d = o[i].cancels - before[i], e = expected >> i & 1;
          if (e && before[i] && !d)   // the composite cancelled it on its own, and won't do it again
            continue;
          MC_CHECK(d == e, "await %c: operation %d received %d cancellations instead of %d", char('a' + last), i, d, e);
          MC_CHECK(!e || o[i].last_cancel == t, "await %c: operation %d was cancelled with type %d instead of %d", char('a' + last), i, (int)o[i].last_cancel, (int)t);
        }
        w.drain();
        MC_CHECK(!ch || awaits != aw || finished, "a cancelled channel operation doesn't end");
        MC_CHECK(!ine || (awaits == aw && !finished), "the coroutine continued without its awaitable");
      }
      w.drain();
      mc::state(mc::mix(mc::mix(last, awaits), mc::mix(current, cancels * 4 + ignores * 2 + resets)));
    }
    if (mc::failed())
      return;
    {
      mc::quiet q;
      hp.reset();
      hg.reset();
    }
    // what's orphaned now
    for (int n = 0; n < 4; n++)
      for (auto & x : o)
        if (x.is_pending())
        {
          x.complete(error_code(), 2);
          w.drain();
        }
    w.drain();
    MC_CHECK(a != a_spawned || spawned == 1, "the completion handler was called %d times", spawned);
    p.reset();
    g.reset();
    MC_CHECK(frames == 0, "%d coroutines are left", frames);
    mc::outcome(trail);
  }
};
}

MC_MAIN()
{
  const int steps = mc::thorough() ? 3 : 2;
  for (auto a : {a_proc, a_promise, a_task, a_spawned, a_generator, a_nested, a_detached})
    mc::add(std::string("forward/") + awaiters[a] + "/awaits=" + std::to_string(steps), [=]
    {
      std::optional<runner> r;
      {mc::quiet q; r.emplace(a, steps);}
      r->run();
      {mc::quiet q; r.reset();}
    });
}
