// cancellation state of cobalt's coroutines: filters, throw_if_cancelled, resets
#include "cob.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>

using namespace cob;

namespace
{
using ct_t = asio::cancellation_type;
inline int num(ct_t c) {return (int)c & 7;}
constexpr int all_types[] = {(int)ct_t::terminal, (int)ct_t::partial, (int)ct_t::total};

enum kind {k_promise, k_task, k_spawned, k_generator, k_nested, k_detached};
const char * kinds[] = {"promise", "task", "spawned task", "generator", "promise in a promise", "detached"};

struct runner
{
  world w;
  kind k;
  ctl_state op;
  int frames = 0;
  // the model
  int in = 7, out = 7;          // filters
  int cancelled = 0;
  bool throw_if = true;
  int expected_cancels = 0, expected_type = 0;
  bool awaiting = false, finished = false;
  int steps;
  std::string trail;
  // how to cancel
  asio::cancellation_signal sig, sig2;
  bool second_source = false;
  proc_state ps{w};
  std::optional<cobalt::promise<void>> p;
  std::optional<cobalt::generator<int>> g;

  runner(kind k, int steps) : k(k), steps(steps) {}

  void emitted(int type)
  {
    cancelled = type & in;
    int o = cancelled & out;
    if (o && op.pending)
    {
      expected_cancels++;
      expected_type = o;
    }
  }
  void emit(ct_t ct)
  {
    switch (k)
    {
      case k_promise: case k_nested: p->cancel(ct); break;
      case k_task: ps.signal.emit(ct); break;
      case k_spawned: sig.emit(ct); w.drain(); break;
      case k_generator: g->cancel(ct); break;
      case k_detached: (second_source ? sig2 : sig).emit(ct); break;
    }
  }

#define BODY(EXTRA)                                                                                                  \
    for (int i = 0; i < steps && !mc::failed(); i++)                                                                 \
    {                                                                                                                \
      switch (mc::choose(is_detached ? 8 : 7, "body does (await, reset the state, reset with a filter, reset with two filters, throw_if_cancelled = false, throw_if_cancelled = true, stop, set a source)"))   \
      {                                                                                                              \
        case 0:                                                                                                      \
        {                                                                                                            \
          int before = op.n_suspend;                                                                                 \
          bool exp_throw = cancelled && throw_if;                                                                    \
          op.ready = false;                                                                                          \
          result_t got;                                                                                              \
          expected_cancels = 0; op.n_cancel = 0;                                                                     \
          try {awaiting = true; co_await ctl<void>{&op}; got = val(0);}                                              \
          catch (...) {got = err(std::current_exception());}                                                         \
          awaiting = false;                                                                                          \
          awaited(before, exp_throw, got);                                                                           \
          break;                                                                                                     \
        }                                                                                                            \
        case 1: co_await cobalt::this_coro::reset_cancellation_state(); reset(7, 7); break;                          \
        case 2:                                                                                                      \
          switch (mc::choose(3, "filter (none, terminal, partial)"))                                                 \
          {                                                                                                          \
            case 0: co_await cobalt::this_coro::reset_cancellation_state(asio::disable_cancellation()); reset(0, 0); break;          \
            case 1: co_await cobalt::this_coro::reset_cancellation_state(asio::enable_terminal_cancellation()); reset(1, 1); break;  \
            default: co_await cobalt::this_coro::reset_cancellation_state(asio::enable_partial_cancellation()); reset(3, 3); break;  \
          }                                                                                                          \
          break;                                                                                                     \
        case 3:                                                                                                      \
          switch (mc::choose(2, "filters (total in & none out, total in & terminal out)"))                           \
          {                                                                                                          \
            case 0: co_await cobalt::this_coro::reset_cancellation_state(asio::enable_total_cancellation(), asio::disable_cancellation()); reset(7, 0); break; \
            default: co_await cobalt::this_coro::reset_cancellation_state(asio::enable_total_cancellation(), asio::enable_terminal_cancellation()); reset(7, 1); break; \
          }                                                                                                          \
          break;                                                                                                     \
        case 4: co_await cobalt::this_coro::throw_if_cancelled(false); throw_if = false; trail += 'f'; break;        \
        case 5: co_await cobalt::this_coro::throw_if_cancelled(true); throw_if = true; trail += 't'; break;          \
        case 6: i = steps; break;                                                                                    \
        EXTRA \
      }                                                                                                              \
      int cur = num(co_await cobalt::this_coro::cancelled);                                                          \
      int st = num((co_await cobalt::this_coro::cancellation_state).cancelled());                                    \
      bool ti = co_await cobalt::this_coro::throw_if_cancelled();                                                    \
      MC_CHECK(cur == cancelled, "cancelled is %d instead of %d", cur, cancelled);                                   \
      MC_CHECK(st == cancelled, "cancellation_state.cancelled() is %d instead of %d", st, cancelled);                \
      MC_CHECK(ti == throw_if, "throw_if_cancelled is %d", ti);                                                      \
      auto ex = co_await cobalt::this_coro::executor;                                                                \
      MC_CHECK(ex == cobalt::executor(w.ctx.get_executor()), "wrong executor");                                      \
      state();                                                                                                       \
    }                                                                                                                \
    finished = true;

#define SOURCE                                                                                                       \
        case 7: second_source = !second_source; reset(7, 7);                                                         \
          co_await cobalt::this_coro::reset_cancellation_source(second_source ? sig2.slot() : sig.slot());           \
          break;

  void state() {mc::state(mc::mix(in * 8 + out, cancelled * 4 + throw_if * 2 + second_source));}
  void reset(int i, int o)
  {
    in = i; out = o;
    cancelled = 0;
    trail += "r" + std::to_string(i) + std::to_string(o);
  }
  void awaited(int before, bool exp_throw, result_t got)
  {
    if (exp_throw)
    {
      trail += 'T';
      MC_CHECK(got == err(e_aborted), "an await in a cancelled coroutine yields %s", got.str().c_str());
      MC_CHECK(op.n_suspend == before, "an operation was started in a cancelled coroutine");
    }
    else
    {
      trail += 'a';
      MC_CHECK(op.n_suspend == before + 1, "the operation wasn't started although the coroutine isn't cancelled (%d) or doesn't throw (%d)", cancelled, throw_if);
      MC_CHECK(got == op.result, "the await yields %s", got.str().c_str());
    }
  }

  cobalt::promise<void> as_promise(life_guard) {constexpr bool is_detached = false; BODY()}
  cobalt::task<void> as_task(life_guard) {constexpr bool is_detached = false; BODY()}
  cobalt::generator<int> as_generator(life_guard) {constexpr bool is_detached = false; BODY() co_return 0;}
  cobalt::promise<void> inner(life_guard) {constexpr bool is_detached = false; BODY()}
  cobalt::promise<void> outer(life_guard) {co_await inner(life_guard(frames));}
  cobalt::detached as_detached(life_guard)
  {
    co_await cobalt::this_coro::reset_cancellation_source(sig.slot());
    constexpr bool is_detached = true;
    BODY(SOURCE)
  }
  proc await_task(proc_state &) {co_await as_task(life_guard(frames));}
  proc await_promise(proc_state &) {co_await *p;}

  void run()
  {
    int spawned = 0;
    switch (k)
    {
      case k_promise: p.emplace(as_promise(life_guard(frames))); break;
      case k_nested: p.emplace(outer(life_guard(frames))); break;
      case k_task: await_task(ps); break;
      case k_spawned: cobalt::spawn(w.ctx.get_executor(), as_task(life_guard(frames)), asio::bind_cancellation_slot(sig.slot(), [&](std::exception_ptr e) {spawned++; MC_CHECK(!e, "failed");})); w.drain(); break;
      case k_generator: g.emplace(as_generator(life_guard(frames))); break;
      case k_detached: as_detached(life_guard(frames)); break;
    }
    int emits = 0;
    while (!mc::failed() && !finished)
    {
      if (!op.pending)
      {
        mc::fail("the coroutine doesn't continue");
        break;
      }
      mc::step();
      int c = mc::choose(emits < 2 ? (k == k_detached ? 6 : 5) : 2, "event (completes, fails, terminal, partial, total, cancel the other source)");
      if (c == 0) op.complete(val(0));
      else if (c == 1) op.complete(err(44));
      else if (c < 5)
      {
        emits++;
        int type = all_types[c - 2];
        trail += "c" + std::to_string(type);
        emitted(type);
        emit((ct_t)type);
      }
      else
      {
        emits++;
        (second_source ? sig : sig2).emit(ct_t::total);
      }
      if (op.pending)
      {
        MC_CHECK(op.n_cancel == expected_cancels, "the operation received %d cancellations instead of %d (filters %d/%d)", op.n_cancel, expected_cancels, in, out);
        MC_CHECK(!expected_cancels || num(op.last_cancel) == expected_type, "the operation was cancelled with type %d instead of %d", num(op.last_cancel), expected_type);
      }
    }
    if (mc::failed())
      return;
    w.drain();
    if (k == k_generator)
      MC_CHECK(g->ready(), "the generator isn't done");
    MC_CHECK(frames == 0, "the coroutine isn't destroyed");
    MC_CHECK(k != k_spawned || spawned == 1, "the completion handler was called %d times", spawned);
    p.reset();
    g.reset();
    mc::outcome(trail);
  }
};
}

MC_MAIN()
{
  const int steps = mc::thorough() ? 5 : 4;
  for (auto k : {k_promise, k_task, k_spawned, k_generator, k_nested, k_detached})
    mc::add(std::string("cancellation/") + kinds[k] + "/steps=" + std::to_string(steps - (k == k_detached)), [=]
    {
      std::optional<runner> r;
      {mc::quiet q; r.emplace(k, steps - (k == k_detached));}
      r->run();
      {mc::quiet q; r.reset();}
    });
}
