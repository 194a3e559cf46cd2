// BOOST_COBALT_FOR: the loop visits every value of its source once, in order, and ends with it; noop as a source; and
// unique_handle, which everything above owns its coroutines with.
#include "cob.hpp"
#include <boost/cobalt/async_for.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/noop.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/gather.hpp>

using namespace cob;

namespace
{
// ------------------------------------------------------------------ BOOST_COBALT_FOR

enum consumer {c_proc, c_promise, c_task, c_generator};
const char * consumers[] = {"foreign coroutine", "promise", "task", "generator"};
enum source_kind {s_generator, s_lazy, s_promise, s_task_generator, s_noop_generator, s_noop_promise};
const char * sources[] = {"generator", "lazy generator", "promise", "generator of move only values", "noop generator", "noop promise"};

struct looper
{
  consumer c;
  source_kind k;
  int max;

  io_env src, bod;
  int frames = 0;
  std::vector<int> produced, visited;       // produced: yielded or returned
  bool exhausted = false;                   // the source has come to its end
  int failed_with = -1;                     // ... with an exception
  bool done = false;
  int loops = 0, iterations = 0;
  bool src_fails = false, bod_fails = false;

  world w;
  proc_state ps{w};
  std::optional<cobalt::promise<void>> p;
  std::optional<cobalt::generator<int>> g;

  looper(consumer c, source_kind k, int max) : c(c), k(k), max(max)
  {
    for (auto o : {&src, &bod})
      o->aborted = [] {return std::make_tuple(aborted_code(), 0);};
  }
  life_guard lg() {return life_guard(frames);}

  // a source that's dropped gets cancelled, and must not end with an exception then
#define WAIT(T)                                                                                                       \
    {                                                                                                                 \
      auto [ec, n] = co_await cobalt::as_tuple(env_wait(src));                                                        \
      if (ec == asio::error::operation_aborted)                                                                       \
        co_return T{100};                                                                                             \
      if (ec)                                                                                                         \
        throw boost::system::system_error(ec);                                                                        \
    }
#define SOURCE(T, YIELD)                                                                                              \
    for (int i = 1; ; i++)                                                                                            \
    {                                                                                                                 \
      bool fails = false;                                                                                             \
      switch (mc::choose(i > max ? 2 : 6, "the source (returns, throws, yields, awaits and yields, awaits and returns, awaits and throws)")) \
      {                                                                                                               \
        case 1: fails = true; break;                                                                                  \
        case 2: YIELD; continue;                                                                                      \
        case 3: WAIT(T) YIELD; continue;                                                              \
        case 4: WAIT(T) break;                                                                        \
        case 5: WAIT(T) fails = true; break;                                                          \
        default:;                                                                                                     \
      }                                                                                                               \
      exhausted = true;                                                                                               \
      if (fails)                                                                                                      \
      {                                                                                                               \
        failed_with = 60;                                                                                             \
        throw my_error(60);                                                                                           \
      }                                                                                                               \
      {mc::quiet q; produced.push_back(100);}                                                                         \
      co_return T{100};                                                                                               \
    }
  cobalt::generator<token> gen(life_guard)
  {
    SOURCE(token, {mc::quiet q; produced.push_back(i);} co_yield token{i})
  }
  cobalt::generator<mtoken> mgen(life_guard)
  {
    SOURCE(mtoken, {mc::quiet q; produced.push_back(i);} co_yield mtoken{i})
  }
  cobalt::generator<token> lazy(life_guard)
  {
    co_await cobalt::this_coro::initial;
    SOURCE(token, {mc::quiet q; produced.push_back(i);} co_yield token{i})
  }
  cobalt::promise<token> prom(life_guard)
  {
    SOURCE(token, (void)0; break)
    exhausted = true;
    {mc::quiet q; produced.push_back(100);}
    co_return token{100};
  }

  // what happens within the loop
#define VISIT(v)                                                                                                      \
        {                                                                                                             \
          int x = as_int(v);                                                                                          \
          visit(x);                                                                                                   \
        }                                                                                                             \
        switch (mc::choose(5, "the body (does nothing, continues, breaks, throws, awaits)"))                          \
        {                                                                                                             \
          case 1: continue;                                                                                           \
          case 2: stopped = true; break;                                                                              \
          case 3: throw my_error(50);                                                                                 \
          case 4: co_await env_wait(bod);                                                                             \
          default:;                                                                                                   \
        }                                                                                                             \
        if (stopped)                                                                                                  \
          break;

  void visit(int x)
  {
    mc::quiet q;
    iterations++;
    visited.push_back(x);
    MC_CHECK(visited.size() <= produced.size(), "the loop visits %d, but there are only %d values", x, (int)produced.size());
    MC_CHECK(produced[visited.size() - 1] == x, "the loop visits %d instead of %d", x, produced[visited.size() - 1]);
  }
  void left(bool stopped, int error)
  {
    mc::quiet q;
    loops++;
    if (error == -1 && !stopped)
    {
      MC_CHECK(exhausted && failed_with == -1, "the loop ended although its source hasn't");
      MC_CHECK(visited == produced, "the loop visited %d of %d values", (int)visited.size(), (int)produced.size());
    }
    else if (error == 60)
    {
      MC_CHECK(visited == produced, "an exception got ahead of %d values", (int)(produced.size() - visited.size()));
      MC_CHECK(failed_with == 60, "the loop fails, although its source didn't, or again");
      failed_with = -1;
    }
  }

#define LOOP(Expr)                                                                                                    \
      {                                                                                                               \
        bool stopped = false;                                                                                         \
        int error = -1;                                                                                               \
        try                                                                                                           \
        {                                                                                                             \
          BOOST_COBALT_FOR(auto v, Expr)                                                                              \
          {                                                                                                           \
            VISIT(v)                                                                                                  \
          }                                                                                                           \
        }                                                                                                             \
        catch (...) {error = error_id(std::current_exception());}                                                     \
        left(stopped, error);                                                                                         \
        last = error;                                                                                                 \
        brk = stopped;                                                                                                \
      }

  // two loops over an lvalue: the second one goes on where the first one stopped
#define BOTH(Expr)                                                                                                    \
      if (mc::choose(2, "the source is (an rvalue, an lvalue)"))                                                      \
      {                                                                                                               \
        auto s = Expr;                                                                                                \
        LOOP(s)                                                                                                       \
        if (last == -1 && !brk)                                                                                       \
          MC_CHECK(!s, "the source is not empty after the loop");                                                     \
        if (last != -1 || brk)                                                                                        \
          LOOP(s)                                                                                                     \
        if (last == 60)                                                                                               \
          MC_CHECK(!s, "the source is not empty after it failed");                                                    \
      }                                                                                                               \
      else                                                                                                            \
        LOOP(Expr)

#define BODY                                                                                                          \
    int last = -1;                                                                                                    \
    bool brk = false;                                                                                                 \
    switch (k)                                                                                                        \
    {                                                                                                                 \
      case s_generator: BOTH(gen(lg())) break;                                                                        \
      case s_lazy: BOTH(lazy(lg())) break;                                                                            \
      case s_promise: BOTH(prom(lg())) break;                                                                         \
      case s_task_generator: BOTH(mgen(lg())) break;                                                                  \
      case s_noop_generator: noop(); BOTH(cobalt::generator<token>(cobalt::noop(token{100}))) break;                  \
      case s_noop_promise: noop(); BOTH(cobalt::promise<token>(cobalt::noop(token{100}))) break;                      \
    }                                                                                                                 \
    done = true;

  void noop() {mc::quiet q; produced.push_back(100); exhausted = true;}

  proc as_proc(proc_state &, life_guard) {BODY}
  cobalt::promise<void> as_promise(life_guard) {BODY}
  cobalt::task<void> as_task(life_guard) {BODY}
  cobalt::generator<int> as_generator(life_guard) {BODY co_return 0;}

  void run()
  {
    switch (c)
    {
      case c_proc: as_proc(ps, lg()); break;
      case c_promise: {auto x = as_promise(lg()); mc::quiet q; p.emplace(std::move(x));} break;
      case c_task: cobalt::spawn(w.ctx.get_executor(), as_task(lg()), [](std::exception_ptr e) {MC_CHECK(!e, "the task failed");}); break;
      case c_generator: {auto x = as_generator(lg()); mc::quiet q; g.emplace(std::move(x));} break;
    }
    w.drain();
    while (!mc::failed() && !done)
    {
      mc::state(mc::mix(visited.size() * 64 + produced.size() * 8 + loops, exhausted * 4 + src.is_pending() * 2 + bod.is_pending()));
      int n = src.is_pending() + bod.is_pending();
      MC_CHECK(n > 0, "the loop is stuck");
      if (mc::failed())
        break;
      mc::step();
      auto & o = !src.is_pending() ? bod : !bod.is_pending() ? src : mc::choose(2, "completes (the source, the body)") ? bod : src;
      if (mc::choose(2, "with (success, an error)"))
      {
        if (&o == &src)
        {
          exhausted = true;
          failed_with = 60;
        }
        o.complete(user_code(&o == &src ? 60 : 50), 0);
      }
      else
        o.complete(error_code{}, 1);
      w.drain();
    }
    // a source that got dropped has been cancelled
    w.drain();
    p.reset();
    g.reset();
    w.drain();
    if (!mc::failed())
    {
      MC_CHECK(!src.is_pending() && !bod.is_pending(), "an operation is left");
      MC_CHECK(frames == 0, "%d frames are left", frames);
    }
    mc::quiet q;
    std::string o;
    for (auto v : visited) o += std::to_string(v) + " ";
    mc::outcome(o + (exhausted ? "end " : "") + std::to_string(failed_with) + " " + std::to_string(loops));
  }
};

// ------------------------------------------------------------------ unique_handle

struct coro
{
  struct promise_type
  {
    int * frames;
    promise_type(int & f, int &) : frames(&f) {f++;}
    ~promise_type() {--*frames;}
    coro get_return_object() {return {std::coroutine_handle<promise_type>::from_promise(*this)};}
    std::suspend_always initial_suspend() noexcept {return {};}
    std::suspend_always final_suspend() noexcept {return {};}
    void unhandled_exception() {}
    void return_void() {}
  };
  std::coroutine_handle<promise_type> h;
};
coro make_coro(int &, int & resumed)
{
  resumed++;
  co_await std::suspend_always();
  resumed++;
}

template<typename P>
struct handles
{
  static constexpr bool typed = !std::is_void_v<P>;
  using H = cobalt::unique_handle<P>;
  static H take(std::coroutine_handle<coro::promise_type> h, int how)
  {
    if constexpr (typed)
      switch (how)
      {
        case 0: return H(&h.promise());
        case 1: return H::from_promise(h.promise());
        default: return H::from_address(h.address());
      }
    else
      return how == 0 ? H(h.address()) : H::from_address(h.address());
  }

  static void run(int depth)
  {
    int frames[2] = {}, resumed[2] = {};
    bool alive[2] = {};
    int owner[2] = {-1, -1};        // of the slots: which coroutine
    std::coroutine_handle<coro::promise_type> raw[2];
    std::optional<H> h[2];
    h[0].emplace();
    h[1].emplace(nullptr);
    std::string trail;
    auto gone = [&](int i) {if (owner[i] >= 0) alive[owner[i]] = false; owner[i] = -1;};

    for (int d = 0; d < depth && !mc::failed(); d++)
    {
      const int i = mc::choose(2, "handle"), j = 1 - i;
      int what = mc::choose(14, "operation (owns a new coroutine, move construct, move assign, release, reset, reset to a new one, destroy(), resume as lvalue, call as lvalue, resume as rvalue, call as rvalue, destruct, assign nullptr, swap)");
      {mc::quiet q; trail += char('a' + what);}
      int fresh = !alive[0] ? 0 : !alive[1] ? 1 : -1;
      auto create = [&] {mc::quiet q; raw[fresh] = make_coro(frames[fresh], resumed[fresh]).h; resumed[fresh] = 0; alive[fresh] = true;};
      switch (what)
      {
        case 0:
          if (fresh < 0) return;
          create();
          h[i] = take(raw[fresh], mc::choose(typed ? 3 : 2, "from (its promise or address, from_promise, from_address)"));
          gone(i);
          owner[i] = fresh;
          break;
        case 1:
        {
          H tmp(std::move(*h[j]));
          MC_CHECK(!*h[j], "moved from, but not empty");
          h[i] = std::move(tmp);
          gone(i);
          owner[i] = std::exchange(owner[j], -1);
          break;
        }
        case 2:
          *h[i] = std::move(*h[j]);
          gone(i);
          owner[i] = std::exchange(owner[j], -1);
          break;
        case 3:
        {
          if (owner[i] < 0) return;
          auto r = h[i]->release();
          MC_CHECK(r.address() == raw[owner[i]].address(), "release returns another coroutine");
          MC_CHECK(frames[owner[i]] == 1, "release destroyed the coroutine");
          r.destroy();
          gone(i);
          break;
        }
        case 4: h[i]->reset(); gone(i); break;
        case 5:
          if (fresh < 0) return;
          create();
          if constexpr (typed) h[i]->reset(&raw[fresh].promise()); else h[i]->reset(raw[fresh].address());
          gone(i);
          owner[i] = fresh;
          break;
        case 6: h[i]->destroy(); gone(i); break;
        case 7:
        case 8:
        {
          if (owner[i] < 0 || raw[owner[i]].done()) return;
          const int n = resumed[owner[i]];
          if (what == 7) h[i]->resume(); else (*h[i])();
          MC_CHECK(resumed[owner[i]] == n + 1, "the coroutine wasn't resumed once");
          break;
        }
        case 9:
        case 10:
        {
          if (owner[i] < 0 || raw[owner[i]].done()) return;
          const int o = owner[i], n = resumed[o];
          if (what == 9) std::move(*h[i]).resume(); else std::move(*h[i])();
          MC_CHECK(resumed[o] == n + 1, "the coroutine wasn't resumed once");
          MC_CHECK(!*h[i], "resumed as an rvalue, but still owned");
          MC_CHECK(frames[o] == 1, "resuming destroyed the coroutine");
          raw[o].destroy();
          gone(i);
          break;
        }
        case 11: h[i].reset(); gone(i); h[i].emplace(); break;
        case 12: *h[i] = nullptr; gone(i); break;
        case 13:
          std::swap(*h[0], *h[1]);
          std::swap(owner[0], owner[1]);
          break;
      }
      for (int k = 0; k < 2 && !mc::failed(); k++)
      {
        MC_CHECK(frames[k] == alive[k], "coroutine %d is %s", k, frames[k] ? "still alive" : "destroyed although it's owned");
        MC_CHECK(bool(*h[k]) == (owner[k] >= 0), "the handle is %sempty", *h[k] ? "not " : "");
        MC_CHECK((*h[k] == nullptr) == (owner[k] < 0) && (*h[k] != nullptr) == (owner[k] >= 0), "comparison with nullptr");
        if (mc::failed() || owner[k] < 0)
          continue;
        MC_CHECK(h[k]->address() == raw[owner[k]].address(), "it has the address of another coroutine");
        MC_CHECK(h[k]->done() == raw[owner[k]].done(), "done() is wrong");
        if constexpr (typed)
          MC_CHECK(&h[k]->promise() == &raw[owner[k]].promise() && h[k]->get() == &raw[owner[k]].promise()
                && &**h[k] == h[k]->get() && h[k]->operator->() == h[k]->get(), "it has another promise");
        else
          MC_CHECK(h[k]->get() == raw[owner[k]].address(), "get() returns another coroutine");
      }
      mc::state(mc::mix(owner[0] * 3 + owner[1], resumed[0] * 4 + resumed[1]));
      mc::step();
    }
    {mc::quiet q; mc::outcome(trail);}
    h[0].reset();
    h[1].reset();
    if (!mc::failed())
      MC_CHECK(frames[0] == 0 && frames[1] == 0, "a coroutine is left");
  }
};
} // namespace

MC_MAIN()
{
  const bool th = mc::thorough();
  if (mc::property() == "F01")
  {
    for (auto k : {s_generator, s_lazy, s_promise, s_task_generator, s_noop_generator, s_noop_promise})
      for (auto c : {c_proc, c_promise, c_task, c_generator})
        mc::add(std::string(sources[k]) + "/" + consumers[c], [=]
        {
          std::optional<looper> l;
          const bool all = k == s_generator || k == s_lazy;
          {mc::quiet q; l.emplace(c, k, (c == c_proc && all ? 3 : 2) + th);}
          l->run();
          {mc::quiet q; l.reset();}
        });
  }
  else
  {
    mc::add("unique_handle<P>", [=] {handles<coro::promise_type>::run(th ? 6 : 5);});
    mc::add("unique_handle<void>", [=] {handles<void>::run(th ? 6 : 5);});
  }
}
