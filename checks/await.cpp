// Everything that is awaitable can be awaited in every way by every kind of coroutine, with the same outcome: it is asked
// whether it's ready, suspends and resumes the awaiter exactly once, and its values or its error are delivered unchanged.
#include "cob.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/async_for.hpp>
#include <boost/cobalt/noop.hpp>
#if defined(STACKFUL)
#include <boost/asio/spawn.hpp>
#include <boost/cobalt/experimental/context.hpp>
#include <boost/cobalt/experimental/yield_context.hpp>
#endif

using namespace cob;

namespace
{
// -------- flattening everything into a list of ints
using ints = std::vector<int>;
void flat(ints & r, const token & t) {r.push_back(t.v);}
void flat(ints & r, const mtoken & t) {r.push_back(t.v);}
void flat(ints & r, int i) {r.push_back(i);}
void flat(ints & r, std::exception_ptr e) {if (e) r.push_back(1000 + error_id(e));}
void flat(ints &, std::monostate) {}
void flat(ints &, boost::variant2::monostate) {}
void flat(ints &, std::size_t) {}                    // the index of an all-void race
template<typename ... T> void flat(ints & r, const std::tuple<T...> & t);
template<typename ... T> void flat(ints & r, const boost::variant2::variant<T...> & t);
template<typename T, typename E> void flat(ints & r, const boost::system::result<T, E> & t);
template<typename T, typename A> void flat(ints & r, const std::vector<T, A> & t) {for (auto & x : t) flat(r, x);}
template<typename T> void flat(ints & r, const std::pair<std::size_t, T> & t) {flat(r, t.second);}
template<typename ... T>
void flat(ints & r, const std::tuple<T...> & t) {std::apply([&](auto & ... a) {(flat(r, a), ...);}, t);}
// the rest doesn't matter in case of an error
template<typename ... T>
void flat(ints & r, const std::tuple<std::exception_ptr, T...> & t)
{
  if (std::get<0>(t))
    flat(r, std::get<0>(t));
  else
    std::apply([&](auto &, auto & ... a) {(flat(r, a), ...);}, t);
}
template<typename ... T>
void flat(ints & r, const boost::variant2::variant<T...> & t) {boost::variant2::visit([&](auto & x) {flat(r, x);}, t);}
template<typename T, typename E>
void flat(ints & r, const boost::system::result<T, E> & t)
{
  if (t.has_error())
    flat(r, t.error());
  else if constexpr (!std::is_void_v<T>)
    flat(r, *t);
}
std::string str(const ints & v)
{
  std::string s;
  for (auto i : v) s += (s.empty() ? "" : ",") + std::to_string(i);
  return "(" + s + ")";
}

// -------- an awaitable of every shape
enum suspend {s_void, s_bool, s_handle, s_promise_handle};
enum access {direct, lvalue, member, const_member, lvalue_member, free_function};
enum when {ready, pending, at_once, inside, transferred, transferred_back, ready_throws, suspend_throws, n_when};
const char * whens = "the awaitable is (ready, pending, not suspending, resumed while it suspends, transfers to another coroutine, transfers to one that resumes the awaiter, throws when asked, throws when it suspends)";

struct other   // the coroutine that gets resumed by a symmetric transfer
{
  struct promise_type
  {
    other get_return_object() {return {std::coroutine_handle<promise_type>::from_promise(*this)};}
    std::suspend_always initial_suspend() noexcept {return {};}
    std::suspend_never final_suspend() noexcept {return {};}
    void unhandled_exception() {}
    void return_void() {}
  };
  std::coroutine_handle<promise_type> h;
};

struct state
{
  when w = pending;
  bool error = false;
  int value = 0;
  bool decided = false;
  int n_ready = 0, n_suspend = 0, n_resume = 0, n_other = 0;
  int copies = 0, copied = 0;                        // of the awaitable
  cobalt::unique_handle<void> h{nullptr};
};

other make_other(state & s, bool resumes)
{
  s.n_other++;
  if (resumes)
    s.h.release().resume();
  co_return;
}

// counts itself
template<typename R, suspend S, bool Noexcept>
struct aw
{
  state * s;
  explicit aw(state & s) : s(&s) {s.copies++;}
  aw(aw && r) noexcept : s(r.s) {s->copies++;}
  // co_await never copies what's awaited
  aw(const aw & r) : s(r.s) {s->copies++; s->copied++;}
  ~aw() {s->copies--;}

  void decide()
  {
    if (std::exchange(s->decided, true))
      return;
    s->w = (when)mc::choose(n_when, whens);
    // what this shape can't do
    if (S == s_void && s->w == at_once) s->w = inside;
    if (S != s_handle && S != s_promise_handle && (s->w == transferred || s->w == transferred_back)) s->w = pending;
    if (S == s_promise_handle && s->w != transferred && s->w != transferred_back && s->w != ready && s->w != ready_throws && s->w != suspend_throws) s->w = transferred;
    if (!Noexcept && s->w != ready_throws && s->w != suspend_throws)
      s->error = mc::choose(2, "it (succeeds, fails)");
  }
  bool await_ready()
  {
    s->n_ready++;
    decide();
    if (s->w == ready_throws)
      throw my_error(70);
    return s->w == ready;
  }
  template<typename P>
  auto await_suspend(std::coroutine_handle<P> h)
  {
    s->n_suspend++;
    auto & st = *s;      // resuming may destroy this
    if (st.w == suspend_throws)
      throw my_error(71);
    if (st.w != at_once)
      st.h.reset(h.address());
    if (st.w == inside && S != s_handle)
      st.h.release().resume();
    if constexpr (S == s_bool)
      return st.w != at_once;
    else if constexpr (S == s_handle)
    {
      if (st.w == at_once || st.w == inside)
      {
        st.h.release();
        return std::coroutine_handle<void>::from_address(h.address());
      }
      if (st.w == transferred || st.w == transferred_back)
        return std::coroutine_handle<void>(make_other(st, st.w == transferred_back).h);
      return std::coroutine_handle<void>(std::noop_coroutine());
    }
    else if constexpr (S == s_promise_handle)
      return make_other(st, st.w == transferred_back).h;
  }
  R await_resume() noexcept(Noexcept)
  {
    s->n_resume++;
    if constexpr (!Noexcept)
      if (s->error)
        throw my_error(72);
    if constexpr (!std::is_void_v<R>)
      return make(static_cast<R*>(nullptr));
  }
 private:
  template<typename T> T make(T *) {return T{s->value};}
  template<typename ... T> std::tuple<T...> make(std::tuple<T...> *) {return std::tuple<T...>{T{s->value}...};}
};

// what's passed to co_await
template<typename A, access X> struct source;
template<typename A> struct source<A, member> {state * s; A operator co_await() && {return A(*s);}};
template<typename A> struct source<A, const_member> {state * s; A operator co_await() const {return A(*s);}};
template<typename A> struct source<A, lvalue_member> {state * s; A operator co_await() & {return A(*s);}};
template<typename A> struct source<A, free_function> {state * s; friend A operator co_await(source && x) {return A(*x.s);}};

enum form {plain, result, tuple, result_tuple, tuple_result, race_, left_race_, join_, gather_, race_result, race_tuple, join_result, gather_tuple,
           ranged_race, ranged_join, ranged_gather, n_forms};
const char * forms = "awaited (plainly, as_result, as_tuple, as_result of as_tuple, as_tuple of as_result, in a race, in a left_race, in a join, in a gather, race of as_result, race of as_tuple, join of as_result, gather of as_tuple, race of a range, join of a range, gather of a range)";
const char * form_names[] = {"plain", "as_result", "as_tuple", "as_result(as_tuple)", "as_tuple(as_result)", "race", "left_race", "join", "gather", "race(as_result)", "race(as_tuple)", "join(as_result)", "gather(as_tuple)",
           "race(range)", "join(range)", "gather(range)"};

enum awaiter {a_proc, a_promise, a_task, a_generator, a_detached, a_context_task, a_context_generator, a_context_promise, a_yield};
const char * awaiters[] = {"foreign coroutine", "promise", "task", "generator", "detached",
                           "stackful task", "stackful generator", "stackful promise", "asio stackful coroutine"};

struct random_bits
{
  using result_type = std::uint32_t;
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return 0xFFFFFFFFu;}
  result_type operator()() {return 1000;}
};

template<typename R, suspend S, bool Noexcept, access X>
struct runner
{
  using A = aw<R, S, Noexcept>;
  static constexpr bool has_forms = true;
  static constexpr bool rvalue = X == direct || X == member || X == free_function;

  awaiter a;
  int stages;
  state st[2];
  form f[2] = {};
  int frames = 0;
  bool finished = false, threw[2] = {false, false}, in_await = false;
  int cur = 0, over = 0;
  ints got[2];

  world w;
  proc_state ps{w};
  std::optional<cobalt::promise<void>> p;
  std::optional<cobalt::generator<int>> g;

  runner(awaiter a, int stages) : a(a), stages(stages) {for (int i = 0; i < 2; i++) st[i].value = 10 * (i + 1);}
  life_guard lg() {return life_guard(frames);}

  struct in_scope   // the awaiting scope; destroyed when the awaiter is
  {
    runner & r;
    in_scope(runner & r) : r(r) {}
    ~in_scope() {r.over++;}
  };

#define GOT(...) {auto r_ = __VA_ARGS__; {mc::quiet q; flat(got[i], r_);}}
#define CO(Aw, x)                                                                                        \
      switch (f[i])                                                                                      \
      {                                                                                                  \
        case plain:                                                                                      \
          if constexpr (std::is_void_v<R>) Aw(std::forward<decltype(x)>(x)); else GOT(Aw(std::forward<decltype(x)>(x))); break;   \
        case result:       GOT(Aw(cobalt::as_result(std::forward<decltype(x)>(x)))); break;              \
        case tuple:        GOT(Aw(cobalt::as_tuple(std::forward<decltype(x)>(x)))); break;               \
        case result_tuple: GOT(Aw(cobalt::as_result(cobalt::as_tuple(std::forward<decltype(x)>(x))))); break;   \
        case tuple_result: GOT(Aw(cobalt::as_tuple(cobalt::as_result(std::forward<decltype(x)>(x))))); break;   \
        case race_:        GOT(Aw(cobalt::race(random_bits{}, std::forward<decltype(x)>(x)))); break;    \
        case left_race_:   GOT(Aw(cobalt::left_race(std::forward<decltype(x)>(x)))); break;              \
        case join_:                                                                                      \
          if constexpr (std::is_void_v<R>) Aw(cobalt::join(std::forward<decltype(x)>(x))); else GOT(Aw(cobalt::join(std::forward<decltype(x)>(x)))); break; \
        case gather_:      GOT(Aw(cobalt::gather(std::forward<decltype(x)>(x)))); break;                 \
        case race_result:  GOT(Aw(cobalt::race(random_bits{}, cobalt::as_result(std::forward<decltype(x)>(x))))); break;   \
        case race_tuple:   GOT(Aw(cobalt::race(random_bits{}, cobalt::as_tuple(std::forward<decltype(x)>(x))))); break;    \
        case join_result:  GOT(Aw(cobalt::join(cobalt::as_result(std::forward<decltype(x)>(x))))); break;       \
        case gather_tuple: GOT(Aw(cobalt::gather(cobalt::as_tuple(std::forward<decltype(x)>(x))))); break;      \
        default: if constexpr (X == direct) {                                                            \
          std::vector<std::remove_cvref_t<decltype(x)>> v;                                               \
          {mc::quiet q; v.push_back(std::move(x));}                                                      \
          if (f[i] == ranged_race) {GOT(Aw(cobalt::race(random_bits{}, std::move(v))));}                 \
          else if (f[i] == ranged_gather) {GOT(Aw(cobalt::gather(std::move(v))));}                       \
          else if constexpr (std::is_void_v<R>) Aw(cobalt::join(std::move(v)));                          \
          else GOT(Aw(cobalt::join(std::move(v))));                                                      \
        } break;                                                                                         \
      }

#define BODY(Aw)                                                                                         \
    in_scope sc{*this};                                                                                  \
    for (int i = 0; i < stages; i++)                                                                     \
    {                                                                                                    \
      cur = i;                                                                                           \
      f[i] = (form)mc::choose(X == direct ? (int)n_forms : (int)ranged_race, forms);                     \
      in_await = true;                                                                                   \
      try                                                                                                \
      {                                                                                                  \
        if constexpr (X == direct)       {A x(st[i]); CO(Aw, std::move(x))}                              \
        else if constexpr (X == lvalue)  {A x(st[i]); auto & y = x; CO(Aw, y)}                           \
        else if constexpr (X == lvalue_member) {source<A, X> x{&st[i]}; auto & y = x; CO(Aw, y)}         \
        else                             {source<A, X> x{&st[i]}; CO(Aw, std::move(x))}                  \
      }                                                                                                  \
      catch (my_error & e) {threw[i] = true; mc::quiet q; got[i] = {1000 + e.id};}                       \
      after(i);                                                                                          \
    }                                                                                                    \
    finished = true;
#define CO_AWAIT(...) (co_await __VA_ARGS__)

  void after(int i)
  {
    auto & s = st[i];
    in_await = false;
    const bool early = s.w == ready_throws || s.w == suspend_throws;
    ints exp;
    if (early)
      exp = {1070 + (s.w == suspend_throws)};
    else if (s.error)
      exp = {1072};
    else if constexpr (std::is_same_v<R, std::tuple<token, int>>)
      exp = {s.value, s.value};
    else if constexpr (!std::is_void_v<R>)
      exp = {s.value};
    MC_CHECK(got[i] == exp, "awaited as %s it yields %s instead of %s", form_names[f[i]], str(got[i]).c_str(), str(exp).c_str());
    if (s.error)   // as an error, not an exception?
    {
      const bool throws = f[i] == plain || f[i] == race_ || f[i] == left_race_ || f[i] == join_ || f[i] == ranged_race || f[i] == ranged_join;
      MC_CHECK(threw[i] == throws, "awaited as %s the error is %sthrown", form_names[f[i]], throws ? "not " : "");
    }
    else if (!early)
      MC_CHECK(!threw[i], "an exception without an error");
    MC_CHECK(s.n_ready == 1, "await_ready was invoked %d times", s.n_ready);
    MC_CHECK(s.n_suspend == (s.w != ready && s.w != ready_throws), "await_suspend was invoked %d times", s.n_suspend);
    MC_CHECK(s.n_resume == !early, "await_resume was invoked %d times", s.n_resume);
    MC_CHECK(s.n_other == (s.w == transferred || s.w == transferred_back), "the coroutine that's transferred to was resumed %d times", s.n_other);
    MC_CHECK(!s.h, "resumed although it's pending");
    MC_CHECK(s.copies == 0, "%d awaitables are left", s.copies);
    MC_CHECK(s.copied == 0, "awaited as %s the awaitable was copied", form_names[f[i]]);
    mc::quiet q;
    got[i].clear();
  }

  proc as_proc(proc_state &, life_guard) {BODY(CO_AWAIT)}
  cobalt::promise<void> as_promise(life_guard) {BODY(CO_AWAIT)}
  cobalt::task<void> as_task(life_guard) {BODY(CO_AWAIT)}
  cobalt::generator<int> as_generator(life_guard) {BODY(CO_AWAIT) co_return 0;}
  cobalt::detached as_detached(life_guard) {BODY(CO_AWAIT)}
#if defined(STACKFUL)
#define CTX_AWAIT(...) ctx.await(__VA_ARGS__)
#define YIELD_AWAIT(...) cobalt::experimental::await(__VA_ARGS__, yc)
  template<typename C> void stackful(C ctx, life_guard) {BODY(CTX_AWAIT)}
  void with_yield(asio::yield_context yc, life_guard) {BODY(YIELD_AWAIT)}
#endif

  void start()
  {
    switch (a)
    {
      case a_proc: as_proc(ps, lg()); break;
      case a_promise: {auto x = as_promise(lg()); mc::quiet q; p.emplace(std::move(x));} break;
      case a_task: cobalt::spawn(w.ctx.get_executor(), as_task(lg()), [](std::exception_ptr e) {MC_CHECK(!e, "the task failed");}); break;
      case a_generator: {auto x = as_generator(lg()); mc::quiet q; g.emplace(std::move(x));} break;
      case a_detached: as_detached(lg()); break;
      default:;
#if defined(STACKFUL)
      case a_context_task:
        cobalt::spawn(w.ctx.get_executor(), cobalt::experimental::make_context<cobalt::task<void>>([this](auto c) {stackful(c, lg());}),
            [](std::exception_ptr e) {MC_CHECK(!e, "the task failed");});
        break;
      case a_context_promise:
      {
        cobalt::promise<void> x = cobalt::experimental::make_context<cobalt::promise<void>>([this](auto c) {stackful(c, lg());});
        mc::quiet q; p.emplace(std::move(x));
        break;
      }
      case a_context_generator:
      {
        cobalt::generator<int> x = cobalt::experimental::make_context<cobalt::generator<int>>([this](auto c) {stackful(c, lg()); return 0;});
        mc::quiet q; g.emplace(std::move(x));
        break;
      }
      case a_yield:
        asio::spawn(w.ctx, [this](asio::yield_context y) {with_yield(y, lg());}, [](std::exception_ptr e) {MC_CHECK(!e, "the coroutine failed");});
        break;
#endif
    }
  }

  void run()
  {
    start();
    w.drain();
    int ev = 0;
    bool gone = false;
    while (!mc::failed() && !finished && !gone)
    {
      MC_CHECK(in_await, "the awaiter is suspended without awaiting anything");
      auto & s = st[cur];
      MC_CHECK(!!s.h, "the awaiter isn't resumed");
      if (mc::failed())
        break;
      mc::state(mc::mix(cur * 1000 + f[0] * 32 + f[1], s.w * 4 + s.error));
      ev++;
      mc::step();
      switch (mc::choose(3, "event (resumed, resumed by a handler, destroyed)"))
      {
        case 0: s.h.release().resume(); break;
        case 1: asio::post(w.ctx, [&s] {s.h.release().resume();}); break;
        case 2:
          gone = true;
          s.h.reset();
          break;
      }
      w.drain();
    }
    if (!mc::failed())
    {
      MC_CHECK(over == 1, "the awaiting scope was left %d times", over);
      for (auto & s : st)
        MC_CHECK(s.copies == 0, "%d awaitables are left", s.copies);
    }
    p.reset();
    g.reset();
    w.drain();
    if (!mc::failed())
      MC_CHECK(frames == 0, "%d frames are left", frames);
    {
      mc::quiet q;
      std::string o;
      for (int i = 0; i <= cur; i++)
        o += std::string(form_names[f[i]]) + "/" + std::to_string(st[i].w) + (st[i].error ? "!" : "") + (gone && i == cur ? "x " : " ");
      mc::outcome(o);
    }
  }
};

template<typename R, suspend S, bool Noexcept, access X>
void add(const char * name, std::initializer_list<awaiter> as)
{
  for (auto a : as)
    for (int stages : {1, 2})
    {
      if (stages == 2 && !mc::thorough())
        continue;
      mc::add(std::string(awaiters[a]) + "/" + name + "/awaits=" + std::to_string(stages), [=]
      {
        std::optional<runner<R, S, Noexcept, X>> r;
        {mc::quiet q; r.emplace(a, stages);}
        r->run();
        {mc::quiet q; r.reset();}
      });
    }
}
} // namespace

MC_MAIN()
{
#if defined(STACKFUL)
#if PART == 0
  add<token, s_bool, false, direct>("value, bool", {a_context_task, a_context_promise});
  add<void, s_void, false, direct>("void, void", {a_context_generator});
#elif PART == 1
  add<token, s_bool, false, direct>("value, bool", {a_yield, a_context_generator});
  add<token, s_handle, true, member>("noexcept value, handle, member", {a_context_promise});
#else
  add<void, s_void, false, direct>("void, void", {a_yield});
  add<token, s_handle, false, lvalue>("value, handle, lvalue", {a_yield});
  add<mtoken, s_void, false, free_function>("move only, void, free function", {a_yield, a_context_task});
#endif
#elif PART == 0
  add<token, s_bool, false, direct>("value, bool", {a_proc, a_promise, a_task, a_generator, a_detached});
#elif PART == 1
  add<void, s_void, false, direct>("void, void", {a_proc, a_promise});
  add<mtoken, s_handle, false, direct>("move only, handle", {a_proc, a_generator});
#elif PART == 2
  add<token, s_bool, true, direct>("noexcept value, bool", {a_proc});
  add<void, s_handle, true, direct>("noexcept void, handle", {a_proc, a_detached});
  add<std::tuple<token, int>, s_bool, false, direct>("tuple, bool", {a_promise});
  add<token, s_promise_handle, false, direct>("value, handle of a promise", {a_task});
#elif PART == 3
  add<token, s_handle, false, lvalue>("value, handle, lvalue", {a_proc, a_task});
  add<void, s_bool, false, lvalue>("void, bool, lvalue", {a_promise});
  add<token, s_bool, false, member>("value, bool, member", {a_promise});
  add<void, s_bool, true, member>("noexcept void, bool, member", {a_proc});
#else
  add<mtoken, s_bool, false, const_member>("move only, bool, const member", {a_generator});
  add<token, s_void, false, free_function>("value, void, free function", {a_proc, a_promise});
  add<void, s_handle, false, lvalue_member>("void, handle, lvalue member", {a_proc, a_detached});
#endif
}
