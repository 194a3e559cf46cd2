// op, use_op, deferred: every way an operation can complete, fail or be dropped; every signature & way to await it
#include "cob.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/asio/deferred.hpp>

using namespace cob;

namespace
{
// -------- flattening everything into a list of ints
using ints = std::vector<int>;
inline void flat(ints & r, const token & t) {r.push_back(t.v);}
inline void flat(ints & r, const mtoken & t) {r.push_back(t.v);}
inline void flat(ints & r, int i) {r.push_back(i);}
inline void flat(ints & r, error_code ec) {r.push_back(ec ? 1000 + ec.value() - 10000 : 0);}
inline void flat(ints & r, std::exception_ptr e) {r.push_back(e ? 1000 + error_id(e) : 0);}
template<typename ... T>
void flat(ints & r, const std::tuple<T...> & t) {std::apply([&](auto & ... a) {(flat(r, a), ...);}, t);}
inline std::string str(const ints & v)
{
  std::string s;
  for (auto i : v) s += (s.empty() ? "" : ",") + std::to_string(i);
  return "(" + s + ")";
}

template<typename T> T make_arg(int i, bool error)
{
  if constexpr (std::is_same_v<T, error_code>)
    return error ? user_code(i) : error_code{};
  else if constexpr (std::is_same_v<T, std::exception_ptr>)
    return error ? std::make_exception_ptr(my_error(i)) : nullptr;
  else
    return T{i};
}
template<typename ... T>
std::tuple<T...> make(int i, bool error) {return std::tuple<T...>{make_arg<T>(i++, error)...};}

template<typename First = void, typename ...>
constexpr bool has_error = std::is_same_v<First, error_code> || std::is_same_v<First, std::exception_ptr>;

enum mode {pending, ready, immediate, immediate2, posted, throws, then_pending, then_immediate, then_throws, n_modes};
const char * modes[] = {"pending", "ready", "immediately", "immediately with an intermediate one", "posted", "initiation throws", "pending after an immediate intermediate one", "pending, then dispatches on the immediate executor", "throws in an immediate intermediate one"};

template<typename ... A>
struct runner
{
  struct stage
  {
    int no = 0;
    mode m = pending;
    bool is_throw() const {return m == throws || m == then_throws;}
    bool error = false;
    int initiated = 0, asked = 0, resumed = 0, cancels = 0;
    bool completed = false;
    ints got, expected;           // what came out of the await
    bool got_error = false;
    int api = 0;
    std::optional<cobalt::completion_handler<A...>> h;
  };
  world w;
  stage st[2];
  int frames = 0;
  bool finished = false, abandoned = false, in_await = false;
  int depth = 0;
  std::string trail;
  asio::cancellation_type last{};
  proc_state ps{w};
  static constexpr bool fallible = has_error<A...>;

  stage & cur() {return st[st[0].completed && !in_first ? 1 : 0];}
  bool in_first = true;

  void complete(stage & s, cobalt::completion_handler<A...> h)
  {
    std::apply([&](auto && ... a) {std::move(h)(std::move(a)...);}, make<A...>(10 * (s.no + 1), s.error));
  }
  template<typename Ex>
  void dispatch(Ex ex, stage & s, cobalt::completion_handler<A...> h)
  {
    asio::dispatch(ex, [this, &s, h = std::move(h)]() mutable {complete(s, std::move(h));});
  }
  void keep(stage & s, cobalt::completion_handler<A...> h)
  {
    MC_CHECK(!s.h, "initiated again");
    {mc::quiet q; s.h.emplace(std::move(h));}
    auto slot = s.h->get_cancellation_slot();
    if (slot.is_connected())
      slot.assign([this, &s](asio::cancellation_type ct) {s.cancels++; last = ct;});
  }
  cobalt::completion_handler<A...> take(stage & s)
  {
    auto slot = s.h->get_cancellation_slot();
    if (slot.is_connected())
      slot.clear();
    auto h = std::move(*s.h);
    s.h.reset();
    return h;
  }
  void decide(stage & s)
  {
    if (s.asked++)
      return;
    s.m = (mode)mc::choose(n_modes, "the operation completes (later, ready, immediately, immediately with an intermediate one, posted, initiation throws, ...)");
    if (fallible && !s.is_throw())
      s.error = mc::choose(2, "it succeeds/fails");
    trail += char('a' + s.m);
    if (s.error)
      trail += '!';
  }
  void on_ready(stage & s, cobalt::handler<A...> h)
  {
    decide(s);
    // cobalt::handler copies
    if constexpr ((std::is_copy_constructible_v<A> && ...))
      if (s.m == ready)
        std::apply([&](auto && ... a) {h(std::move(a)...);}, make<A...>(10 * (s.no + 1), s.error));
  }
  void on_initiate(stage & s, cobalt::completion_handler<A...> h)
  {
    decide(s);
    if (s.m == ready)    // not asked whether it's ready
      s.m = immediate;
    s.initiated++;
    MC_CHECK(s.initiated == 1, "operation %d is initiated again", s.no);
    MC_CHECK(h.get_executor() == cobalt::executor(w.ctx.get_executor()), "the handler has another executor");
    switch (s.m)
    {
      case immediate:
        dispatch(asio::get_associated_immediate_executor(h, h.get_executor()), s, std::move(h));
        break;
      case immediate2:
      {
        auto ex = asio::get_associated_immediate_executor(h, h.get_executor());
        asio::dispatch(ex, [this, ex, &s, h = std::move(h)]() mutable {dispatch(ex, s, std::move(h));});
        break;
      }
      case posted:
      {
        auto ex = h.get_executor();
        // uses the memory of the handler
        auto alloc = h.get_allocator();
        asio::post(ex, asio::bind_allocator(alloc, [this, &s, h = std::move(h)]() mutable {complete(s, std::move(h));}));
        break;
      }
      case throws:
        throw my_error(77);
      case then_throws:
      {
        auto ex = asio::get_associated_immediate_executor(h, h.get_executor());
        asio::dispatch(ex, [h = std::move(h)]() mutable {throw my_error(77);});
        break;
      }
      case then_pending:
      {
        auto ex = asio::get_associated_immediate_executor(h, h.get_executor());
        asio::dispatch(ex, [this, &s, h = std::move(h)]() mutable {keep(s, std::move(h));});
        break;
      }
      default:
        keep(s, std::move(h));
    }
    MC_CHECK(s.resumed == 0, "the coroutine was resumed from within the initiation");
  }

  struct my_op final : cobalt::op<A...>
  {
    runner & r; stage & s;
    my_op(runner & r, stage & s) : r(r), s(s) {}
    void ready(cobalt::handler<A...> h) override {r.on_ready(s, std::move(h));}
    void initiate(cobalt::completion_handler<A...> h) override {r.on_initiate(s, std::move(h));}
  };
  template<typename Token>
  auto async_it(stage & s, Token && token)
  {
    return asio::async_initiate<Token, void(A...)>(
        [this, &s](auto h, mtoken t)
        {
          MC_CHECK(t.v == 5, "the arguments of the initiation are gone");
          on_initiate(s, std::move(h));
        }, token, mtoken{5});
  }

  void resumed(stage & s, bool error)
  {
    in_await = false;
    s.resumed++;
    s.completed = true;
    s.got_error = error;
    MC_CHECK(s.resumed == 1, "resumed again");
    // cleared immediately, so nothing is left that could be invoked
    MC_CHECK(!s.h, "resumed while the operation is still pending");
    ints exp;
    if (s.is_throw())
      exp = {1077};
    else
    {
      flat(exp, make<A...>(10 * (s.no + 1), s.error));
      if (s.api != 2 && fallible)
      {
        if (s.error)
          exp.resize(1);
        else
          exp.erase(exp.begin());
      }
    }
    MC_CHECK(error == (s.is_throw() || (s.error && s.api != 2)), "the error was %sreported", error ? "" : "not ");
    MC_CHECK(s.got == exp, "the await yields %s instead of %s", str(s.got).c_str(), str(exp).c_str());
    mc::quiet q;
    trail += str(s.got);
  }
  template<typename V>
  void store(stage & s, V && v) {mc::quiet q; flat(s.got, v);}
  void store_error(stage & s, std::exception_ptr e) {mc::quiet q; s.got = {1000 + error_id(e)};}

  template<typename Mk>
  auto body_of(Mk mk) {return mk;}

#define BODY(Await)                                                                        \
    for (auto & s : st)                                                                    \
    {                                                                                      \
      in_await = true;                                                                     \
      if (&s == &st[1]) in_first = false;                                                  \
      s.api = Await == 2 ? 0 : mc::choose(3, "await (plain, as_result, as_tuple)");        \
      bool error = false;                                                                  \
      try                                                                                  \
      {                                                                                    \
        if (s.api == 0)                                                                    \
        {                                                                                  \
          if constexpr (std::is_void_v<decltype(cobalt::interpret_as_result(std::declval<std::tuple<A...>>()).value())>) \
          {                                                                                \
            if constexpr (Await == 0)      co_await my_op(*this, s);                       \
            else if constexpr (Await == 1) co_await async_it(s, cobalt::use_op);           \
            else                           co_await async_it(s, asio::deferred);           \
          }                                                                                \
          else                                                                             \
          {                                                                                \
            if constexpr (Await == 0)      store(s, co_await my_op(*this, s));             \
            else if constexpr (Await == 1) store(s, co_await async_it(s, cobalt::use_op)); \
            else                           store(s, co_await async_it(s, asio::deferred)); \
          }                                                                                \
        }                                                                                  \
        else if constexpr (Await == 0 || Await == 1)                                       \
        {                                                                                  \
          if (s.api == 1)                                                                  \
          {                                                                                \
            if constexpr (Await == 0) {auto r = co_await cobalt::as_result(my_op(*this, s)); unpack(s, error, r);}              \
            else                      {auto r = co_await cobalt::as_result(async_it(s, cobalt::use_op)); unpack(s, error, r);}  \
          }                                                                                \
          else                                                                             \
          {                                                                                \
            if constexpr (Await == 0) {auto t = co_await cobalt::as_tuple(my_op(*this, s)); store(s, t);}             \
            else                      {auto t = co_await cobalt::as_tuple(async_it(s, cobalt::use_op)); store(s, t);} \
          }                                                                                \
        }                                                                                  \
      }                                                                                    \
      catch (...)                                                                          \
      {                                                                                    \
        error = true;                                                                      \
        store_error(s, std::current_exception());                                          \
      }                                                                                    \
      resumed(s, error);                                                                   \
    }                                                                                      \
    finished = true;

  template<typename R>
  void unpack(stage & s, bool & error, R & r)
  {
    if (r.has_error())
    {
      error = true;
      mc::quiet q;
      flat(s.got, r.error());
    }
    else if constexpr (!std::is_void_v<typename R::value_type>)
      store(s, *r);
  }

  template<int Await>
  cobalt::promise<void> as_promise(life_guard) {co_await cobalt::this_coro::throw_if_cancelled(false); BODY(Await)}
  template<int Await>
  cobalt::task<void> as_task(life_guard) {co_await cobalt::this_coro::throw_if_cancelled(false); BODY(Await)}
  template<int Await>
  proc as_proc(proc_state &, life_guard) {BODY(Await)}

  template<int Await, int Coro>
  void run()
  {
    st[1].no = 1;
    std::optional<cobalt::promise<void>> p;
    asio::cancellation_signal sig;
    int spawned = 0;
    auto live = pstats.live;
    if constexpr (Coro == 0)
      p.emplace(as_promise<Await>(life_guard(frames)));
    else if constexpr (Coro == 1)
      cobalt::spawn(w.ctx.get_executor(), as_task<Await>(life_guard(frames)),
          asio::bind_cancellation_slot(sig.slot(), [&](std::exception_ptr e) {spawned++; MC_CHECK(!e, "the task failed");}));
    else
      as_proc<Await>(ps, life_guard(frames));

    int steps = 0, cancels = 0;
    while (!mc::failed() && !finished && !abandoned)
    {
      MC_CHECK(frames == 1, "%d frames alive", frames);
      stage * pend = st[0].h ? &st[0] : st[1].h ? &st[1] : nullptr;
      mc::state(mc::mix(st[0].m * 64 + st[1].m * 8 + (pend == &st[0]) + 2 * (pend == &st[1]), cancels + 4 * st[0].error + 8 * st[1].error));
      if (!pend)
      {
        // something must be scheduled
        if (!w.poll_one())
          mc::fail("the coroutine isn't resumed, although no operation is pending");
        MC_CHECK(++steps < 50, "livelock");
        continue;
      }
      mc::step();
      switch (mc::choose(cancels ? 4 : 5, "event (completes, completes through the executor, abandoned, run a handler, cancel)"))
      {
        case 0:
        case 1:
        {
          auto & s = *pend;
          int n = mc::choose(s.m == then_immediate ? 2 : 1, "completes from (outside, a handler of the event loop)");
          auto go = [this, &s]
          {
            auto h = take(s);
            if (s.m == then_immediate)
            {
              auto ex = asio::get_associated_immediate_executor(h, h.get_executor());
              dispatch(ex, s, std::move(h));
              MC_CHECK(!s.resumed, "dispatching to the immediate executor outside of the initiation must not resume the coroutine right away");
            }
            else
              complete(s, std::move(h));
          };
          if (n)
          {
            asio::post(w.ctx, go);
            w.poll_one();
          }
          else
            go();
          break;
        }
        case 2:
        {
          trail += "#";
          abandoned = true;
          auto h = take(*pend);
          (void)h;
          break;
        }
        case 3:
          if (!w.poll_one())
            return mc::outcome("nothing to do");
          break;
        case 4:
        {
          cancels++;
          trail += "c";
          if constexpr (Coro == 0)
            p->cancel(asio::cancellation_type::terminal);
          else if constexpr (Coro == 1)
            sig.emit(asio::cancellation_type::terminal);
          else
            ps.signal.emit(asio::cancellation_type::terminal);
          if constexpr (Coro == 1)
            w.drain();
          MC_CHECK(pend->cancels == 1, "the cancellation of the coroutine didn't reach the operation");
        }
      }
    }
    if (mc::failed())
      return;
    w.drain();
    MC_CHECK(frames == 0, "the frame of the coroutine isn't destroyed");
    if (Coro == 1)
      MC_CHECK(spawned == (abandoned ? 0 : 1), "the task completed %d times", spawned);
    p.reset();
    MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
    mc::outcome(trail);
  }
};

template<int Await, int Coro, typename ... A>
void add(const char * sig)
{
  const char * aw[] = {"op", "use_op", "deferred"};
  const char * co[] = {"promise", "spawned task", "foreign coroutine"};
  mc::add(std::string(aw[Await]) + "/" + co[Coro] + "/" + sig, []
  {
    std::optional<runner<A...>> r;
    {mc::quiet q; r.emplace();}
    r->template run<Await, Coro>();
    {mc::quiet q; r.reset();}
  });
}
template<int Await, int Coro>
void add_sigs()
{
  add<Await, Coro>("()");
  add<Await, Coro, error_code>("(error_code)");
  add<Await, Coro, std::exception_ptr, token>("(exception_ptr,T)");
  add<Await, Coro, error_code, mtoken>("(error_code,T)");
  if (Coro == 0)
  {
    add<Await, Coro, std::exception_ptr>("(exception_ptr)");
    add<Await, Coro, token>("(T)");
    add<Await, Coro, mtoken, int>("(T,int)");
    add<Await, Coro, error_code, token, int>("(error_code,T,int)");
  }
}
}

MC_MAIN()
{
  add_sigs<0, 0>();
  add_sigs<0, 1>();
  add_sigs<0, 2>();
  add_sigs<1, 0>();
  add_sigs<1, 1>();
  add_sigs<1, 2>();
  add_sigs<2, 0>();
  add_sigs<2, 1>();
}
