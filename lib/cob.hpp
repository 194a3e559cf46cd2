// Controlled environment for driving boost.cobalt: a world owns the (single threaded) executor the code under test runs
// on, and gives the explorer control over the order of everything that can happen.
#pragma once
#include "mc.hpp"

#include <boost/cobalt/config.hpp>
#include <boost/cobalt/this_thread.hpp>
#include <boost/cobalt/this_coro.hpp>
#include <boost/cobalt/error.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/dispatch.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/append.hpp>
#include <boost/asio/executor_work_guard.hpp>
#include <boost/asio/cancellation_signal.hpp>

#include <coroutine>
#include <deque>
#include <exception>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

namespace cob
{
namespace asio = boost::asio;
namespace cobalt = boost::cobalt;
using boost::system::error_code;

// ------------------------------------------------------------------ payload that knows how often it exists

struct payload_stats
{
  long live = 0;
};
inline payload_stats pstats;

struct token // copyable, leak-counted, use-after-move detecting
{
  int v;
  token(int v = -1) : v(v) {pstats.live++;}
  token(const token & r) : v(r.v) {pstats.live++;}
  token(token && r) noexcept : v(r.v) {r.v = -2; pstats.live++;}
  token & operator=(const token & r) {v = r.v; return *this;}
  token & operator=(token && r) noexcept {auto x = r.v; r.v = -2; v = x; return *this;}
  ~token() {pstats.live--; v = -3;}
};
struct mtoken // move only
{
  int v;
  mtoken(int v = -1) : v(v) {pstats.live++;}
  mtoken(mtoken && r) noexcept : v(r.v) {r.v = -2; pstats.live++;}
  mtoken & operator=(mtoken && r) noexcept {auto x = r.v; r.v = -2; v = x; return *this;}
  ~mtoken() {pstats.live--; v = -3;}
};

// what error_id() reports
enum : int {e_aborted = -2, e_closed = -3, e_other = -4, e_moved = -10, e_detached = -11, e_unexpected = -12,
            e_not_ready = -13, e_already_awaited = -14, e_alloc = -15};

struct my_error : std::runtime_error
{
  int id;
  my_error(int id) : std::runtime_error("my_error " + std::to_string(id)), id(id) {}
};

inline int error_id(std::exception_ptr e)   // -1: none, >= 0: my_error, -2.. : others
{
  if (!e)
    return -1;
  try {std::rethrow_exception(e);}
  catch (my_error & m) {return m.id;}
  catch (boost::system::system_error & s)
  {
    if (s.code() == asio::error::operation_aborted) return -2;
    if (s.code() == asio::error::broken_pipe) return -3;
    if (s.code().category() == boost::system::generic_category() && s.code().value() >= 10000)
      return s.code().value() - 10000;
    if (s.code().category() == cobalt::cobalt_category())
      return -10 - s.code().value();
    return -4;
  }
  catch (...) {return -5;}
}
inline std::string what(std::exception_ptr e)
{
  if (!e)
    return "none";
  try {std::rethrow_exception(e);}
  catch (std::exception & m) {return m.what();}
  catch (...) {return "?";}
}

// ------------------------------------------------------------------ the world

struct world
{
  asio::io_context ctx{1};
  std::function<bool(std::exception_ptr)> escaped;    // is an exception leaving a handler expected?
  std::optional<asio::executor_work_guard<asio::io_context::executor_type>> work;
  world() : work(asio::make_work_guard(ctx.get_executor()))
  {
    cobalt::this_thread::set_executor(ctx.get_executor());
  }
  ~world() {work.reset();}
  world(const world &) = delete;

  // run one queued handler. returns false if there was none.
  bool poll_one()
  {
    std::size_t n = 0;
    try
    {
      n = ctx.poll_one();
    }
    catch (...)
    {
      n = 1;
      if (!escaped || !escaped(std::current_exception()))
        mc::fail("exception escaped into the event loop: %s", what(std::current_exception()).c_str());
    }
    if (n)
      mc::step();
    return n != 0;
  }
  int drain(int max = 2000)
  {
    int n = 0;
    while (!mc::failed() && poll_one())
      if (++n > max)
      {
        mc::fail("livelock: the event loop does not become idle within %d handlers", max);
        break;
      }
    return n;
  }
};

// ------------------------------------------------------------------ a minimal foreign coroutine

struct proc_state
{
  asio::io_context::executor_type exec;
  asio::cancellation_signal signal;
  bool finished = false, destroyed = false, started = false;
  std::exception_ptr error;
  proc_state(world & w) : exec(w.ctx.get_executor()) {}
};

// eager, self destroying; first argument must be a proc_state&
struct proc
{
  struct promise_type
  {
    proc_state * st;
    template<typename ... Args>
    promise_type(proc_state & s, Args && ...) : st(&s) {s.started = true;}
    template<typename Obj, typename ... Args>
      requires (!std::is_same_v<std::decay_t<Obj>, proc_state>)
    promise_type(Obj &&, proc_state & s, Args && ...) : st(&s) {s.started = true;}
    ~promise_type() {st->destroyed = true;}
    using executor_type = asio::io_context::executor_type;
    executor_type get_executor() const {return st->exec;}
    using cancellation_slot_type = asio::cancellation_slot;
    cancellation_slot_type get_cancellation_slot() const {return st->signal.slot();}
    proc get_return_object() {return {};}
    std::suspend_never initial_suspend() noexcept {return {};}
    std::suspend_never final_suspend() noexcept {return {};}
    void unhandled_exception() {st->error = std::current_exception(); st->finished = true;}
    void return_void() {st->finished = true;}
  };
};

// ------------------------------------------------------------------ operations completed by the environment

// how a pending operation reacts to a cancellation
enum class on_cancel
{
  ignore,        // not cancellable
  post,          // completes with operation_aborted later (through the executor)
  now            // completes with operation_aborted from within the cancellation
};

enum class immediate {no, ready, dispatch, dispatch_twice};

template<typename ... Args>
struct env_op
{
  int initiated = 0;
  int cancels = 0;                 // number of cancellations received while pending
  asio::cancellation_type last_cancel = asio::cancellation_type::none;
  on_cancel mode = on_cancel::post;
  asio::cancellation_type accepts = asio::cancellation_type::all;
  std::optional<cobalt::completion_handler<Args...>> handler;
  std::function<std::tuple<Args...>()> aborted;        // what a cancelled operation completes with
  immediate early = immediate::no;                     // complete without suspending
  std::optional<std::tuple<Args...>> early_result;
  bool throws = false;                                 // the initiation throws
  bool cancelled_now = false;                          // completion due to cancellation is posted
  std::function<void()> on_initiated;

  bool is_pending() const {return handler.has_value();}

  cobalt::completion_handler<Args...> take()
  {
    auto slot = handler->get_cancellation_slot();
    if (slot.is_connected())
      slot.clear();
    auto h = std::move(*handler);
    handler.reset();
    return h;
  }
  template<typename ... A>
  void complete(A && ... args)     // inline completion, i.e. from the event loop's top level
  {
    auto h = take();
    std::move(h)(std::forward<A>(args)...);
  }
  template<typename ... A>
  void post_complete(A && ... args)
  {
    auto h = take();
    auto ex = h.get_executor();
    asio::post(ex, asio::append(std::move(h), std::forward<A>(args)...));
  }
  void post_tuple(std::tuple<Args...> t)
  {
    std::apply([this](auto && ... a) {post_complete(std::move(a)...);}, std::move(t));
  }
  void complete_tuple(std::tuple<Args...> t)
  {
    std::apply([this](auto && ... a) {complete(std::move(a)...);}, std::move(t));
  }
  // the environment gives up on the operation without ever completing it
  void abandon()
  {
    auto h = take();
    (void)h;
  }

  void initiate(cobalt::completion_handler<Args...> h)
  {
    initiated++;
    if (throws)
      throw my_error(77);
    if (early == immediate::dispatch || early == immediate::dispatch_twice)
    {
      auto ex = asio::get_associated_immediate_executor(h, h.get_executor());
      if (early == immediate::dispatch_twice)
      {
        // an intermediate handler of a composed operation completes first
        auto res = *early_result;
        asio::dispatch(ex,
            [ex, res, h = std::move(h)]() mutable
            {
              asio::dispatch(ex, [res, h = std::move(h)]() mutable
              {
                std::apply([&](auto && ... a) {std::move(h)(std::move(a)...);}, std::move(res));
              });
            });
      }
      else
        std::apply([&](auto && ... a) {asio::dispatch(ex, asio::append(std::move(h), std::move(a)...));}, *early_result);
      if (on_initiated) on_initiated();
      return;
    }
    if (handler)
      mc::fail("environment operation initiated twice");
    {
      mc::quiet q;
      handler.emplace(std::move(h));
    }
    auto slot = handler->get_cancellation_slot();
    if (slot.is_connected())
      slot.assign([this](asio::cancellation_type ct)
                  {
                    if (!handler || (ct & accepts) == asio::cancellation_type::none)
                      return;
                    cancels++;
                    last_cancel = ct;
                    if (mode == on_cancel::post && handler)
                    {
                      // not take(): the slot must not be cleared from within its own handler.
                      auto h = std::move(*handler);
                      handler.reset();
                      cancelled_now = true;
                      auto ex = h.get_executor();
                      std::apply([&](auto && ... a) {asio::post(ex, asio::append(std::move(h), std::move(a)...));}, aborted());
                    }
                  });
    if (on_initiated) on_initiated();
  }
};

using io_env = env_op<error_code, int>;

template<typename ... Args>
struct env_wait_t : cobalt::op<Args...>
{
  env_op<Args...> * st;
  env_wait_t(env_op<Args...> & s) : st(&s) {}
  void ready(cobalt::handler<Args...> h) override
  {
    if (st->early == immediate::ready)
      std::apply([&](auto && ... a) {h(std::move(a)...);}, *st->early_result);
  }
  void initiate(cobalt::completion_handler<Args...> h) override
  {
    st->initiate(std::move(h));
  }
};
template<typename ... Args>
env_wait_t<Args...> env_wait(env_op<Args...> & s) {return env_wait_t<Args...>(s);}

inline error_code aborted_code() {return asio::error::operation_aborted;}
inline error_code user_code(int id) {return error_code(10000 + id, boost::system::generic_category());}

// ------------------------------------------------------------------ how something ended
struct result_t
{
  enum kind_t {none, value, error} kind = none;
  int v = 0;                     // the value, or error_id()
  bool operator==(const result_t &) const = default;
  std::string str() const
  {
    return kind == none ? std::string("-") : (kind == value ? "v" : "e") + std::to_string(v);
  }
};
inline result_t val(int v) {return {result_t::value, v};}
inline result_t err(int v) {return {result_t::error, v};}
inline result_t err(std::exception_ptr e) {return {result_t::error, error_id(e)};}
inline int as_int(const token & t) {return t.v;}
inline int as_int(const mtoken & t) {return t.v;}
inline int as_int(int t) {return t;}

struct life_guard
{
  int * n;
  explicit life_guard(int & n) : n(&n) {n++;}
  life_guard(const life_guard & r) : n(r.n) {++*n;}
  life_guard & operator=(const life_guard &) = delete;
  ~life_guard() {--*n;}
};
} // namespace cob

// ------------------------------------------------------------------ fully controlled awaitables
namespace cob
{
struct ctl_state
{
  int id = 0;
  // how it answers
  bool ready = false;              // await_ready
  bool at_once = false;            // await_suspend doesn't suspend
  bool throws = false;             // await_suspend throws
  result_t result;                 // what await_resume yields
  std::function<void(ctl_state &)> on_ready;   // decides the above when it's asked first
  std::function<void(ctl_state &)> on_done;    // await_resume was called
  std::function<void(ctl_state &)> on_suspend; // right after it suspended
  // what happened
  int n_ready = 0, n_suspend = 0, n_resume = 0, n_cancel = 0, n_interrupt = 0;
  asio::cancellation_type last_cancel = asio::cancellation_type::none;
  bool pending = false, abandoned = false;
  cobalt::unique_handle<void> h{nullptr};
  asio::cancellation_slot slot;

  void release()
  {
    if (slot.is_connected())
      slot.clear();
    slot = {};
    pending = false;
  }
  void complete(result_t r)
  {
    release();
    result = r;
    auto hh = h.release();
    hh.resume();
  }
  void abandon()
  {
    release();
    abandoned = true;
    h.reset();
  }
  bool await_ready()
  {
    n_ready++;
    if (on_ready)
      on_ready(*this);
    return ready;
  }
  template<typename P>
  bool await_suspend(std::coroutine_handle<P> hh)
  {
    n_suspend++;
    if (throws)
      throw my_error(result.v);
    if (at_once)
      return false;
    h.reset(hh.address());
    pending = true;
    if constexpr (requires {hh.promise().get_cancellation_slot();})
      if ((slot = hh.promise().get_cancellation_slot()).is_connected())
        slot.assign([this](asio::cancellation_type ct) {n_cancel++; last_cancel = ct;});
    if (on_suspend)
      on_suspend(*this);
    return true;
  }
  template<typename T>
  T take()
  {
    n_resume++;
    release();
    if (on_done)
      on_done(*this);
    if (result.kind == result_t::error)
    {
      if (result.v == e_detached)
        throw boost::system::system_error(static_cast<int>(cobalt::error::detached), cobalt::cobalt_category());
      if (result.v == e_aborted)
        throw boost::system::system_error(asio::error::operation_aborted);
      throw my_error(result.v);
    }
    if constexpr (!std::is_void_v<T>)
      return T{result.v};
  }
  void interrupt()
  {
    n_interrupt++;
    if (pending)
      complete(err(e_detached));
  }
};

template<typename T>
struct ctl
{
  ctl_state * st;
  bool await_ready() {return st->await_ready();}
  template<typename P> bool await_suspend(std::coroutine_handle<P> h) {return st->await_suspend(h);}
  T await_resume() {return st->template take<T>();}
};
template<typename T>
struct ictl : ctl<T>     // can be interrupted when passed as an lvalue
{
  void interrupt_await() & {this->st->interrupt();}
};
}
