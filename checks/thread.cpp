// cobalt::thread and spawn across threads: real threads, every interleaving of their synchronisation operations up to a
// bound on the number of preemptions.
#include "cob.hpp"
#include "sched.hpp"
#include <boost/cobalt/thread.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/steady_timer.hpp>

#include <atomic>
#include <thread>

using namespace cob;
extern "C" const char * __tsan_default_options()
{
  return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0:symbolize=0:die_after_fork=0:report_destroy_locked=0:ignore_noninstrumented_modules=1";
}

namespace
{
using ct_t = asio::cancellation_type;
// everything both sides look at: atomics that do not order anything
template<typename T> struct relaxed
{
  std::atomic<T> v;
  relaxed(T t = T()) : v(t) {}
  operator T() const {return v.load(std::memory_order_relaxed);}
  relaxed & operator=(T t) {v.store(t, std::memory_order_relaxed); return *this;}
  void operator++(int) {v.fetch_add(1, std::memory_order_relaxed);}
  void operator--(int) {v.fetch_sub(1, std::memory_order_relaxed);}
};
struct guard
{
  relaxed<int> * n;
  explicit guard(relaxed<int> & n) : n(&n) {n++;}
  guard(const guard & r) : n(r.n) {(*n)++;}
  ~guard() {(*n)--;}
};

std::thread::id main_id;

// an operation on the thread that only ends when it's cancelled
struct wait_op : cobalt::op<error_code>
{
  relaxed<int> * type;
  asio::steady_timer timer;
  asio::cancellation_slot slot;
  wait_op(cobalt::executor ex, relaxed<int> & t) : type(&t), timer(ex, asio::steady_timer::time_point::max()) {}
  void done()
  {
    if (slot.is_connected())
      slot.clear();
  }
  void initiate(cobalt::completion_handler<error_code> h) override
  {
    slot = h.get_cancellation_slot();
    timer.async_wait(asio::bind_cancellation_slot(asio::cancellation_slot(), std::move(h)));
    if (slot.is_connected())
      slot.assign([this](ct_t ct)
      {
        *type = (int)ct & 7;
        timer.cancel();
      });
  }
};

enum await_kind {lvalue, rvalue, lvalue_result, rvalue_result, lvalue_tuple, rvalue_tuple, n_kinds};
const char * kind_names[] = {"lvalue", "rvalue", "lvalue as_result", "rvalue as_result", "lvalue as_tuple", "rvalue as_tuple"};

struct shared
{
  std::string body;             // p: goes through the event loop, w: waits for a cancellation, W: the same, ignoring the error,
                                // x: throws
  relaxed<int> frames, started, finished, wrong_thread, wrong_executor, type;
};

cobalt::thread body(shared & s, guard)
{
  s.started++;
  if (std::this_thread::get_id() == main_id)
    s.wrong_thread++;
  auto ex = co_await cobalt::this_coro::executor;
  if (ex != cobalt::this_thread::get_executor())
    s.wrong_executor++;
  for (auto c : s.body)
  {
    if (c == 'p')
      co_await asio::post(ex, cobalt::use_op);
    else if (c == 'w')
    {
      wait_op op{ex, s.type};
      auto [ec] = co_await cobalt::as_tuple(op);
      op.done();
      if (ec)
        throw boost::system::system_error(ec);
    }
    else if (c == 'W')
    {
      co_await cobalt::this_coro::throw_if_cancelled(false);
      if (ct_t c = co_await cobalt::this_coro::cancelled; c == ct_t::none)
      {
        wait_op op{ex, s.type};
        auto [ec] = co_await cobalt::as_tuple(op);
        op.done();
        if (!ec)
          s.wrong_executor++;
      }
      else
        s.type = (int)c & 7;
      co_await cobalt::this_coro::throw_if_cancelled(true);
      co_await cobalt::this_coro::reset_cancellation_state();
    }
    else if (c == 'x')
      throw my_error(5);
    if (std::this_thread::get_id() == main_id)
      s.wrong_thread++;
  }
  s.finished++;
}

// a resource of the main thread only, as co_main uses it.
struct resource final : cobalt::pmr::memory_resource
{
  relaxed<int> elsewhere;
  cobalt::pmr::memory_resource * before;
  resource() : before(cobalt::this_thread::set_default_resource(this)) {}
  ~resource() {cobalt::this_thread::set_default_resource(before);}
  void check()
  {
    if (std::this_thread::get_id() != main_id)
      elsewhere++;
  }
  void * do_allocate(std::size_t sz, std::size_t al) override {check(); return cobalt::pmr::new_delete_resource()->allocate(sz, al);}
  void do_deallocate(void * p, std::size_t sz, std::size_t al) override {check(); cobalt::pmr::new_delete_resource()->deallocate(p, sz, al);}
  bool do_is_equal(const cobalt::pmr::memory_resource & r) const noexcept override {return this == &r;}
};

struct runner
{
  std::optional<resource> res;
  world w;
  shared s;
  std::optional<cobalt::thread> th;
  bool done = false;
  result_t got;
  int spawn_calls = 0;
  result_t spawn_got;
  std::thread::id spawn_id{};
  std::optional<cobalt::promise<void>> p, sp;
  asio::cancellation_signal sig;

  void start() {th.emplace(body(s, guard(s.frames)));}

  cobalt::promise<void> awaiter(int how)
  {
    got = {};
    try
    {
      switch (how)
      {
        case lvalue: co_await *th; got = val(0); break;
        case rvalue: co_await std::move(*th); got = val(0); break;
        case lvalue_result: case rvalue_result:
        {
          auto r = how == lvalue_result ? co_await cobalt::as_result(*th) : co_await cobalt::as_result(std::move(*th));
          got = r ? val(0) : err(r.error());
          break;
        }
        case lvalue_tuple: case rvalue_tuple:
        {
          auto [e] = how == lvalue_tuple ? co_await cobalt::as_tuple(*th) : co_await cobalt::as_tuple(std::move(*th));
          got = e ? err(e) : val(0);
          break;
        }
      }
    }
    catch (...) {got = err(std::current_exception());}
    MC_CHECK(std::this_thread::get_id() == main_id, "the awaiter is resumed on the wrong thread");
    MC_CHECK(!done, "the awaiter is resumed again");
    done = true;
  }
  void await(int how) {p.emplace(awaiter(how));}
  template<typename Cond>
  void run_until(Cond c)
  {
    while (!mc::failed() && !c())
    {
      mc::step();
      w.ctx.run_one();
    }
  }
  void wait_done() {run_until([&]{return done;});}

  struct task_state
  {
    relaxed<int> frames, type;
    relaxed<bool> wrong = false;
  } ts;
  cobalt::promise<void> child(cobalt::executor ex, guard)
  {
    wait_op op{ex, ts.type};
    auto [ec] = co_await cobalt::as_tuple(op);
    op.done();
    if (ec)
      throw boost::system::system_error(ec);
  }
  cobalt::task<int> on_thread(cobalt::executor ex, std::string what, guard)
  {
    if (std::this_thread::get_id() == main_id || ex != cobalt::this_thread::get_executor())
      ts.wrong = true;
    if (co_await cobalt::this_coro::executor != ex)
      ts.wrong = true;
    for (auto c : what)
    {
      if (c == 'p')
        co_await asio::post(ex, cobalt::use_op);
      if (c == 'w')
      {
        wait_op op{ex, ts.type};
        auto [ec] = co_await cobalt::as_tuple(op);
        op.done();
        if (ec)
          throw boost::system::system_error(ec);
      }
      if (c == 'k')
        co_await child(ex, guard(ts.frames));
      if (c == 'x')
        throw my_error(6);
    }
    co_return 17;
  }
  cobalt::task<void> on_thread_void(cobalt::executor ex, std::string what, guard)
  {
    if (std::this_thread::get_id() == main_id || ex != cobalt::this_thread::get_executor())
      ts.wrong = true;
    for (auto c : what)
    {
      if (c == 'p')
        co_await asio::post(ex, cobalt::use_op);
      if (c == 'w')
      {
        wait_op op{ex, ts.type};
        auto [ec] = co_await cobalt::as_tuple(op);
        op.done();
        if (ec)
          throw boost::system::system_error(ec);
      }
      if (c == 'k')
        co_await child(ex, guard(ts.frames));
      if (c == 'x')
        throw my_error(6);
    }
  }
  // the same with a plain callback
  struct callback
  {
    runner * r;
    using executor_type = cobalt::executor;
    executor_type get_executor() const {return r->w.ctx.get_executor();}
    using cancellation_slot_type = asio::cancellation_slot;
    cancellation_slot_type get_cancellation_slot() const {return r->sig.slot();}
    void operator()(std::exception_ptr e, int i)
    {
      MC_CHECK(std::this_thread::get_id() == main_id, "spawn completes on the wrong thread");
      r->spawn_got = e ? err(e) : val(i);
      r->spawn_calls++;
    }
    void operator()(std::exception_ptr e) {(*this)(e, 17);}
  };
  bool void_ = false;
  void spawn_callback(cobalt::executor ex, std::string what)
  {
    if (void_)
      cobalt::spawn(ex, on_thread_void(ex, what, guard(ts.frames)), callback{this});
    else
      cobalt::spawn(ex, on_thread(ex, what, guard(ts.frames)), callback{this});
  }
  cobalt::task<int> nested(std::string what, guard)
  {
    if (std::this_thread::get_id() != main_id)
      ts.wrong = true;
    for (auto c : what)
      if (c == 'p')
        co_await asio::post(w.ctx.get_executor(), cobalt::use_op);
      else if (c == 'x')
        throw my_error(7);
    co_return 4;
  }
  // runs on the thread and spawns back onto the main thread
  cobalt::task<int> spawn_back(cobalt::executor ex, std::string what, guard)
  {
    int res = co_await cobalt::spawn(w.ctx.get_executor(), nested(what, guard(ts.frames)), cobalt::use_op);
    if (std::this_thread::get_id() == main_id)
      ts.wrong = true;
    co_return res;
  }
  cobalt::promise<void> back_spawner(cobalt::executor ex, std::string what)
  {
    try {spawn_got = val(co_await cobalt::spawn(ex, spawn_back(ex, what, guard(ts.frames)), cobalt::use_op));}
    catch (...) {spawn_got = err(std::current_exception());}
    MC_CHECK(std::this_thread::get_id() == main_id, "spawn completes on the wrong thread");
    spawn_calls++;
  }
  cobalt::promise<void> spawner(cobalt::executor ex, std::string what)
  {
    try
    {
      if (void_)
      {
        co_await cobalt::spawn(ex, on_thread_void(ex, what, guard(ts.frames)), cobalt::use_op);
        spawn_got = val(17);
      }
      else
        spawn_got = val(co_await cobalt::spawn(ex, on_thread(ex, what, guard(ts.frames)), cobalt::use_op));
    }
    catch (...) {spawn_got = err(std::current_exception());}
    MC_CHECK(std::this_thread::get_id() == main_id, "spawn completes on the wrong thread");
    spawn_calls++;
  }

  void finish()
  {
    th.reset();
    sched::end();
    w.drain();
    p.reset();
    sp.reset();
    if (mc::failed())
      return;
    MC_CHECK(s.wrong_thread == 0, "the coroutine ran on the wrong thread");
    MC_CHECK(s.wrong_executor == 0, "the executor of the coroutine isn't the one of its thread");
    MC_CHECK(s.frames == 0, "the frame of the coroutine isn't destroyed");
    MC_CHECK(ts.frames == 0, "the frame of the task isn't destroyed");
    MC_CHECK(!ts.wrong, "the task ran on the wrong thread or executor");
  }
};

template<typename F>
void add(std::string name, int preemptions, F f, std::string body)
{
  mc::options o;
  o.dev_bound = preemptions;
  mc::add("thread/" + name + "/body=" + (body.empty() ? "-" : body) + "/preemptions<=" + std::to_string(preemptions), [=]
  {
    std::optional<runner> r;
    {
      mc::quiet q;
      main_id = std::this_thread::get_id();
      r.emplace();
      r->s.body = body;
    }
    sched::begin();
    r->start();
    f(*r);
    r->finish();
    mc::outcome(r->got.str() + " " + std::to_string(r->s.finished) + std::to_string(r->s.started) + " " + std::to_string(r->s.type) + " " + r->spawn_got.str());
    mc::state(mc::mix(r->s.finished * 4 + r->s.started, r->got.v + 100));
    {mc::quiet q; r.reset();}
  }, o);
}
}

MC_MAIN()
{
  const bool h1 = mc::property() == "H01";
  const int b = h1 ? 3 + mc::thorough() : 3 + 2 * mc::thorough();
  if (h1)
  {
    for (std::string bd : {"", "p", "pp"})
    {
      for (int k = 0; k < n_kinds; k++)
        add(std::string("await ") + kind_names[k], b, [k](runner & r)
        {
          r.await(k);
          r.wait_done();
          MC_CHECK(r.got == val(0), "awaiting the thread yields %s", r.got.str().c_str());
          MC_CHECK(r.s.finished == 1, "the awaiter continues before the thread is done");
        }, bd);
      add("join", b, [](runner & r)
      {
        MC_CHECK(r.th->joinable(), "not joinable");
        r.th->join();
        MC_CHECK(r.s.finished == 1 && r.s.frames == 0, "join returns before the thread is done");
        MC_CHECK(!r.th->joinable(), "joinable after join");
        bool thrown = false;
        try {r.th->get_executor();} catch (std::exception &) {thrown = true;}
        MC_CHECK(thrown, "a finished thread has an executor");
      }, bd);
      add("join, then await", b, [](runner & r)
      {
        r.th->join();
        r.await(lvalue);
        r.wait_done();
        MC_CHECK(r.got == val(0), "awaiting a finished thread yields %s", r.got.str().c_str());
      }, bd);
      add("detach", b, [](runner & r) {r.th->detach();}, bd);
      add("destroy", b, [](runner &) {}, bd);
      add("await and cancel the awaiter", b, [](runner & r)
      {
        r.await(rvalue);
        r.p->cancel(ct_t::terminal);
        r.wait_done();
        MC_CHECK(r.got == val(0) || r.got == err(e_aborted), "awaiting a cancelled thread yields %s", r.got.str().c_str());
      }, bd);
      // an exception nobody awaits (yet) terminates, thus only if there's no await that could throw.
      if (bd.empty()) add("cancel, then await", b, [](runner & r)
      {
        r.th->cancel();
        r.await(lvalue);
        r.wait_done();
        MC_CHECK(r.got == val(0) || r.got == err(e_aborted), "awaiting a cancelled thread yields %s", r.got.str().c_str());
      }, bd);
      if (bd.empty()) add("cancel, then join", b, [](runner & r)
      {
        r.th->cancel();
        r.th->join();
      }, bd);
      add("join, then cancel", b, [](runner & r)
      {
        r.th->join();
        r.th->cancel();
      }, bd);
    }
    for (std::string bd : {"w", "pw", "W", "Wp", "Wx"})
    {
      for (int k = 0; k < n_kinds; k++)
        add(std::string("await ") + kind_names[k] + " and cancel the awaiter", b, [k](runner & r)
        {
          r.await(k);
          r.p->cancel(ct_t::terminal);
          r.wait_done();
          auto exp = r.s.body.find('w') != std::string::npos ? err(e_aborted) : r.s.body.find('x') != std::string::npos ? err(5) : val(0);
          MC_CHECK(r.got == exp, "awaiting the thread yields %s instead of %s", r.got.str().c_str(), exp.str().c_str());
          MC_CHECK(r.s.type == 0 || r.s.type == 1, "the thread is cancelled with type %d", (int)r.s.type);
        }, bd);
      if (bd == "W")
      {
        add("cancel, then destroy", b, [](runner & r) {r.th->cancel(ct_t::total);}, bd);
        add("cancel, then detach", b, [](runner & r) {r.th->cancel(ct_t::total); r.th->detach();}, bd);
      }
      add("destroy", b, [](runner &) {}, bd);
    }
  }
  else for (bool v : {false, true})
  {
    auto add = [v](std::string name, int preemptions, auto f, std::string body)
    {
      ::add(v ? "void: " + name : name, preemptions, [f, v](runner & r) {r.void_ = v; f(r);}, body);
    };
    for (std::string bd : {"W"})
      for (std::string what : {"", "p", "x"})
      {
        add("spawn onto the thread/task=" + (what.empty() ? "-" : what), b, [=](runner & r)
        {
          auto ex = r.th->get_executor();
          r.sp.emplace(r.spawner(ex, what));
          r.run_until([&]{return r.spawn_calls > 0;});
          MC_CHECK(r.spawn_got == (what == "x" ? err(6) : val(17)), "the spawned task yields %s", r.spawn_got.str().c_str());
        }, bd);
        add("spawn onto the thread, cancel it/task=" + (what.empty() ? "-" : what), b, [=](runner & r)
        {
          auto ex = r.th->get_executor();
          r.sp.emplace(r.spawner(ex, what));
          r.sp->cancel(ct_t::terminal);
          r.run_until([&]{return r.spawn_calls > 0;});
          MC_CHECK(r.spawn_got == (what == "x" ? err(6) : val(17)) || r.spawn_got == err(e_aborted), "the spawned task yields %s", r.spawn_got.str().c_str());
        }, bd);
      }
    for (std::string bd : {"W"})
    {
      for (std::string what : {"", "p", "x"})
      {
        auto exp = what == "x" ? err(6) : val(17);
        add("spawn onto the thread with a callback/task=" + (what.empty() ? "-" : what), b, [=](runner & r)
        {
          r.spawn_callback(r.th->get_executor(), what);
          r.run_until([&]{return r.spawn_calls > 0;});
          MC_CHECK(r.spawn_got == exp, "the spawned task yields %s", r.spawn_got.str().c_str());
        }, bd);
        add("spawn onto the thread with a callback, cancel it/task=" + (what.empty() ? "-" : what), b, [=](runner & r)
        {
          r.spawn_callback(r.th->get_executor(), what);
          r.sig.emit(ct_t::terminal);
          r.run_until([&]{return r.spawn_calls > 0;});
          MC_CHECK(r.spawn_got == exp || r.spawn_got == err(e_aborted), "the spawned task yields %s", r.spawn_got.str().c_str());
        }, bd);
        if (!v) add("spawn onto the thread and back/task=" + (what.empty() ? "-" : what), b - 1, [=](runner & r)
        {
          r.sp.emplace(r.back_spawner(r.th->get_executor(), what));
          r.run_until([&]{return r.spawn_calls > 0;});
          MC_CHECK(r.spawn_got == (what == "x" ? err(7) : val(4)), "the spawned task yields %s", r.spawn_got.str().c_str());
        }, bd);
        if (what == "x")
          continue;
        add("spawn two tasks onto the thread/task=" + (what.empty() ? "-" : what), b - 1, [=](runner & r)
        {
          auto ex = r.th->get_executor();
          r.sp.emplace(r.spawner(ex, what));
          r.spawn_callback(ex, what);
          r.run_until([&]{return r.spawn_calls > 1;});
          MC_CHECK(r.spawn_got == val(17), "the spawned task yields %s", r.spawn_got.str().c_str());
        }, bd);
      }
      for (std::string what : {"", "p"})
      add("spawn a task with a callback while the thread ends/task=" + (what.empty() ? "-" : what), b, [=](runner & r)
      {
        r.spawn_callback(r.th->get_executor(), what);
        r.th->cancel(ct_t::total);
        r.run_until([&]{return r.spawn_calls > 0 || r.s.finished;});
        r.th->join();
        r.w.drain();
        MC_CHECK(r.spawn_calls == 0 || r.spawn_got == val(17), "the spawned task yields %s", r.spawn_got.str().c_str());
      }, bd);
    }
    for (std::string bd : {"W"})
      for (std::string what : {"", "p", "w", "k"})
      {
        // the thread ends with an exception, i.e. doesn't wait for the task
        add("spawn a task, then the thread fails/task=" + (what.empty() ? "-" : what), b, [=](runner & r)
        {
          r.spawn_callback(r.th->get_executor(), what);
          r.await(lvalue);
          r.p->cancel(ct_t::terminal);
          r.wait_done();
          MC_CHECK(r.got == err(5), "the thread yields %s", r.got.str().c_str());
        }, "Wx");
        add("spawn a task with use_op, then the thread fails/task=" + (what.empty() ? "-" : what), b, [=](runner & r)
        {
          r.sp.emplace(r.spawner(r.th->get_executor(), what));
          r.await(lvalue);
          r.p->cancel(ct_t::terminal);
          r.wait_done();
          MC_CHECK(r.got == err(5), "the thread yields %s", r.got.str().c_str());
        }, "Wx");
      }
      for (std::string what : {"w", "k"})
      add("spawn a waiting task onto the thread, cancel it/task=" + what, b, [=](runner & r)
      {
        auto ex = r.th->get_executor();
        r.sp.emplace(r.spawner(ex, what));
        r.sp->cancel(ct_t::terminal);
        r.run_until([&]{return r.spawn_calls > 0;});
        MC_CHECK(r.spawn_got == err(e_aborted), "the cancelled task yields %s", r.spawn_got.str().c_str());
        MC_CHECK(r.ts.type == 1, "the task was cancelled with type %d", (int)r.ts.type);
      }, "W");
#if !defined(__SANITIZE_THREAD__)
    for (std::string what : {"", "p", "x"})
      for (int how = 0; how < 4; how++)
        add("memory of the main thread/how=" + std::to_string(how) + "/task=" + (what.empty() ? "-" : what), 2, [=](runner & r)
        {
          r.res.emplace();
          auto ex = r.th->get_executor();
          if (how == 0)
            r.sp.emplace(r.spawner(ex, what));
          else
            r.spawn_callback(ex, what);
          if (how == 2)
            r.sig.emit(ct_t::terminal);
          if (how == 3)
            r.sp.emplace(r.spawner(ex, what));
          r.run_until([&]{return r.spawn_calls > (how == 3);});
          auto exp = what == "x" ? err(6) : val(17);
          MC_CHECK(r.spawn_got == exp || (how == 2 && r.spawn_got == err(e_aborted)), "the spawned task yields %s", r.spawn_got.str().c_str());
          MC_CHECK(r.res->elsewhere == 0, "the memory resource of the main thread is used by another one");
        }, "W");
#endif
  }
}
