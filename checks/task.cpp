// task: laziness, results & executor (T01); spawn across executors (T02); run (T03)
#include "cob.hpp"
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/run.hpp>
#include <boost/cobalt/noop.hpp>
#include <boost/asio/use_future.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <future>

using namespace cob;

namespace
{
template<typename T> struct tn;
template<> struct tn<token>  {static constexpr const char * name = "copyable";};
template<> struct tn<mtoken> {static constexpr const char * name = "move-only";};
template<> struct tn<void>   {static constexpr const char * name = "void";};

char where = '-';       // which context is executing right now

struct body_ctl
{
  io_env op;
  int frames = 0;
  bool started = false, locals_alive = false, handles_errors = false, throw_disabled = false;
  int awaits = 0, max_awaits = 2;
  char expect_where = 0;        // the context it may run on
  const asio::io_context * expect_exec = nullptr;
  result_t expected_from_op, result;
  body_ctl() {op.aborted = [this]{expected_from_op = err(e_aborted); return std::make_tuple(aborted_code(), 0);};}
};

void check_where(body_ctl & c)
{
  if (c.expect_where)
    MC_CHECK(where == c.expect_where, "the task runs on '%c', but was spawned on '%c'", where, c.expect_where);
}

template<typename T>
cobalt::task<T> body(body_ctl & c, life_guard, int depth)
{
  MC_CHECK(depth == 0 || !c.started, "a task was started twice");
  if (depth > 0)
  {
    // pass everything through a nested task
    auto t = body<T>(c, life_guard(c.frames), depth - 1);
    MC_CHECK(!c.started, "a task started before it was awaited");
    if constexpr (std::is_void_v<T>)
    {
      co_await t;
      co_return ;
    }
    else
      co_return co_await std::move(t);
  }
  c.started = true;
  c.locals_alive = true;
  struct leave {body_ctl & c; ~leave() {c.locals_alive = false;}} l{c};
  check_where(c);
  if (c.expect_exec)
  {
    cobalt::executor ex = co_await cobalt::this_coro::executor;
    MC_CHECK(&asio::query(ex, asio::execution::context) == c.expect_exec, "the task did not adopt the executor of its awaiter");
  }
  while (true)
  {
    int k = mc::choose(c.awaits < c.max_awaits ? 3 : 2, "body does (return, throw, await)");
    if (k == 0)
    {
      c.result = val(std::is_void_v<T> ? 0 : 40 + c.awaits);
      if constexpr (std::is_void_v<T>)
        co_return ;
      else
        co_return T{40 + c.awaits};
    }
    if (k == 1)
    {
      c.result = err(100 + c.awaits);
      throw my_error(100 + c.awaits);
    }
    c.awaits++;
    c.expected_from_op = {};
    result_t got;
    std::exception_ptr e;
    try
    {
      int v = co_await env_wait(c.op);
      got = val(v);
    }
    catch (...)
    {
      e = std::current_exception();
      got = err(e);
    }
    check_where(c);
    MC_CHECK(got == c.expected_from_op, "the coroutine observed %s from an operation completed with %s", got.str().c_str(), c.expected_from_op.str().c_str());
    if (e && !c.handles_errors)
    {
      c.result = got;
      std::rethrow_exception(e);
    }
    if (e && got.v == e_aborted)
      co_await cobalt::this_coro::reset_cancellation_state();
  }
}

// ------------------------------------------------------------------ T01
template<typename T>
struct lazy
{
  world w;
  asio::io_context other{1};
  body_ctl c;
  std::optional<cobalt::task<T>> t;
  proc_state st{w};
  result_t got;
  bool done = false, awaited = false, abandoned = false;
  int cancels = 0, api = 0;
  std::string trail;

  proc await_it(proc_state &)
  {
    auto & tk = *t;
    if (api == 0)
    {
      try
      {
        if constexpr (std::is_void_v<T>) {co_await tk; got = val(0);}
        else {T r = co_await tk; got = val(r.v);}
      }
      catch (...) {got = err(std::current_exception());}
    }
    else if (api == 1)
    {
      auto r = co_await cobalt::as_result(tk);
      if (r.has_error()) got = err(r.error());
      else if constexpr (std::is_void_v<T>) got = val(0);
      else got = val(r->v);
    }
    else if constexpr (std::is_void_v<T>)
    {
      std::exception_ptr e = co_await cobalt::as_tuple(tk);
      got = e ? err(e) : val(0);
    }
    else
    {
      auto [e, r] = co_await cobalt::as_tuple(tk);
      got = e ? err(e) : val(r.v);
    }
    done = true;
  }
  bool finished() const {return c.result.kind != result_t::none || abandoned;}

  int depth = 0;
  void observe()
  {
    mc::state(mc::mix(mc::mix(c.started + 2 * awaited + 4 * done + 8 * c.awaits + 64 * c.op.is_pending() + 128 * cancels, c.result.v), bool(t) + 2 * depth));
    MC_CHECK(c.started == awaited, c.started ? "the task started without being awaited" : "the task did not start when it was awaited");
    MC_CHECK(c.op.cancels == cancels, "the operation received %d cancellations, expected %d", c.op.cancels, cancels);
    if (!awaited)
      MC_CHECK(c.frames == (t ? 1 : 0), "%d frames are alive for a task that was %s before being started", c.frames, t ? "kept" : "destroyed");
    else
      MC_CHECK(c.frames == (finished() ? 0 : depth + 1), "%d coroutine frames are alive (finished %d)", c.frames, finished());
    MC_CHECK(c.locals_alive == (awaited && !finished()), "locals alive: %d", c.locals_alive);
    if (abandoned)
      MC_CHECK(st.destroyed && !done, "the awaiter of a destroyed task was neither resumed nor destroyed");
    else if (awaited)
    {
      MC_CHECK(done == finished(), finished() ? "the task is finished, but its awaiter was not resumed" : "the awaiter was resumed before the task finished");
      if (done)
        MC_CHECK(got == c.result, "the task ended with %s, but its awaiter got %s", c.result.str().c_str(), got.str().c_str());
    }
  }

  void run()
  {
    depth = mc::choose(3, "nested tasks");
    c.handles_errors = mc::choose(2, "body handles errors");
    bool foreign = mc::choose(2, "awaiter runs on another executor");
    if (foreign)
    {
      cobalt::this_thread::set_executor(other.get_executor());
      c.expect_exec = &w.ctx;
    }
    else
      c.expect_exec = &w.ctx;
    {
      auto x = body<T>(c, life_guard(c.frames), depth);
      mc::step();
      t.emplace(std::move(x));
    }
    observe();
    if (mc::choose(2, "destroy before awaiting"))
    {
      t.reset();
      w.drain();
      observe();
      mc::outcome("destroyed");
      return;
    }
    if (mc::choose(2, "move before awaiting"))
    {
      auto x = std::move(*t);
      t.emplace(std::move(x));
      observe();
    }
    api = mc::choose(3, "await flavour");
    awaited = true;
    mc::step();
    await_it(st);
    observe();
    for (int s = 0; s < 8 && !mc::failed() && !finished(); s++)
    {
      enum {ok, ko, cncl, aban, poll};
      int evs[5], n = 0;
      if (c.op.is_pending()) {evs[n++] = ok; evs[n++] = ko; evs[n++] = cncl; evs[n++] = aban;}
      else evs[n++] = poll;
      mc::step();
      switch (evs[mc::choose(n, "event (complete, fail, cancel, abandon | poll)")])
      {
        case ok: c.expected_from_op = val(7); if (mc::choose(2, "complete inline or posted")) c.op.post_complete(error_code{}, 7); else c.op.complete(error_code{}, 7); trail += "o"; break;
        case ko: c.expected_from_op = err(3); c.op.complete(user_code(3), 0); trail += "e"; break;
        case cncl:
        {
          static const asio::cancellation_type types[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total};
          auto ty = types[mc::choose(3, "cancellation type")];
          cancels++;
          c.expected_from_op = err(e_aborted);
          st.signal.emit(ty);
          MC_CHECK(c.op.last_cancel == ty, "cancellation type changed from %d to %d on its way to the operation", (int)ty, (int)c.op.last_cancel);
          trail += "c";
          break;
        }
        case aban: abandoned = true; c.op.abandon(); trail += "a"; break;
        case poll: w.poll_one(); break;
      }
      observe();
    }
    w.drain();
    if (!mc::failed())
      MC_CHECK(finished(), "the task never finished");
    observe();
    // later cancellations go nowhere
    if (!abandoned)
      st.signal.emit(asio::cancellation_type::all);
    t.reset();
    w.drain();
    trail += "/" + c.result.str();
    mc::outcome(trail);
  }
};

// ------------------------------------------------------------------ T02
template<typename T>
struct spawned
{
  asio::io_context A{1}, B{1};
  asio::executor_work_guard<asio::io_context::executor_type> wa{A.get_executor()}, wb{B.get_executor()};
  body_ctl c;
  asio::cancellation_signal sig;
  int completions = 0;
  result_t got;
  std::string trail;
  int cancels = 0;
  bool want_cancel = false;

  int poll(char which)
  {
    auto & ctx = which == 'A' ? A : B;
    auto old = where;
    where = which;
    cobalt::this_thread::set_executor(ctx.get_executor());
    int n = 0;
    try {n = (int)ctx.poll_one();}
    catch (...) {mc::fail("exception escaped into the event loop %c: %s", which, what(std::current_exception()).c_str());}
    where = old;
    if (n) mc::step();
    return n;
  }
  void complete(std::exception_ptr e, int v)
  {
    completions++;
    got = e ? err(e) : val(v);
    MC_CHECK(completions == 1, "the completion of spawn was invoked %d times", completions);
    mc::note("completed with %s", got.str().c_str());
  }

  struct uproc_state : proc_state {using proc_state::proc_state;};

  // the shapes of completion tokens
  proc use_op_it(proc_state &, cobalt::task<T> tk, char hx)
  {
    std::exception_ptr e;
    int v = 0;
    try
    {
      if constexpr (std::is_void_v<T>)
        co_await cobalt::spawn(A.get_executor(), std::move(tk), cobalt::use_op);
      else
      {
        T r = co_await cobalt::spawn(A, std::move(tk), cobalt::use_op);
        v = r.v;
      }
    }
    catch (...) {e = std::current_exception();}
    MC_CHECK(where == hx, "the completion ran on '%c' instead of '%c'", where, hx);
    complete(e, v);
  }

  void observe()
  {
    mc::state(mc::mix(mc::mix(c.started + 2 * completions + 8 * c.awaits + 64 * c.op.is_pending() + 128 * cancels, c.result.v), c.frames));
    if (completions)
    {
      MC_CHECK(c.result.kind != result_t::none, "spawn completed before the task did");
      MC_CHECK(got == c.result, "the task ended with %s, but spawn completed with %s", c.result.str().c_str(), got.str().c_str());
    }
  }

  void run(int steps)
  {
    where = '-';
    c.handles_errors = mc::choose(2, "body handles errors");
    c.expect_where = 'A';
    c.expect_exec = &A;
    int kind = mc::choose(4, "token (handler, use_op, use_future, handler + done task)");
    char hx = "BA"[mc::choose(2, "executor of the completion (other, same)")];
    char from = "-AB"[mc::choose(3, "spawn from (outside, task's context, other context)")];
    auto & hctx = hx == 'A' ? A : B;
    std::optional<proc_state> st;
    std::future<T> fut;
    bool in_future = false;
    auto handler_for = [&]
    {
      if constexpr (std::is_void_v<T>)
        return [this, hx](std::exception_ptr e)
        {
          MC_CHECK(where == hx, "the completion ran on '%c' instead of '%c'", where, hx);
          complete(e, 0);
        };
      else
        return [this, hx](std::exception_ptr e, T t)
        {
          MC_CHECK(where == hx, "the completion ran on '%c' instead of '%c'", where, hx);
          complete(e, t.v);
        };
    };
    std::optional<world> dummy;
    auto launch = [&]
    {
      auto old = where;
      if (kind == 3)
      {
        c.result = val(std::is_void_v<T> ? 0 : 5);
        if constexpr (std::is_void_v<T>)
          cobalt::spawn(A, cobalt::task<void>(cobalt::noop<void>()), asio::bind_cancellation_slot(sig.slot(), asio::bind_executor(hctx.get_executor(), handler_for())));
        else
          cobalt::spawn(A, cobalt::task<T>(cobalt::noop<T>(T{5})), asio::bind_cancellation_slot(sig.slot(), asio::bind_executor(hctx.get_executor(), handler_for())));
        MC_CHECK(completions == 0, "spawn completed from within its initiation");
        return;
      }
      auto tk = body<T>(c, life_guard(c.frames), 0);
      MC_CHECK(!c.started, "the task started before it was spawned");
      mc::step();
      if (kind == 0)
        cobalt::spawn(A, std::move(tk), asio::bind_cancellation_slot(sig.slot(), asio::bind_executor(hctx.get_executor(), handler_for())));
      else if (kind == 1)
      {
        mc::quiet q;
        st.emplace(*dummy);
        st->exec = hctx.get_executor();
        use_op_it(*st, std::move(tk), hx);
      }
      else
      {
        in_future = true;
        fut = cobalt::spawn(A.get_executor(), std::move(tk), asio::bind_executor(hctx.get_executor(), asio::use_future));
      }
      if (from == 'A')
        MC_CHECK(c.started, "spawn from within the target executor did not start the task");
      else
        MC_CHECK(!c.started, "spawn started the task on a foreign executor");
      MC_CHECK(completions == 0, "spawn completed from within its initiation");
      (void)old;
    };
    { mc::quiet q; dummy.emplace(); }
    cobalt::this_thread::set_executor(B.get_executor());
    if (from == '-')
      launch();
    else
    {
      asio::post(from == 'A' ? A : B, [&]{launch();});
      while (!poll(from) && !mc::failed());
    }
    observe();
    auto emit = [&]{(kind == 1 ? st->signal : sig).emit(asio::cancellation_type::terminal);};
    bool idleA = false, idleB = false;
    int pending_cancel = 0;
    for (int s = 0; s < steps && !mc::failed() && !completions; s++)
    {
      enum {pa, pb, ok, ko, cncl};
      int evs[6], n = 0;
      if (!idleA) evs[n++] = pa;
      if (!idleB) evs[n++] = pb;
      if (c.op.is_pending()) {evs[n++] = ok; evs[n++] = ko;}
      if (kind != 2 && cancels + pending_cancel < 2) evs[n++] = cncl;
      if (!n) break;
      mc::step();
      int ev = evs[mc::choose(n, "event (poll A, poll B, complete, fail, cancel)")];
      int before = c.op.cancels;
      switch (ev)
      {
        case pa:
          mc::note("poll A");
          idleA = poll('A') == 0;
          if (idleA)
            MC_CHECK(!want_cancel, "a cancellation never reached the operation of the task");
          break;
        case pb: mc::note("poll B"); idleB = poll('B') == 0; break;
        // the operation completes on the executor of the task, as any asio operation would do.
        case ok: want_cancel = false; mc::note("complete"); c.expected_from_op = val(7); c.op.post_complete(error_code{}, 7); idleA = false; trail += "o"; break;
        case ko: want_cancel = false; mc::note("fail"); c.expected_from_op = err(3); c.op.post_complete(user_code(3), 0); idleA = false; trail += "e"; break;
        case cncl:
          mc::note("cancel");
          want_cancel = c.op.is_pending();
          emit();
          MC_CHECK(c.op.cancels == before, "a cancellation from outside reached the task directly, instead of through its executor");
          pending_cancel++; idleA = false; trail += "c";
          break;
      }
      if (ev == pa && c.op.cancels != before)
        {want_cancel = false; cancels++;}
      if (ev != pa)
        MC_CHECK(c.op.cancels == before, "a cancellation reached the task outside of its executor");
      observe();
      if (ev == pa || ev == ok || ev == ko) idleB = false;
      if (ev == pb) idleA = idleA && true;
    }
    // run to the end
    for (int i = 0; i < 40 && !mc::failed(); i++)
    {
      int before = c.op.cancels;
      bool any = false;
      while (poll('A') && !mc::failed()) any = true;
      MC_CHECK(!want_cancel || c.op.cancels != before, "a cancellation never reached the operation of the task");
      want_cancel = false;
      while (poll('B') && !mc::failed()) any = true;
      if (c.op.is_pending()) {c.expected_from_op = val(8); c.op.post_complete(error_code{}, 8); any = true;}
      if (!any) break;
    }
    observe();
    if (in_future && !mc::failed())
    {
      MC_CHECK(fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "the future of spawn never became ready");
      std::exception_ptr e;
      int v = 0;
      if (!mc::failed())
      {
        try
        {
          if constexpr (std::is_void_v<T>) fut.get();
          else {T t = fut.get(); v = t.v;}
        }
        catch (...) {e = std::current_exception();}
        complete(e, v);
      }
    }
    MC_CHECK(completions == 1, "the completion of spawn was invoked %d times", completions);
    observe();
    // a late cancellation must not do anything
    if (kind == 0 || kind == 3) emit();
    while (poll('A') && !mc::failed());
    MC_CHECK(c.frames == 0, "%d frames of a finished task are alive", c.frames);
    trail += "/" + c.result.str();
    mc::outcome(trail);
  }
};

// ------------------------------------------------------------------ T03
struct counting_resource : cobalt::pmr::memory_resource
{
  long live = 0;
  void * do_allocate(std::size_t n, std::size_t a) override {live++; return ::operator new(n, std::align_val_t(std::max(a, alignof(std::max_align_t))));}
  void do_deallocate(void * p, std::size_t n, std::size_t a) override {live--; ::operator delete(p, std::align_val_t(std::max(a, alignof(std::max_align_t))));}
  bool do_is_equal(const cobalt::pmr::memory_resource & r) const noexcept override {return this == &r;}
};

template<typename T>
cobalt::task<T> run_body(int & frames, life_guard, int depth, result_t & expected)
{
  cobalt::executor ex = co_await cobalt::this_coro::executor;
  MC_CHECK(cobalt::this_thread::has_executor() && cobalt::this_thread::get_executor() == ex, "inside of run() the thread's executor is not the one of the task");
  auto res = cobalt::this_thread::get_default_resource();
  for (int i = 0; i < (depth > 0 ? 2 : 1); i++)
  {
    int k = mc::choose(depth > 0 ? 5 : depth == 0 ? 4 : 3, "body does (return, throw, post, await a task, nested run)");
    if (k == 0)
    {
      expected = val(std::is_void_v<T> ? 0 : 20 + i);
      if constexpr (std::is_void_v<T>) co_return ;
      else co_return T{20 + i};
    }
    if (k == 1)
    {
      expected = err(30 + i);
      throw my_error(30 + i);
    }
    if (k == 2)
      co_await asio::post(ex, cobalt::use_op);
    if (k == 3)
    {
      result_t r;
      try {co_await run_body<void>(frames, life_guard(frames), -1, r); MC_CHECK(r == val(0), "nested task: expected %s", r.str().c_str());}
      catch (...) {MC_CHECK(r == err(std::current_exception()), "wrong exception from a nested task");}
    }
    if (k == 4)
    {
      result_t r, g;
      try {g = val(cobalt::run(run_body<token>(frames, life_guard(frames), depth - 1, r)).v);}
      catch (...) {g = err(std::current_exception());}
      MC_CHECK(g == r, "nested run gave %s instead of %s", g.str().c_str(), r.str().c_str());
      MC_CHECK(cobalt::this_thread::has_executor() && cobalt::this_thread::get_executor() == ex, "a nested run() does not restore the executor");
      MC_CHECK(cobalt::this_thread::get_default_resource() == res, "a nested run() does not restore the memory resource");
    }
  }
  expected = val(std::is_void_v<T> ? 0 : 29);
  if constexpr (std::is_void_v<T>) co_return ;
  else co_return T{29};
}

template<typename T>
void run_scenario()
{
  int frames = 0;
  counting_resource cr;
  std::optional<asio::io_context> ctx;
  bool had = mc::choose(2, "the thread had an executor before");
  if (had)
  {
    ctx.emplace(1);
    cobalt::this_thread::set_executor(ctx->get_executor());
  }
  else
  {
    asio::io_context c2;
    cobalt::this_thread::set_executor(c2.get_executor());
  }
  MC_CHECK(cobalt::this_thread::has_executor() == had, "the executor of a destroyed context is still set");
  auto old = cobalt::this_thread::set_default_resource(&cr);
  result_t expected, got;
  mc::step();
  try
  {
    if constexpr (std::is_void_v<T>)
    {
      cobalt::run(run_body<void>(frames, life_guard(frames), mc::thorough() ? 2 : 1, expected));
      got = val(0);
    }
    else
      got = val(cobalt::run(run_body<T>(frames, life_guard(frames), mc::thorough() ? 2 : 1, expected)).v);
  }
  catch (...) {got = err(std::current_exception());}
  MC_CHECK(got == expected, "the task ended with %s, but run() gave %s", expected.str().c_str(), got.str().c_str());
  MC_CHECK(frames == 0, "%d frames are alive after run()", frames);
  MC_CHECK(cr.live == 0, "%ld allocations of the thread's resource are alive after run()", cr.live);
  MC_CHECK(cobalt::this_thread::get_default_resource() == &cr, "run() does not restore the memory resource");
  MC_CHECK(cobalt::this_thread::has_executor() == had, "run() leaves %s executor behind", had ? "no" : "a dangling");
  if (had && !mc::failed())
    MC_CHECK(cobalt::this_thread::get_executor() == ctx->get_executor(), "run() does not restore the executor");
  cobalt::this_thread::set_default_resource(old);
  mc::state(mc::mix(frames, got.v * 4 + had));
  mc::outcome((had ? "x/" : "-/") + got.str());
}

template<typename T>
void add()
{
  std::string nm = std::string("<") + tn<T>::name + ">";
  auto wrap = [](auto fn)
  {
    return [fn]
    {
      auto live = pstats.live;
      fn();
      MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
    };
  };
  if (mc::property() == "T01")
    mc::add("task" + nm, wrap([]
    {
      std::optional<lazy<T>> r;
      {mc::quiet q; r.emplace();}
      r->c.max_awaits = mc::thorough() ? 4 : 2;
      r->run();
      {mc::quiet q; r.reset();}
    }));
  if (mc::property() == "T02")
    mc::add("spawn" + nm, wrap([]
    {
      std::optional<spawned<T>> r;
      {mc::quiet q; r.emplace();}
      r->c.max_awaits = mc::thorough() ? 2 : 1;
      r->run(mc::thorough() ? 9 : 6);
      {mc::quiet q; r.reset();}
    }));
  if (mc::property() == "T03")
    mc::add("run" + nm, wrap([]{run_scenario<T>();}));
}
}

MC_MAIN()
{
  add<token>();
  add<mtoken>();
  add<void>();
}
