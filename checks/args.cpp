// executors and memory resources of coroutines: arguments, defaults, and when those change or are missing
#include "cob.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/asio/strand.hpp>
#include <memory_resource>

using namespace cob;
namespace pmr = std::pmr;
using boost::cobalt::executor;

namespace
{
struct resource final : pmr::memory_resource
{
  int id;
  std::map<void *, std::pair<std::size_t, std::size_t>> live;
  int fail_after = -1, failed = 0, total = 0;
  explicit resource(int i) : id(i) {}
  void * do_allocate(std::size_t n, std::size_t a) override
  {
    total++;
    if (fail_after == 0)
    {
      failed++;
      throw std::bad_alloc();
    }
    if (fail_after > 0) fail_after--;
    mc::quiet q;
    void * p = ::operator new(n, std::align_val_t(a));
    std::memset(p, 0xA5, n);
    live[p] = {n, a};
    return p;
  }
  void do_deallocate(void * p, std::size_t n, std::size_t a) override
  {
    mc::quiet q;
    auto it = live.find(p);
    MC_CHECK(it != live.end(), "memory of another resource is given back to resource %d", id);
    if (it == live.end()) return;
    MC_CHECK(it->second == std::make_pair(n, a), "%zu bytes aligned %zu are given back instead of %zu aligned %zu", n, a, it->second.first, it->second.second);
    live.erase(it);
    std::memset(p, 0x5A, n);
    ::operator delete(p, std::align_val_t(a));
  }
  bool do_is_equal(const memory_resource & o) const noexcept override {return this == &o;}
};

using alloc_t = pmr::polymorphic_allocator<void>;

struct report
{
  env_op<error_code> op;
  int stage = 0;                    // 1: started, 2: resumed, 3: done
  std::optional<executor> exec;
  pmr::memory_resource * res = nullptr;
  int ran_on = -1;
  int held = 0;                     // arguments alive
  report() {op.mode = on_cancel::ignore;}
};
int current = -1;                   // which context is running

#define BODY(Report, Result, Ret)                                  \
  auto & R = Report;                                               \
  R.stage = 1;                                                     \
  R.exec = co_await cobalt::this_coro::executor;                   \
  alloc_t Al = co_await cobalt::this_coro::allocator;              \
  R.res = Al.resource();                                           \
  co_await env_wait(R.op);                                         \
  R.ran_on = current;                                              \
  R.stage = 2;                                                     \
  Ret

template<typename T> struct returns {static constexpr bool value = true;};
struct arg   // an argument that must live as long as the frame
{
  int * n;
  explicit arg(int & n) : n(&n) {n++;}
  arg(const arg & a) : n(a.n) {++*n;}
  ~arg() {--*n;}
};

template<typename Co>
struct factory;

#define FACTORY(Co, Ret)                                                                                                    \
template<> struct factory<Co>                                                                                               \
{                                                                                                                           \
  static Co plain(report & r, arg) {BODY(r, , Ret);}                                                                         \
  static Co exec_last(report & r, arg, asio::executor_arg_t, executor) {BODY(r, , Ret);}                                     \
  static Co exec_first(asio::executor_arg_t, asio::io_context::executor_type, arg, report & r) {BODY(r, , Ret);}             \
  static Co strand(arg, asio::executor_arg_t, asio::strand<executor>, report & r) {BODY(r, , Ret);}                          \
  static Co alloc_last(report & r, arg, std::allocator_arg_t, alloc_t) {BODY(r, , Ret);}                                     \
  static Co alloc_first(std::allocator_arg_t, pmr::polymorphic_allocator<char> &, arg, report & r, int) {BODY(r, , Ret);}    \
  static Co both(std::allocator_arg_t, alloc_t, asio::executor_arg_t, executor, report & r, arg) {BODY(r, , Ret);}           \
  static Co both_reverse(asio::executor_arg_t, const executor &, arg, std::allocator_arg_t, const alloc_t &, report & r) {BODY(r, , Ret);} \
  Co member(report & r, std::allocator_arg_t, alloc_t, arg, asio::executor_arg_t, executor) {BODY(r, , Ret);}                \
  Co member_plain(arg, report & r) {BODY(r, , Ret);}                                                                         \
};
FACTORY(cobalt::promise<int>, co_return 42)
FACTORY(cobalt::task<int>, co_return 42)
FACTORY(cobalt::generator<int>, co_yield 41; co_return 42)
using gen2 = cobalt::generator<int, int>;
FACTORY(gen2, co_yield 41; co_return 42)
FACTORY(cobalt::detached, co_return)

constexpr int n_signatures = 11;
const char * const signatures[] = {"plain", "exec_last", "exec_first", "strand", "alloc_last", "alloc_first", "both", "both_reverse", "member", "member_plain", "lambda"};
bool has_exec(int s) {return s == 1 || s == 2 || s == 3 || s == 6 || s == 7 || s == 8;}
bool has_alloc(int s) {return s == 4 || s == 5 || s == 6 || s == 7 || s == 8;}

struct env
{
  std::optional<asio::io_context> ctx[2];
  resource global{0}, local1{1}, local2{2}, given{3};
  pmr::memory_resource * old_global = nullptr, * old_local = nullptr;
  env()
  {
    ctx[0].emplace(1);
    ctx[1].emplace(1);
    old_global = pmr::set_default_resource(&global);
    old_local = cobalt::this_thread::set_default_resource(&local1);
  }
  ~env()
  {
    cobalt::this_thread::set_default_resource(old_local);
    pmr::set_default_resource(old_global);
  }
  std::size_t live() const {return global.live.size() + local1.live.size() + local2.live.size() + given.live.size();}
  void poll(int i)
  {
    current = i;
    ctx[i]->restart();
    ctx[i]->poll();
    current = -1;
  }
};

// awaits things, without an executor of its own
struct bare
{
  struct promise_type
  {
    bare get_return_object() {return {};}
    std::suspend_never initial_suspend() noexcept {return {};}
    std::suspend_never final_suspend() noexcept {return {};}
    void unhandled_exception() {std::terminate();}
    void return_void() {}
  };
};
struct awaiting
{
  bool done = false;
  int result = 0, ran_on = -1;
  std::exception_ptr error;
};
template<typename Aw>
bare await_bare(awaiting & a, Aw aw)
{
  try {a.result = co_await aw;}
  catch (...) {a.error = std::current_exception();}
  a.ran_on = current;
  a.done = true;
}
template<typename Aw>
proc await_proc(proc_state &, awaiting & a, Aw aw)
{
  try {a.result = co_await aw;}
  catch (...) {a.error = std::current_exception();}
  a.ran_on = current;
  a.done = true;
}

template<typename Co>
void run()
{
  constexpr bool is_task = std::is_same_v<Co, cobalt::task<int>>;
  constexpr bool is_detached = std::is_same_v<Co, cobalt::detached>;
  constexpr bool is_gen2 = std::is_same_v<Co, gen2>;
  constexpr bool is_gen = std::is_same_v<Co, cobalt::generator<int>> || is_gen2;
  static world * w = nullptr;      // for the process that awaits
  std::optional<env> e_;
  {
    mc::quiet q;
    if (!w) w = new world;
    e_.emplace();
  }
  auto & e = *e_;
  int have = mc::choose(3, "the executor of the thread (first context, second context, none)");
  {
    mc::quiet q;
    if (have < 2)
      cobalt::this_thread::set_executor(e.ctx[have]->get_executor());
    else
    {
      asio::io_context gone{1};
      cobalt::this_thread::set_executor(gone.get_executor());
    }
  }
  MC_CHECK(cobalt::this_thread::has_executor() == (have < 2), "has_executor");
  if (have < 2)
    MC_CHECK(cobalt::this_thread::get_executor() == executor(e.ctx[have]->get_executor()), "get_executor");
  int sig = mc::choose(n_signatures, "signature");
  if (mc::logging()) mc::note("signature %s", signatures[sig]);
  int target = mc::choose(2, "the executor given (first, second)");
  if (!has_exec(sig) && target) target = 0;
  bool changed = mc::choose(2, "(the default resource is kept, is changed before)");
  if (changed)
    cobalt::this_thread::set_default_resource(&e.local2);
  resource * expect_res = has_alloc(sig) ? &e.given : is_task ? &e.global : changed ? &e.local2 : &e.local1;
  bool oom = mc::choose(2, "(memory, out of memory)");
  if (oom)
    expect_res->fail_after = 0;
  report rep;
  proc_state * ps = nullptr;
  std::optional<proc_state> ps_;
  std::optional<Co> co;
  factory<Co> self;
  alloc_t alloc(&e.given);
  pmr::polymorphic_allocator<char> calloc(&e.given);
  executor ex;
  std::optional<asio::strand<executor>> strand;
  {
    mc::quiet q;
    ex = e.ctx[target]->get_executor();
    if (sig == 3) strand.emplace(ex);
  }
  // the executor the coroutine should have
  bool no_exec = !is_task && !has_exec(sig) && have == 2;
  auto lambda = [&rep, v = 7](arg a, int) -> Co
  {
    MC_CHECK(v == 7, "captures");
    BODY(rep, , (void)a; if constexpr (is_gen) co_yield 41; if constexpr (!is_detached) co_return 42; else co_return);
  };
  std::exception_ptr thrown;
  {
    arg a(rep.held);
    try
    {
      auto keep = [&](Co && c) {co.emplace(std::move(c));};
      using F = factory<Co>;
      switch (sig)
      {
        case 0: keep(F::plain(rep, a)); break;
        case 1: keep(F::exec_last(rep, a, asio::executor_arg, ex)); break;
        case 2: keep(F::exec_first(asio::executor_arg, e.ctx[target]->get_executor(), a, rep)); break;
        case 3: keep(F::strand(a, asio::executor_arg, *strand, rep)); break;
        case 4: keep(F::alloc_last(rep, a, std::allocator_arg, alloc)); break;
        case 5: keep(F::alloc_first(std::allocator_arg, calloc, a, rep, 1)); break;
        case 6: keep(F::both(std::allocator_arg, alloc, asio::executor_arg, ex, rep, a)); break;
        case 7: keep(F::both_reverse(asio::executor_arg, ex, a, std::allocator_arg, alloc, rep)); break;
        case 8: keep(self.member(rep, std::allocator_arg, alloc, a, asio::executor_arg, ex)); break;
        case 9: keep(self.member_plain(a, rep)); break;
        case 10: keep(lambda(a, 1)); break;
      }
    }
    catch (...) {thrown = std::current_exception();}
  }
  expect_res->fail_after = -1;
  // what follows must not depend on the defaults at this time
  int later = mc::choose(2, "(the defaults are kept, other ones from now on)");
  if (later)
  {
    mc::quiet q;
    cobalt::this_thread::set_default_resource(changed ? &e.local1 : &e.local2);
    if (have < 2 && !is_task)
      cobalt::this_thread::set_executor(e.ctx[1 - have]->get_executor());
  }
  auto others = [&]
  {
    for (auto r : {&e.global, &e.local1, &e.local2, &e.given})
      if (r != expect_res)
        MC_CHECK(r->live.empty() && r->total == 0, "memory from resource %d instead of %d is used", r->id, expect_res->id);
  };
  if (oom || no_exec)
  {
    bool ok = false;
    try {if (thrown) std::rethrow_exception(thrown);}
    catch (std::bad_alloc &) {ok = oom;}
    catch (asio::bad_executor &) {ok = no_exec;}
    catch (...) {}
    MC_CHECK(thrown, "does not throw, although there is no %s", oom ? "memory" : "executor");
    MC_CHECK(ok, "throws '%s'", what(thrown).c_str());
    MC_CHECK(rep.stage == 0, "the coroutine runs");
    MC_CHECK(rep.held == 0, "%d arguments leak", rep.held);
    MC_CHECK(e.live() == 0, "memory leaks");
    others();
    mc::outcome(oom ? "oom" : "no executor");
  }
  else
  {
    MC_CHECK(!thrown, "throws '%s'", what(thrown).c_str());
    if (mc::failed()) return;
    if (!is_task)
      MC_CHECK(rep.stage == 1, "is not started");
    MC_CHECK(rep.held == 1, "%d arguments instead of 1", rep.held);
    MC_CHECK(expect_res->live.size() >= 1, "the frame is not from resource %d", expect_res->id);
    others();
    int expect_ctx = has_exec(sig) ? target : have;
    awaiting aw;
    bool spawned = false;
    int how = 0;
    if constexpr (is_task)
    {
      how = mc::choose(4, "(never awaited, by a coroutine with an executor, by one without, spawned)");
      int on = mc::choose(2, "on (first, second)");
      if (how == 2)
      {
        if (have == 2) how = 0;      // would need an executor
        else expect_ctx = have;
      }
      else
        expect_ctx = on;
      if (how == 1 || how == 3)
      {
        mc::quiet q;
        ps_.emplace(*w);
        ps_->exec = e.ctx[on]->get_executor();
        ps = &*ps_;
      }
      if (how == 1)
        await_proc(*ps, aw, std::move(*co));
      else if (how == 2)
        await_bare(aw, std::move(*co));
      else if (how == 3)
      {
        spawned = true;
        cobalt::spawn(executor(e.ctx[on]->get_executor()), std::move(*co), [&](std::exception_ptr ep, int v)
        {
          aw.error = ep;
          aw.result = v;
          aw.ran_on = current;
          aw.done = true;
        });
        MC_CHECK(rep.stage == 0, "spawn runs the task at once");
        e.poll(1 - on);
        MC_CHECK(rep.stage == 0, "the task starts on another executor");
        e.poll(on);
      }
      if (how)
        co.reset();
      MC_CHECK(rep.stage == (how ? 1 : 0), how ? "is not started" : "is started");
    }
    if (mc::failed()) return;
    if (rep.stage)
    {
      executor want;
      {
        mc::quiet q;
        if (sig == 3 && !is_task) want = *strand;
        else want = e.ctx[expect_ctx]->get_executor();
      }
      MC_CHECK(rep.exec && *rep.exec == want, "this_coro::executor is wrong");
      MC_CHECK(rep.res == expect_res, "this_coro::allocator is wrong");
      MC_CHECK(rep.op.is_pending(), "the operation was not initiated");
      if (mc::failed()) return;
      MC_CHECK(asio::get_associated_executor(*rep.op.handler, executor()) == want, "the executor of the handler is wrong");
    }
    // the end
    int pushed = 1;
    (void)pushed;
    bool with_awaiter = false;
    int end = mc::choose(rep.stage ? 3 : 1, "(destroyed, completed and destroyed, abandoned)");
    if (end == 1)
    {
      if constexpr (!is_task && !is_detached)
      {
        with_awaiter = mc::choose(2, "(not awaited, awaited)");
        if (with_awaiter)
        {
          if constexpr (is_gen2) await_bare(aw, (*co)(pushed));
          else await_bare(aw, [&]() -> decltype(auto) {if constexpr (is_gen) return static_cast<Co&>(*co).operator co_await(); else return std::move(*co).operator co_await();}());
        }
      }
      rep.op.post_complete(error_code{});
      e.poll(1 - expect_ctx);
      MC_CHECK(rep.stage == 1, "resumed on another executor");
      e.poll(expect_ctx);
      MC_CHECK(rep.stage == 2 && rep.ran_on == expect_ctx, "not resumed on its executor");
      if constexpr (is_task)
        if (spawned)
        {
          e.poll(expect_ctx);
        }
      if (with_awaiter || is_task)
      {
        MC_CHECK(aw.done && !aw.error && aw.result == (is_gen ? 41 : 42), "the awaiter gets the wrong result");
        MC_CHECK(aw.ran_on == expect_ctx, "the awaiter runs elsewhere");
      }
      co.reset();
    }
    else if (end == 2)
    {
      rep.op.abandon();
      co.reset();
    }
    else
    {
      co.reset();
      if (rep.op.is_pending())
      {
        if (mc::choose(2, "(the operation is abandoned, completes later)"))
        {
          rep.op.post_complete(error_code{});
          e.poll(1 - expect_ctx);
          e.poll(expect_ctx);
          MC_CHECK(rep.stage == 2 && rep.ran_on == expect_ctx, "not resumed on its executor");
        }
        else
          rep.op.abandon();
      }
    }
    others();
    for (int i = 0; i < 4; i++)
      e.poll(i % 2);
    MC_CHECK(rep.held == 0, "%d arguments are still alive", rep.held);
    MC_CHECK(e.live() == 0, "%zu blocks are still allocated", e.live());
    mc::outcome(std::string(signatures[sig]) + std::to_string(how) + std::to_string(end));
  }
  mc::step(3);
  mc::state(mc::mix(sig, have * 64 + target * 32 + changed * 16 + oom * 8 + later));
  if (mc::failed()) return;
  // the context takes its executor away from the thread
  bool was = cobalt::this_thread::has_executor();
  int last = was && cobalt::this_thread::get_executor() == executor(e.ctx[0]->get_executor()) ? 0 : 1;
  strand.reset();
  ex = {};
  rep.exec.reset();
  {
    mc::quiet q;
    e.ctx[1 - last].reset();
    MC_CHECK(cobalt::this_thread::has_executor() == was, "the end of another context takes the executor away");
    e.ctx[last].reset();
    MC_CHECK(!cobalt::this_thread::has_executor(), "has_executor after the end of the context");
    try
    {
      cobalt::this_thread::get_executor();
      MC_CHECK(false, "get_executor returns the executor of a destroyed context");
    }
    catch (asio::bad_executor &) {}
    e_.reset();
  }
}
}

MC_MAIN()
{
  mc::add("promise", [] {run<cobalt::promise<int>>();});
  mc::add("task", [] {run<cobalt::task<int>>();});
  mc::add("generator", [] {run<cobalt::generator<int>>();});
  mc::add("generator/push", [] {run<gen2>();});
  mc::add("detached", [] {run<cobalt::detached>();});
}
