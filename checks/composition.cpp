// Composed operations (composition.hpp): coroutines that take a completion_handler
#include "cob.hpp"
#include <boost/cobalt/composition.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/asio/deferred.hpp>

using namespace cob;

namespace
{
enum mode {pending, ready, immediate, posted, throws, n_modes};
using ct_t = asio::cancellation_type;

struct runner;
runner * self;

struct runner
{
  world w;
  proc_state ps{w};
  int bodies = 0, frames = 0, args = 0;   // alive: locals of composed ops, awaiting frames, arguments
  bool finished = false, abandoned = false, initiating = false, got_error = false;
  int resumed = 0, depth = 0;
  std::vector<int> got, expected;
  std::string trail;
  // the inner operation that's pending
  struct inner
  {
    int no = 0;
    mode m = pending;
    bool asked = false;
    int cancels = 0, initiated = 0;
    ct_t last{};
    bool resumed = false;
    std::optional<cobalt::completion_handler<error_code, token>> h;
  };
  std::deque<inner> ops;
  inner * pend = nullptr;
  long base_allocs = -1;

  int started = 0, done = 0, ret = 40;
  bool filters = false, later = false;
  ct_t accepts = ct_t::terminal | ct_t::partial | ct_t::total;
  ct_t recorded{};             // what this_coro::cancelled must report
  int n_awaits = 1, kinds = 4;

  inner & add()
  {
    mc::quiet q;
    ops.emplace_back().no = (int)ops.size() - 1;
    return ops.back();
  }
  void decide(inner & s)
  {
    if (s.asked)
      return;
    s.asked = true;
    s.m = (mode)mc::choose(n_modes, "the inner operation completes (later, ready, immediately, posted, initiation throws)");
    mc::quiet q;
    trail += char('a' + s.m);
  }
  void resume_checks()
  {
    MC_CHECK(++resumed == 1, "the awaiter is resumed again");
    MC_CHECK(!initiating, "the awaiter is resumed from within the initiation");
    MC_CHECK(bodies == 0, "%d coroutine frame(s) of the composed operation still alive when the awaiter continues", bodies);
    MC_CHECK(args == 0 || later, "the arguments of the composed operation are still alive when the awaiter continues");
    MC_CHECK(!pend, "resumed while an inner operation is pending");
  }
  void on_value(int v)
  {
    resume_checks();
    MC_CHECK(done == 1, "the composed operation did not end");
    MC_CHECK(!last_code(), "completed without error");
    MC_CHECK(v == 10 + ret, "completed with %d", v);
    mc::quiet q;
    trail += "=";
  }
  void on_error(int id, int v = -100)
  {
    resume_checks();
    if (!done)
    {
      MC_CHECK(!ops.empty() && ops.back().m == throws && id == 77, "the composed operation failed with %d", id);
    }
    else
    {
      MC_CHECK(last_code() == user_code(id), "completed with error %d instead of %s", id, last_code().message().c_str());
      MC_CHECK(v == -100 || v == 10 + ret, "completed with %d", v);
    }
    mc::quiet q;
    trail += "!";
  }
  error_code last_code()
  {
    auto & s = ops.back();
    return s.m == throws ? user_code(30) : code(s);
  }
  error_code code(inner & s) {return s.no % 2 ? user_code(s.no) : error_code{};}
  void complete(inner & s, cobalt::completion_handler<error_code, token> h)
  {
    std::move(h)(code(s), token{10 + s.no});
  }
  void on_ready(inner & s, cobalt::handler<error_code, token> h)
  {
    decide(s);
    if (s.m == ready)
      h(code(s), token{10 + s.no});
  }
  void on_initiate(inner & s, cobalt::completion_handler<error_code, token> h)
  {
    decide(s);
    if (s.m == ready)
      s.m = immediate;
    MC_CHECK(++s.initiated == 1, "initiated again");
    MC_CHECK(h.get_executor() == cobalt::executor(w.ctx.get_executor()), "the handler has another executor");
    switch (s.m)
    {
      case immediate:
      {
        auto ex = asio::get_associated_immediate_executor(h, h.get_executor());
        asio::dispatch(ex, [this, &s, h = std::move(h)]() mutable {complete(s, std::move(h));});
        break;
      }
      case posted:
      {
        auto ex = h.get_executor();
        auto alloc = h.get_allocator();
        asio::post(ex, asio::bind_allocator(alloc, [this, &s, h = std::move(h)]() mutable {complete(s, std::move(h));}));
        break;
      }
      case throws: throw my_error(77);
      default:
      {
        {mc::quiet q; s.h.emplace(std::move(h));}
        pend = &s;
        auto slot = s.h->get_cancellation_slot();
        if (slot.is_connected())
          slot.assign([&s](ct_t ct) {s.cancels++; s.last = ct;});
      }
    }
  }
  cobalt::completion_handler<error_code, token> take(inner & s)
  {
    auto slot = s.h->get_cancellation_slot();
    if (slot.is_connected())
      slot.clear();
    auto h = std::move(*s.h);
    s.h.reset();
    pend = nullptr;
    return h;
  }
};

struct inner_op final : cobalt::op<error_code, token>
{
  runner::inner & s;
  inner_op(runner::inner & s) : s(s) {}
  void ready(cobalt::handler<error_code, token> h) override {self->on_ready(s, std::move(h));}
  void initiate(cobalt::completion_handler<error_code, token> h) override {self->on_initiate(s, std::move(h));}
};
template<typename Token>
auto async_it(runner::inner & s, Token && token)
{
  return asio::async_initiate<Token, void(error_code, cob::token)>([&s](auto h) {self->on_initiate(s, std::move(h));}, token);
}

using result_t2 = std::tuple<error_code, token>;

#define COMPOSED(N, KINDS)                                                                                      \
  life_guard g(self->bodies);                                                                                   \
  self->started++;                                                                                              \
  error_code last;                                                                                              \
  for (int i = 0; i < (N); i++)                                                                                 \
  {                                                                                                             \
    auto c = co_await cobalt::this_coro::cancelled;                                                             \
    MC_CHECK(c == self->recorded, "this_coro::cancelled is %d instead of %d", (int)c, (int)self->recorded);     \
    if (self->filters && mc::choose(2, "filter (as is, set to terminal)"))                                      \
    {                                                                                                           \
      co_await cobalt::this_coro::reset_cancellation_state(asio::enable_terminal_cancellation());               \
      self->accepts = ct_t::terminal;                                                                           \
      self->recorded = ct_t::none;                                                                              \
    }                                                                                                           \
    MC_CHECK(co_await cobalt::this_coro::executor == cobalt::executor(self->w.ctx.get_executor()), "this_coro::executor is another one"); \
    auto & s = self->add();                                                                                     \
    bool escape = false;                                                                                        \
    int k = mc::choose(KINDS, "await (op, use_op, deferred, a composed operation)");                            \
    try                                                                                                         \
    {                                                                                                           \
      result_t2 r;                                                                                              \
      switch (k)                                                                                                \
      {                                                                                                         \
        case 0: r = co_await inner_op(s); break;                                                                \
        case 1: r = co_await async_it(s, cobalt::use_op); break;                                                \
        case 2: r = co_await async_it(s, asio::deferred); break;                                                \
        default: NESTED                                                                                         \
      }                                                                                                         \
      MC_CHECK(s.m != throws, "the exception of the initiation is gone");                                       \
      MC_CHECK(!s.resumed && !s.h, "resumed again, or while the operation is pending");                         \
      s.resumed = true;                                                                                         \
      MC_CHECK(std::get<0>(r) == self->code(s), "the await yields another error code");                         \
      MC_CHECK(std::get<1>(r).v == 10 + s.no, "the await yields %d", std::get<1>(r).v);                         \
      last = std::get<0>(r);                                                                                    \
    }                                                                                                           \
    catch (my_error & e)                                                                                        \
    {                                                                                                           \
      MC_CHECK(s.m == throws && e.id == 77, "unexpected exception");                                            \
      escape = self->initiating && mc::choose(2, "the exception is (caught, not caught)");                      \
      if (escape) throw;                                                                                        \
      last = user_code(30);                                                                                     \
    }                                                                                                           \
  }                                                                                                             \
  self->done++;                                                                                                 \
  co_return {last, token{10 + self->ret}};

struct nested_op final : cobalt::op<error_code, token>
{
  runner::inner & s;
  nested_op(runner::inner & s) : s(s) {}
  void initiate(cobalt::completion_handler<error_code, token>) override
  {
    life_guard g(self->bodies);
    auto [ec, t] = co_await inner_op(s);
    co_return {ec, std::move(t)};
  }
};

#define NESTED r = co_await nested_op(s); break;

// as a member
struct composed_op final : cobalt::op<error_code, token>
{
  void initiate(cobalt::completion_handler<error_code, token>) override
  {
    COMPOSED(self->n_awaits, self->kinds)
  }
};
// as a function, with arguments that live as long as the coroutine
void composed(life_guard, mtoken m, cobalt::completion_handler<error_code, token>)
{
  COMPOSED(self->n_awaits, self->kinds)
}

struct outer_op final : cobalt::op<error_code, token>
{
  int how;
  outer_op(int how) : how(how) {}
  composed_op direct;
  void initiate(cobalt::completion_handler<error_code, token> h) override
  {
    switch (how)
    {
      case 0: return direct.initiate(std::move(h));
      case 1: return composed(life_guard(self->args), mtoken{3}, std::move(h));
      case 2: // later
      {
        auto slot = h.get_cancellation_slot();
        asio::post(self->w.ctx, [h = std::move(h)]() mutable {composed(life_guard(self->args), mtoken{3}, std::move(h));});
        return;
      }
      case 3: // through the immediate executor
      {
        auto ex = asio::get_associated_immediate_executor(h, h.get_executor());
        asio::dispatch(ex, [h = std::move(h)]() mutable {composed(life_guard(self->args), mtoken{3}, std::move(h));});
        return;
      }
    }
  }
};
struct flagged_op final : cobalt::op<error_code, token>
{
  outer_op o;
  flagged_op(int how) : o(how) {}
  void initiate(cobalt::completion_handler<error_code, token> h) override
  {
    self->initiating = true;
    struct reset {~reset() {self->initiating = false;}} r;
    o.initiate(std::move(h));
    MC_CHECK(!self->resumed, "the coroutine was resumed from within the initiation");
  }
};

#define AWAITER                                                                                                 \
  self->base_allocs = mc::live_allocs();                                                                        \
  flagged_op op(how);                                                                                           \
  int api = mc::choose(3, "await (plain, as_result, as_tuple)");                                                \
  try                                                                                                           \
  {                                                                                                             \
    if (api == 0)                                                                                               \
      self->on_value((co_await op).v);                                                                          \
    else if (api == 1)                                                                                          \
    {                                                                                                           \
      auto r = co_await cobalt::as_result(op);                                                                  \
      if (r.has_error()) self->on_error(error_id(std::make_exception_ptr(boost::system::system_error(r.error())))); \
      else               self->on_value(r->v);                                                                  \
    }                                                                                                           \
    else                                                                                                        \
    {                                                                                                           \
      auto [ec, t] = co_await cobalt::as_tuple(op);                                                             \
      if (ec) self->on_error(error_id(std::make_exception_ptr(boost::system::system_error(ec))), t.v);          \
      else    self->on_value(t.v);                                                                              \
    }                                                                                                           \
  }                                                                                                             \
  catch (...)                                                                                                   \
  {                                                                                                             \
    self->on_error(error_id(std::current_exception()));                                                         \
  }                                                                                                             \
  self->finished = true;

struct awaiters
{
  static proc as_proc(proc_state &, life_guard, int how) {AWAITER}
  static cobalt::promise<void> as_promise(life_guard, int how) {co_await cobalt::this_coro::throw_if_cancelled(false); AWAITER}
};
}

namespace
{
void run(int coro, int how, int n, int kinds, int max_cancels, bool filters)
{
  std::optional<runner> store;
  {mc::quiet q; store.emplace();}
  self = &*store;
  auto & r = *self;
  r.n_awaits = n;
  r.kinds = kinds;
  r.filters = filters;
  r.later = how == 2;     // its caller, thus the temporary arguments, may still be on the stack
  auto live = pstats.live;
  std::optional<cobalt::promise<void>> p;
  if (coro == 0)
    awaiters::as_proc(r.ps, life_guard(r.frames), how);
  else
    p.emplace(awaiters::as_promise(life_guard(r.frames), how));

  int cancels = 0, steps = 0;
  while (!mc::failed() && !r.finished && !r.abandoned)
  {
    MC_CHECK(r.frames == 1, "%d awaiting frames alive", r.frames);
    mc::state(mc::mix(r.ops.size() * 16 + (r.pend ? r.pend->no + 1 : 0), cancels * 64 + r.done * 2 + r.bodies * 8 + (int)r.recorded * 1024));
    if (!r.pend)
    {
      if (!r.w.poll_one())
        mc::fail("the awaiter isn't resumed, although nothing is pending");
      MC_CHECK(++steps < 100, "livelock");
      continue;
    }
    if (how != 2 && coro == 0)
      MC_CHECK(mc::live_allocs() == r.base_allocs, "the composed operation doesn't use the memory of its handler");
    mc::step();
    auto & s = *r.pend;
    int e = mc::choose(cancels < max_cancels ? 6 : 3, "event (complete, abandon, complete through the executor, cancel terminal/partial/total)");
    switch (e)
    {
      case 0: r.complete(s, r.take(s)); break;
      case 1:
      {
        r.abandoned = true;
        {mc::quiet q; r.trail += '#';}
        auto h = r.take(s);
        (void)h;
        break;
      }
      case 2:
      {
        auto h = r.take(s);
        auto ex = h.get_executor();
        auto alloc = h.get_allocator();
        asio::post(ex, asio::bind_allocator(alloc, [&r, &s, h = std::move(h)]() mutable {r.complete(s, std::move(h));}));
        break;
      }
      default:
      {
        ct_t ct = e == 3 ? ct_t::terminal : e == 4 ? ct_t::partial : ct_t::total;
        cancels++;
        {mc::quiet q; r.trail += "c" + std::to_string(e - 3);}
        int before = s.cancels;
        if (coro == 0)
          r.ps.signal.emit(ct);
        else
          p->cancel(ct);
        bool expect = (ct & r.accepts) != ct_t::none;
        // a promise lets everything pass by default
        MC_CHECK(s.cancels == before + expect, "the pending inner operation got %d cancellations instead of %d", s.cancels - before, expect);
        r.recorded = expect ? ct : ct_t::none;    // asio records what passes the filter, even if it's nothing
        if (expect)
          MC_CHECK(s.last == ct, "the inner operation got a cancellation of another type");
      }
    }
  }
  if (mc::failed())
    return;
  r.w.drain();
  MC_CHECK(r.frames == 0, "the awaiter is not destroyed");
  MC_CHECK(r.bodies == 0, "%d frames of composed operations leaked", r.bodies);
  MC_CHECK(r.args == 0, "the arguments of the composed operation leaked");
  MC_CHECK(r.finished == !r.abandoned || r.finished, "not resumed");
  p.reset();
  MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
  mc::outcome(r.trail);
  mc::quiet q;
  store.reset();
}
}

MC_MAIN()
{
  const char * co[] = {"foreign coroutine", "promise"};
  const char * hw[] = {"member", "function", "started later", "started through the immediate executor"};
  int n = mc::thorough() ? 3 : 2;
  for (int c = 0; c < 2; c++)
    for (int h = 0; h < 4; h++)
    {
      mc::add(std::string("composed/") + co[c] + "/" + hw[h], [=] {run(c, h, n, 4, 1, false);});
      mc::add(std::string("filters/") + co[c] + "/" + hw[h], [=] {run(c, h, 2, 1, 2, true);});
    }
}
