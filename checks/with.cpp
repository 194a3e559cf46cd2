// with: the teardown runs exactly once, whatever happens
#include "cob.hpp"
#include <boost/cobalt/with.hpp>

using namespace cob;

namespace
{
enum teardown_does {leave, swallow, replace};

struct base
{
  world w;
  ctl_state body, exit;
  proc_state ps{w};
  int args = 0;                       // instances of the argument
  bool sync = false;
  bool is_void = false;
  int body_calls = 0, exit_calls = 0;
  result_t body_result, exit_result;  // how they ended
  result_t seen;                      // what the teardown got
  result_t got;                       // what the awaiter got
  bool done = false, destroyed = false;
  int exit_does = leave;
  std::string trail;
  int ext_cancels = 0, body_cancels = 0;

  base()
  {
    body.id = 1; exit.id = 2;
    for (auto s : {&body, &exit})
    {
      s->on_ready = [this](ctl_state & s)
      {
        MC_CHECK(args == 1, "%d instances of the argument are alive when something gets awaited", args);
        trail += char('0' + s.id);
        switch (mc::choose(6, "it is (pending, ready value, completes in suspend, ready error, throws in suspend, fails in suspend)"))
        {
          case 0: trail += "p"; break;
          case 1: s.ready = true; s.result = val(10 * s.id); trail += "r"; break;
          case 2: s.at_once = true; s.result = val(10 * s.id); trail += "i"; break;
          case 3: s.ready = true; s.result = err(20 + s.id); trail += "R"; break;
          case 4: s.throws = true; s.result = err(20 + s.id); trail += "T"; ended(s); break;
          case 5: s.at_once = true; s.result = err(20 + s.id); trail += "I"; break;
        }
      };
      s->on_done = [this](ctl_state & s) {ended(s);};
    }
  }
  void ended(ctl_state & s)
  {
    (s.id == 1 ? body_result : exit_result) = s.result;
  }
  void body_called()
  {
    body_calls++;
    MC_CHECK(args == 1, "%d instances of the argument are alive when the function gets called", args);
    MC_CHECK(body_calls == 1, "the function is called again");
    MC_CHECK(exit_calls == 0, "the function is called after the teardown");
    if (sync)
    {
      if (mc::choose(2, "function succeeds/throws"))
      {
        trail += "f!";
        body_result = err(21);
        throw my_error(21);
      }
      trail += "f.";
      body_result = val(10);
    }
    else if (mc::choose(2, "function returns an awaitable/throws"))
    {
      trail += "f!";
      body_result = err(22);
      throw my_error(22);
    }
  }
  void exit_called(std::exception_ptr & e)
  {
    exit_calls++;
    MC_CHECK(exit_calls == 1, "the teardown is called again");
    MC_CHECK(args == 1, "%d instances of the argument are alive when the teardown gets called", args);
    MC_CHECK(body_result.kind != result_t::none, "the teardown is called although the function isn't done");
    seen = e ? err(e) : val(0);
    auto exp = body_result.kind == result_t::error ? body_result : val(0);
    MC_CHECK(seen == exp, "the teardown got %s, the function ended with %s", seen.str().c_str(), body_result.str().c_str());
    exit_does = mc::choose(is_void ? 4 : 3, is_void ? "teardown (leaves the exception alone, sets it, throws, clears it)" : "teardown (leaves the exception alone, sets it, throws)");
    trail += "x" + std::to_string(exit_does);
  }
  void exit_acts(std::exception_ptr & e)
  {
    if (exit_does == 1)
      e = std::make_exception_ptr(my_error(31));
    else if (exit_does == 3)
      e = nullptr;
    else if (exit_does == 2)
    {
      exit_result = err(32);
      throw my_error(32);
    }
  }
  result_t expected() const
  {
    result_t e = body_result;
    if (exit_does == 1)
      e = err(31);
    if (exit_does == 3)
      e = val(0);
    if (e.kind != result_t::error && exit_result.kind == result_t::error)
      e = exit_result;
    if (e.kind != result_t::error)
      e = val(is_void ? 0 : 10);
    return e;
  }
  void awaited()
  {
    done = true;
    MC_CHECK(args == 0, "the argument still lives when the awaiter continues");
    MC_CHECK(exit_calls == 1, "the teardown was called %d times", exit_calls);
    MC_CHECK(exit_result.kind != result_t::none, "the awaiter continues before the teardown is done");
    auto exp = expected();
    MC_CHECK(got == exp, "the awaiter got %s, expected %s (function %s, teardown %s)", got.str().c_str(), exp.str().c_str(), body_result.str().c_str(), exit_result.str().c_str());
  }

  ctl_state * pending() {return body.pending ? &body : exit.pending ? &exit : nullptr;}

  void run(std::function<void()> start)
  {
    start();
    int cancels = 0;
    while (!mc::failed() && !done && !destroyed)
    {
      auto p = pending();
      if (!p)
      {
        mc::fail("nothing is pending, but the awaiter isn't resumed");
        break;
      }
      mc::step();
      switch (mc::choose(cancels < (mc::thorough() ? 3 : 2) ? 7 : 4, "event (succeeds, fails, fails with operation_aborted, abandoned, cancel terminal/partial/total)"))
      {
        case 0: trail += "+"; p->complete(val(10 * p->id)); break;
        case 1: trail += "-"; p->complete(err(20 + p->id)); break;
        case 2: trail += "a"; p->complete(err(e_aborted)); break;
        case 3:
          trail += "d";
          destroyed = true;
          p->abandon();
          MC_CHECK(ps.destroyed, "the operation was abandoned, but the awaiter isn't destroyed");
          MC_CHECK(!done, "the awaiter continued though its operation was abandoned");
          MC_CHECK(args == 0, "the argument outlives the abandoned coroutine");
          break;
        default:
        {
          cancels++;
          const asio::cancellation_type cts[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total};
          auto ct = cts[mc::choose(3, "cancellation type")];
          int n = p->n_cancel;
          trail += "c";
          ps.signal.emit(ct);
          MC_CHECK(p->n_cancel == n + 1 && p->last_cancel == ct, "a cancellation isn't forwarded: %d received, type %d instead of %d", p->n_cancel - n, (int)p->last_cancel, (int)ct);
        }
      }
      mc::state(mc::mix(mc::mix(body_result.v * 7 + body_result.kind, exit_result.v * 7 + exit_result.kind), cancels * 8 + done * 4 + destroyed * 2 + (p == &body)));
    }
    if (done)
    {
      MC_CHECK(ps.finished && ps.destroyed, "the awaiter is not finished");
      ps.signal.emit(asio::cancellation_type::all);    // must not reach anything anymore
    }
    mc::outcome(trail + "=" + got.str());
  }
};

struct arg_t          // move only, and can be torn down
{
  base * b;
  bool moved = false;
  explicit arg_t(base & b) : b(&b) {count(1);}
  arg_t(arg_t && r) noexcept : b(r.b), moved(r.moved) {r.moved = true; r.count(-1);}
  arg_t & operator=(arg_t &&) = delete;
  ~arg_t() {count(-1);}
  bool counted = false;
  void count(int n) {b->args += (n > 0) != counted ? n : 0; counted = n > 0;}
};

struct exit_op : ctl<void>
{
  base * b;
  std::exception_ptr * e;
  void await_resume() {ctl<void>::await_resume();}
};
struct member_arg : arg_t
{
  using arg_t::arg_t;
  member_arg(member_arg && r) noexcept : arg_t(std::move(r)) {this->count(1);}
  exit_op await_exit(std::exception_ptr & e) &&
  {
    MC_CHECK(!moved, "the argument was moved away");
    b->exit_called(e);
    b->exit_acts(e);
    return {{&b->exit}, b, &e};
  }
};
struct free_arg : arg_t
{
  using arg_t::arg_t;
  free_arg(free_arg && r) noexcept : arg_t(std::move(r)) {this->count(1);}
};

template<typename A>
auto teardown_ref()
{
  return [](A && a, std::exception_ptr & e) -> exit_op
  {
    MC_CHECK(!a.moved, "the argument was moved away");
    a.b->exit_called(e);
    a.b->exit_acts(e);
    return {{&a.b->exit}, a.b, &e};
  };
}
template<typename A>
auto teardown_val()      // gets the exception by value
{
  return [](A && a, std::exception_ptr e) -> exit_op
  {
    MC_CHECK(!a.moved, "the argument was moved away");
    a.b->exit_called(e);
    if (a.b->exit_does == 2)
      a.b->exit_acts(e);
    else
      a.b->exit_does = 0;
    return {{&a.b->exit}, a.b, nullptr};
  };
}

template<typename T, typename Mk>
proc await_it(proc_state &, base & b, Mk mk)
{
  try
  {
    if constexpr (std::is_void_v<T>)
    {
      co_await mk();
      b.got = val(0);
    }
    else
    {
      T t = co_await mk();
      b.got = val(as_int(t));
    }
  }
  catch (...) {b.got = err(std::current_exception());}
  b.awaited();
}

template<typename T> const char * name();
template<> const char * name<token>() {return "copyable";}
template<> const char * name<mtoken>() {return "move-only";}
template<> const char * name<void>() {return "void";}

template<typename T, bool Sync, int Teardown>
void go(base & b)
{
  b.sync = Sync;
  b.is_void = std::is_void_v<T>;
  auto f = [](auto & a)
  {
    a.b->body_called();
    if constexpr (!Sync)
      return ctl<T>{&a.b->body};
    else if constexpr (!std::is_void_v<T>)
      return T{10};
  };
  auto live = pstats.live;
  b.run([&]
  {
    if constexpr (Teardown == 0)
      await_it<T>(b.ps, b, [&]{return cobalt::with(member_arg(b), f);});
    else if constexpr (Teardown == 1)
      await_it<T>(b.ps, b, [&]{return cobalt::with(free_arg(b), f, teardown_ref<free_arg>());});
    else
      await_it<T>(b.ps, b, [&]{return cobalt::with(free_arg(b), f, teardown_val<free_arg>());});
  });
  MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
  MC_CHECK(b.args == 0, "%d argument(s) leaked", b.args);
}

template<typename T, bool Sync, int Teardown>
void add()
{
  const char * tds[] = {"await_exit", "teardown", "teardown by value"};
  mc::add(std::string("with<") + name<T>() + ">/" + (Sync ? "synchronous" : "asynchronous") + "/" + tds[Teardown], []
  {
    std::optional<base> b;
    {mc::quiet q; b.emplace();}
    go<T, Sync, Teardown>(*b);
    {mc::quiet q; b.reset();}
  });
}
template<typename T, bool Sync>
void add_t() {add<T, Sync, 0>(); add<T, Sync, 1>(); add<T, Sync, 2>();}
template<typename T>
void add_s() {add_t<T, true>(); add_t<T, false>();}

// never awaited: nothing runs, everything is released
void unused()
{
  std::optional<base> b;
  {mc::quiet q; b.emplace();}
  {
    auto wi = cobalt::with(member_arg(*b), [](member_arg & a) {a.b->body_called();});
    MC_CHECK(b->body_calls == 0, "a with that isn't awaited runs");
    (void)wi;
  }
  MC_CHECK(b->args == 0 && b->body_calls == 0 && b->exit_calls == 0, "an unused with isn't released");
  {mc::quiet q; b.reset();}
}
}

MC_MAIN()
{
  add_s<void>();
  add_s<token>();
  add_s<mtoken>();
  mc::add("with/unused", &unused);
}
