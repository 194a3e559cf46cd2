// join & gather: all shapes of arguments, answers, completion orders, cancellations, interruptions and abandoned operations
#include "cob.hpp"
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/result.hpp>

using namespace cob;

namespace
{
enum api_t {plain, res, tup, direct};

// is awaited through an operator co_await, that returns a new awaitable
template<typename T>
struct octl
{
  ctl_state * st;
  ictl<T> operator co_await() {return {st};}
};

struct base
{
  world w;
  int n;
  bool join;
  std::vector<ctl_state> st;
  std::vector<bool> is_void;
  bool interruptible = false, range = false;
  std::vector<int> evaluated;
  // the awaiter
  proc_state ps{w};
  int api = 0;
  bool done = false, destroyed = false, in_catch = false;
  bool bogus = false;                  // the shape of the result isn't right
  result_t got;                        // join: value = all values delivered
  std::vector<result_t> all;           // the results delivered
  std::vector<result_t> results;       // what they completed with
  std::vector<int> cancels, interrupts;
  result_t first_error;
  int outer = 0, completes_other = -1;
  bool starting = true, stop_later = false;
  std::string trail;
  std::function<void()> interrupt;

  base(int n, bool join) : n(n), join(join), st(n), is_void(n), results(n), cancels(n), interrupts(n)
  {
    for (int k = 0; k < n; k++)
    {
      st[k].id = k;
      st[k].on_ready = [this](ctl_state & s) {on_ready(s);};
      st[k].on_done = [this](ctl_state & s) {on_done(s);};
      st[k].on_suspend = [this](ctl_state & s) {on_suspend(s);};
    }
  }
  int value(int k) const {return 10 + k;}

  void on_ready(ctl_state & s)
  {
    if (s.n_ready > 1)
      return;
    MC_CHECK(evaluated.size() == (std::size_t)s.id, "argument %d is evaluated out of order", s.id);
    evaluated.push_back(s.id);
    trail += char('0' + s.id);
    switch (mc::choose(7, "argument is (pending, ready value, completes in suspend, ready error, throws in suspend, completes another one when suspended, fails in suspend)"))
    {
      case 0: break;
      case 1: s.ready = true; s.result = val(value(s.id)); trail += "r"; break;
      case 2: s.at_once = true; s.result = val(value(s.id)); trail += "i"; break;
      case 3: s.ready = true; s.result = err(20 + s.id); trail += "R"; break;
      case 4: s.throws = true; s.result = err(20 + s.id); trail += "T"; break;
      case 5: completes_other = s.id; break;
      case 6: s.at_once = true; s.result = err(20 + s.id); trail += "I"; break;
    }
  }
  void on_suspend(ctl_state & s)
  {
    if (completes_other != s.id)
      return;
    completes_other = -1;
    for (int k : evaluated)
      if (k != s.id && st[k].pending)
      {
        trail += "x";
        complete(k, mc::choose(2, "it succeeds/fails") == 0 ? val(value(k)) : err(20 + k));
        return;
      }
  }
  void on_done(ctl_state & s)
  {
    results[s.id] = s.result;
    if (s.result.kind == result_t::error)
      failed(s.id, s.result);
  }
  void failed(int id, result_t e)
  {
    if (first_error.kind == result_t::none)
      first_error = e;
  }
  void complete(int k, result_t r)
  {
    mc::note("argument %d completes with %s", k, r.str().c_str());
    st[k].complete(r);
  }
  int outstanding() const
  {
    int r = 0;
    for (auto & s : st) r += s.pending;
    return r;
  }

  void check()
  {
    std::uint64_t h = done;
    for (int k = 0; k < n; k++)
    {
      auto & s = st[k];
      if (s.throws && s.n_suspend && results[k].kind == result_t::none)
        results[k] = s.result;
      h = mc::mix(h, s.n_ready + 2 * s.n_suspend + 4 * s.pending + 8 * s.n_cancel + 32 * s.n_interrupt + 128 * s.n_resume + 512 * results[k].kind);
      MC_CHECK(s.n_ready == 1, "argument %d was asked if it's ready %d times", k, s.n_ready);
      MC_CHECK(s.n_suspend == !s.ready, "argument %d was suspended %d times, ready=%d", k, s.n_suspend, s.ready);
      MC_CHECK(s.n_resume == (!s.pending && !s.abandoned && !s.throws), "argument %d was resumed %d times", k, s.n_resume);
      if (!join)
      {
        MC_CHECK(s.n_cancel == cancels[k], "argument %d got %d cancellations, expected %d", k, s.n_cancel, cancels[k]);
        MC_CHECK(interrupts[k] ? s.n_interrupt > 0 : (!s.n_interrupt || !interruptible || interrupted), "argument %d was interrupted %d times, expected %d", k, s.n_interrupt, interrupts[k]);
      }
      else if (s.pending)
        MC_CHECK(s.n_cancel == cancels[k] + failing(), "argument %d got %d cancellations, expected %d", k, s.n_cancel, cancels[k] + failing());
    }
    mc::state(h);
    if (destroyed)
      MC_CHECK(ps.destroyed && !done, "all operations were abandoned, but the awaiter lives");
    else if (outstanding())
      MC_CHECK(!done, "the await completed although arguments are pending");
    else
      check_result();
  }
  bool interrupted = false;
  bool failing() const {return join && first_error_seen();}
  bool first_error_seen() const
  {
    if (first_error.kind != result_t::none)
      return true;
    for (auto & s : st)
      if (s.throws && s.n_suspend)
        return true;
    return false;
  }
  void check_result()
  {
    MC_CHECK(done, "no argument is pending, but the await did not complete");
    MC_CHECK(!bogus, "the result has the wrong shape");
    if (join)
    {
      bool any = false, match = false;
      for (auto & r : results)
        if (r.kind == result_t::error)
        {
          any = true;
          if (r == got) match = true;
        }
      if (any)
      {
        MC_CHECK(got.kind == result_t::error && match, "join completed with %s, although an argument failed", got.str().c_str());
        // the first error is reported, unless one was thrown by the initiation
        if (first_error.kind != result_t::none && std::none_of(st.begin(), st.end(), [](auto & s){return s.throws;}))
          MC_CHECK(got == first_error, "join reports %s, the first error was %s", got.str().c_str(), first_error.str().c_str());
      }
      else
        MC_CHECK(got.kind == result_t::value, "join failed with %s, but no argument did", got.str().c_str());
      if (any)
        return;
    }
    else
      MC_CHECK(got.kind == result_t::value, "gather failed with %s", got.str().c_str());
    if (join && all.empty() && std::all_of(is_void.begin(), is_void.end(), [](bool b) {return b;}))
      return;
    MC_CHECK((int)all.size() == n, "%d results delivered for %d arguments", (int)all.size(), n);
    for (int k = 0; k < n && k < (int)all.size(); k++)
    {
      auto x = results[k];
      if (x.kind == result_t::value && is_void[k])
        x.v = 0;
      MC_CHECK(all[k] == x, "result %d is %s, it completed with %s", k, all[k].str().c_str(), x.str().c_str());
    }
  }

  template<typename Start>
  void run(Start && start)
  {
    mc::step();
    start();
    starting = false;
    if (ps.error)
      mc::fail("exception escaped the awaiter: %s", what(ps.error).c_str());
    check();
    MC_CHECK((int)evaluated.size() == n, "argument(s) were not started");
    int steps = 0, interruptions = 0;
    while (!mc::failed() && outstanding())
    {
      enum {ok, ko, aban, abrt, canc, intr};
      struct ev {int kind, arg;};
      ev evs[32]; int m = 0;
      bool small = n == 3 && !mc::thorough();
      for (int k = 0; k < n; k++)
        if (st[k].pending && never)
          evs[m++] = {aban, k};
        else if (st[k].pending)
        {
          evs[m++] = {ok, k};
          if (st[k].n_cancel) evs[m++] = {abrt, k};
          if (steps < (small ? 1 : 3)) {evs[m++] = {ko, k}; if (outstanding() == n) evs[m++] = {aban, k};}
        }
      if (outer < 2 && !never)
        evs[m++] = {canc, 0};
      if (interrupt && interruptions < 1 && !never)
        evs[m++] = {intr, 0};
      steps++;
      auto e = evs[mc::choose(m, "event (complete, fail, abandon, abort, cancel, interrupt)")];
      mc::step();
      trail += "cfdaCI"[e.kind == ok ? 0 : e.kind == ko ? 1 : e.kind == aban ? 2 : e.kind == abrt ? 3 : e.kind == canc ? 4 : 5];
      trail += std::to_string(e.arg);
      switch (e.kind)
      {
        case ok: complete(e.arg, val(value(e.arg))); break;
        case ko: complete(e.arg, err(20 + e.arg)); break;
        case abrt: complete(e.arg, err(e_aborted)); break;
        case aban:
          mc::note("argument %d is abandoned", e.arg);
          never = true;              // from here on all of them are abandoned
          if (outstanding() == 1)
            destroyed = true;
          st[e.arg].abandon();
          break;
        case canc:
        {
          static const asio::cancellation_type types[] = {asio::cancellation_type::partial, asio::cancellation_type::terminal, asio::cancellation_type::total};
          auto t = types[steps % 3];
          outer++;
          mc::note("cancel the awaiter");
          bool reached[8];
          for (int k = 0; k < n; k++)
          {
            reached[k] = st[k].pending && !failing();
            if (reached[k]) cancels[k]++;
          }
          ps.signal.emit(t);
          for (int k = 0; k < n; k++)
            if (reached[k])
              MC_CHECK(st[k].last_cancel == t, "argument %d was cancelled with the wrong type", k);
          break;
        }
        case intr:
        {
          mc::note("interrupt");
          interruptions++;
          std::vector<int> before;
          for (int k = 0; k < n; k++)
            if (st[k].pending)
            {
              before.push_back(k);
              if (interruptible) interrupts[k]++;
            }
          bool fine = failing();
          interrupted = true;
          interrupt();
          for (int k : before)
          {
            if (!interruptible)
              MC_CHECK(!st[k].n_interrupt, "argument %d was interrupted although it's an rvalue", k);
            else if (!join)
              MC_CHECK(!st[k].pending, "argument %d was not interrupted", k);
            else
              MC_CHECK(!st[k].pending || st[k].n_cancel > cancels[k] || fine, "argument %d was neither interrupted nor cancelled", k);
          }
          break;
        }
      }
      w.drain();
      check();
      if (ps.error)
        mc::fail("exception escaped the awaiter: %s", what(ps.error).c_str());
    }
    interrupt = nullptr;
    mc::outcome(trail + "=" + (destroyed ? "destroyed" : got.str()));
  }
  bool never = false;

  // --- results
  template<typename T>
  void take_one(T & t)
  {
    if constexpr (std::is_same_v<T, boost::variant2::monostate>)
      all.push_back(val(0));
    else
      all.push_back(val(as_int(t)));
  }
  template<typename T>
  void take_one(boost::system::result<T, std::exception_ptr> & t)
  {
    if (t.has_error())
      all.push_back(err(t.error()));
    else if constexpr (std::is_void_v<T>)
      all.push_back(val(0));
    else
      all.push_back(val(as_int(*t)));
  }
  void take() {got = val(0);}
  template<typename ... T>
  void take(std::tuple<T...> v)
  {
    got = val(0);
    std::apply([&](auto & ... x) {(take_one(x), ...);}, v);
  }
  template<typename T, typename Alloc>
  void take(std::vector<T, Alloc> v)
  {
    got = val(0);
    for (auto & x : v) take_one(x);
  }
  template<typename T>
  void take_result(boost::system::result<T, std::exception_ptr> r)
  {
    if (r.has_error())
      got = err(r.error());
    else if constexpr (std::is_void_v<T>)
      take();
    else
      take(std::move(*r));
  }
  template<typename T>
  void take_tuple(std::tuple<std::exception_ptr, T> t)
  {
    if (std::get<0>(t))
      got = err(std::get<0>(t));
    else
      take(std::move(std::get<1>(t)));
  }
  template<typename ... T> requires (sizeof...(T) > 1)
  void take_tuple(std::tuple<std::exception_ptr, T...> t)
  {
    if (std::get<0>(t))
      got = err(std::get<0>(t));
    else
      std::apply([&](auto &, auto & ... x) {got = val(0); (take_one(x), ...);}, t);
  }
  void take_tuple(std::tuple<std::exception_ptr> t)
  {
    if (std::get<0>(t))
      got = err(std::get<0>(t));
    else
      take();
  }
};

template<typename Make>
proc await_it(proc_state &, base & b, Make & make)
{
  using type = decltype(make().operator co_await().await_resume());
  if (b.api == plain)
  {
    try
    {
      if constexpr (std::is_void_v<type>)
      {
        co_await make();
        b.take();
      }
      else
        b.take(co_await make());
    }
    catch (...) {b.got = err(std::current_exception());}
  }
  else if (b.api == res)
  {
    if constexpr (Make::has_result)
      b.take_result(co_await cobalt::as_result(make()));
  }
  else if (b.api == tup)
  {
    if constexpr (Make::has_tuple)
      b.take_tuple(co_await cobalt::as_tuple(make()));
  }
  b.done = true;
}

template<typename Make, typename Aw>
proc await_direct(proc_state &, base & b, Make &, Aw & aw)
{
  try
  {
    if constexpr (std::is_void_v<decltype(aw.await_resume())>)
    {
      co_await aw;
      b.take();
    }
    else
      b.take(co_await aw);
  }
  catch (...) {b.got = err(std::current_exception());}
  b.done = true;
}

template<typename F, bool Res, bool Tup>
struct maker
{
  F f;
  auto operator()() {return f();}
  constexpr static bool has_result = Res, has_tuple = Tup;
};

template<bool Res = true, bool Tup = true, typename F>
void go(base & b, F f)
{
  maker<F, Res, Tup> mk{f};
  auto live = pstats.live;
  int apis[] = {plain, direct, tup, res};
  int n = 2;
  if (Tup) n++;
  if (Res)
    apis[n++] = res;
  b.api = apis[mc::choose(n, "await flavour (plain, direct, as_tuple, as_result)")];
  b.in_catch = mc::choose(2, "started from within a catch block") == 1;
  using aw_t = decltype(mk().operator co_await());
  {
    decltype(mk()) * keep = nullptr;
    std::optional<decltype(mk())> src;
    struct holder
    {
      aw_t aw;
      holder(decltype(mk()) & s) : aw(std::move(s).operator co_await()) {}
    };
    std::optional<holder> h;
    (void)keep;
    auto start = [&]
    {
      if (b.api == direct)
      {
        src.emplace(mk());
        h.emplace(*src);
        b.interrupt = [&]{h->aw.interrupt_await();};
        await_direct(b.ps, b, mk, h->aw);
      }
      else
        await_it(b.ps, b, mk);
    };
    b.run([&]
    {
      if (b.in_catch)
      {
        try {throw my_error(99);}
        catch (...) {start();}
      }
      else
        start();
    });
  }
  MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
}

template<typename F>
void scenario(const std::string & name, bool join, std::vector<bool> is_void, bool interruptible, F f)
{
  mc::add(name, [=]
  {
    std::optional<base> b;
    {mc::quiet q; b.emplace((int)is_void.size(), join); b->is_void = is_void; b->interruptible = interruptible;}
    f(*b);
    {mc::quiet q; b.reset();}
  });
}

template<bool Join, typename ... Args>
auto make(Args && ... args)
{
  if constexpr (Join)
    return cobalt::join(std::forward<Args>(args)...);
  else
    return cobalt::gather(std::forward<Args>(args)...);
}

template<bool Join>
void add()
{
  const std::string nm = Join ? "join/" : "gather/";
  scenario(nm + "rvalues(token,void)", Join, {false, true}, false, [](base & b)
  {
    go(b, [&]{return make<Join>(ctl<token>{&b.st[0]}, ctl<void>{&b.st[1]});});
  });
  scenario(nm + "rvalues(void,void)", Join, {true, true}, false, [](base & b)
  {
    go(b, [&]{return make<Join>(ctl<void>{&b.st[0]}, ctl<void>{&b.st[1]});});
  });
  scenario(nm + "rvalues(mtoken,void,token)", Join, {false, true, false}, false, [](base & b)
  {
    go<true, Join>(b, [&]{return make<Join>(ctl<mtoken>{&b.st[0]}, ctl<void>{&b.st[1]}, ctl<token>{&b.st[2]});});
  });
  scenario(nm + "lvalues(token,mtoken)", Join, {false, false}, true, [](base & b)
  {
    ictl<token> a{&b.st[0]}; ictl<mtoken> c{&b.st[1]};
    go<true, Join>(b, [&]{return make<Join>(a, c);});
  });
  scenario(nm + "lvalues(void,void,void)", Join, {true, true, true}, true, [](base & b)
  {
    ictl<void> a{&b.st[0]}, c{&b.st[1]}, d{&b.st[2]};
    go(b, [&]{return make<Join>(a, c, d);});
  });
  scenario(nm + "lvalues with operator co_await(token,void)", Join, {false, true}, true, [](base & b)
  {
    octl<token> a{&b.st[0]}; octl<void> c{&b.st[1]};
    go(b, [&]{return make<Join>(a, c);});
  });
  scenario(nm + "interruptible rvalues(token,void)", Join, {false, true}, false, [](base & b)
  {
    go(b, [&]{return make<Join>(ictl<token>{&b.st[0]}, ictl<void>{&b.st[1]});});
  });
  scenario(nm + "range<token>[0]", Join, {}, false, [](base & b)
  {
    std::vector<ctl<token>> v;
    go<true, Join>(b, [&]{return make<Join>(v);});
  });
  scenario(nm + "range<token>[1]", Join, {false}, false, [](base & b)
  {
    std::vector<ctl<token>> v{{&b.st[0]}};
    go(b, [&]{return make<Join>(v);});
  });
  scenario(nm + "range<token>[3]", Join, {false, false, false}, false, [](base & b)
  {
    std::vector<ctl<token>> v{{&b.st[0]}, {&b.st[1]}, {&b.st[2]}};
    go(b, [&]{return make<Join>(v);});
  });
  scenario(nm + "range<mtoken>[2]", Join, {false, false}, false, [](base & b)
  {
    std::vector<ctl<mtoken>> v{{&b.st[0]}, {&b.st[1]}};
    go<!Join, false>(b, [&]{return make<Join>(v);});
  });
  scenario(nm + "range<void> by value[2]", Join, {true, true}, false, [](base & b)
  {
    go<!Join, !Join>(b, [&]{return make<Join>(std::vector<ctl<void>>{{&b.st[0]}, {&b.st[1]}});});
  });
  scenario(nm + "range of interruptible<token>[2]", Join, {false, false}, true, [](base & b)
  {
    std::vector<ictl<token>> v{{&b.st[0]}, {&b.st[1]}};
    go(b, [&]{return make<Join>(v);});
  });
  scenario(nm + "range of interruptible<void>[3]", Join, {true, true, true}, true, [](base & b)
  {
    std::vector<ictl<void>> v{{&b.st[0]}, {&b.st[1]}, {&b.st[2]}};
    go<!Join, !Join>(b, [&]{return make<Join>(v);});
  });
  scenario(nm + "range of interruptible<token> with operator co_await[2]", Join, {false, false}, true, [](base & b)
  {
    std::vector<octl<token>> v{{&b.st[0]}, {&b.st[1]}};
    go(b, [&]{return make<Join>(v);});
  });
}
}

MC_MAIN()
{
  if (mc::property() == "J01")
    add<true>();
  else
    add<false>();
}
