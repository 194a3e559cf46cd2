// race & left_race: all arguments shapes, answers, completion orders, cancellations and abandoned operations
#include "cob.hpp"
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/result.hpp>

using namespace cob;

namespace
{
enum api_t {plain, res, tup};
struct fail_spec {};

struct urbg
{
  int n;
  using result_type = std::uint32_t;
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return 0xFFFFFFFFu;}
  result_type operator()()
  {
    std::uint32_t f = n == 2 ? 2 : 6;
    if (n < 2)
      return 1000;
    return mc::choose((int)f, "random number") * (0xFFFFFFFFu / f) + 1000;
  }
};

struct base
{
  world w;
  int n;
  std::vector<ctl_state> st;
  std::vector<int> evaluated;        // in order
  std::vector<int> completed;        // in order
  bool left, interruptible;
  asio::cancellation_type ct;
  // the awaiter
  proc_state ps{w};
  int api = 0;
  bool done = false, in_start = false;
  std::size_t index = 99;
  result_t got;
  int outer = 0;
  asio::cancellation_type outer_type{};
  std::vector<int> cancels, interrupts;    // expected
  int winner = -1;
  bool destroyed = false;
  std::string trail;

  base(int n, bool left, bool i, asio::cancellation_type ct) : n(n), st(n), left(left), interruptible(i), ct(ct), cancels(n), interrupts(n)
  {
    for (int k = 0; k < n; k++)
    {
      st[k].id = k;
      st[k].on_ready = [this](ctl_state & s) {on_ready(s);};
      st[k].on_done = [this](ctl_state & s) {on_done(s);};
      st[k].on_suspend = [this](ctl_state & s) {on_suspend(s);};
    }
  }
  int value(int k) const {return 10 + k;}

  void on_ready(ctl_state & s)
  {
    if (s.n_ready > 1)
      return;
    MC_CHECK(winner < 0, "argument %d gets evaluated although argument %d has completed the race", s.id, winner);
    evaluated.push_back(s.id);
    trail += char('0' + s.id);
    switch (mc::choose(7, "argument is (pending, ready value, completes in suspend, ready error, throws in suspend, completes another one when suspended, fails in suspend)"))
    {
      case 0: break;
      case 1: s.ready = true; s.result = val(value(s.id)); trail += "r"; break;
      case 2: s.at_once = true; s.result = val(value(s.id)); trail += "i"; break;
      case 3: s.ready = true; s.result = err(20 + s.id); trail += "R"; break;
      case 4: s.throws = true; s.result = err(20 + s.id); trail += "T"; won(s.id); break;
      case 5: completes_other = s.id; break;
      case 6: s.at_once = true; s.result = err(20 + s.id); trail += "I"; break;
    }
  }
  int completes_other = -1;
  void on_suspend(ctl_state & s)
  {
    if (completes_other != s.id)
      return;
    completes_other = -1;
    for (int k : evaluated)
      if (k != s.id && st[k].pending)
      {
        trail += "x";
        complete(k, val(value(k)));
        return;
      }
  }
  void won(int k)
  {
    if (winner >= 0)
      return;
    winner = k;
    // everything else that was started is told to stop
    for (int o : evaluated)
      if (o != k && (st[o].pending || st[o].throws))
      {
        if (st[o].throws)
          continue;
        if (interruptible)
          interrupts[o]++;
        else
          cancels[o]++;
      }
  }
  void on_done(ctl_state & s)
  {
    completed.push_back(s.id);
    won(s.id);
  }
  void complete(int k, result_t r)
  {
    mc::note("argument %d completes with %s", k, r.str().c_str());
    st[k].complete(r);
  }
  int outstanding() const
  {
    int r = 0;
    for (auto & s : st) r += s.pending;
    return r;
  }

  void check()
  {
    std::uint64_t h = 0;
    for (int k = 0; k < n; k++)
    {
      auto & s = st[k];
      h = mc::mix(h, s.n_ready + 2 * s.n_suspend + 4 * s.pending + 8 * s.n_cancel + 32 * s.n_interrupt + 128 * s.n_resume + 512 * (winner + 1) + 4096 * done);
      MC_CHECK(s.n_ready <= 1 && s.n_suspend <= 1 && s.n_resume <= 1, "the functions of argument %d were called more than once", k);
      MC_CHECK(!(s.n_suspend && !s.n_ready) && !(s.ready && s.n_suspend), "argument %d was suspended, but not asked (or is ready)", k);
      MC_CHECK(s.n_cancel == cancels[k], "argument %d got %d cancellations, expected %d", k, s.n_cancel, cancels[k]);
      if (s.n_interrupt && winner != k)
        MC_CHECK(interrupts[k] > 0 || !s.pending, "argument %d was interrupted", k);
      if (interrupts[k])
        MC_CHECK(!s.pending, "argument %d was not interrupted although the race is over", k);
      if (s.n_cancel && winner >= 0 && !outer)
        MC_CHECK(s.last_cancel == ct, "argument %d was cancelled with the wrong type", k);
    }
    mc::state(h);
    bool over = outstanding() == 0;
    if (over && !destroyed)
    {
      MC_CHECK(done, "no argument is pending, but the race did not complete");
      MC_CHECK(winner >= 0, "the race completed without a winner");
      if (winner >= 0)
      {
        auto x = st[winner].result;
        MC_CHECK(got.kind == x.kind && got.v == x.v, "the race completed with %s, the winner %d with %s", got.str().c_str(), winner, x.str().c_str());
        if (x.kind == result_t::value)
          MC_CHECK((int)index == winner, "the race reports the index %d instead of %d", (int)index, winner);
      }
    }
    else if (!destroyed)
      MC_CHECK(!done, "the race completed although arguments are pending");
    else
      MC_CHECK(ps.destroyed && !done, "all operations of the race were abandoned, but the awaiter lives");
    if (left)
      for (std::size_t i = 0; i < evaluated.size(); i++)
        MC_CHECK(evaluated[i] == (int)i, "left_race doesn't evaluate from left to right");
  }

  template<typename Start>
  void run(Start && start)
  {
    api = mc::choose(3, "await flavour (plain, as_result, as_tuple)");
    mc::step();
    start();
    if (ps.error)
      mc::fail("exception escaped the awaiter: %s", what(ps.error).c_str());
    check();
    if (winner < 0)
      MC_CHECK((int)evaluated.size() == n, "the race waits, but argument(s) were not started");
    int steps = 0;
    while (!mc::failed() && outstanding())
    {
      enum {ok, ko, aban, abrt, canc};
      struct ev {int kind, arg;};
      ev evs[32]; int m = 0;
      for (int k = 0; k < n; k++)
        if (st[k].pending)
        {
          evs[m++] = {ok, k};
          if (st[k].n_cancel) evs[m++] = {abrt, k};
          if (steps < (mc::thorough() ? 4 : 2)) {evs[m++] = {ko, k}; evs[m++] = {aban, k};}
        }
      if (outer < 2)
        evs[m++] = {canc, 0};
      steps++;
      auto e = evs[mc::choose(m, "event (complete, fail, abandon, abort, cancel)")];
      mc::step();
      switch (e.kind)
      {
        case ok: trail += "c"; complete(e.arg, val(value(e.arg))); break;
        case ko: trail += "f"; complete(e.arg, err(20 + e.arg)); break;
        case abrt: trail += "a"; complete(e.arg, err(e_aborted)); break;
        case aban:
          trail += "d";
          mc::note("argument %d is abandoned", e.arg);
          if (outstanding() == 1)
            destroyed = true;
          st[e.arg].abandon();
          break;
        case canc:
        {
          static const asio::cancellation_type types[] = {asio::cancellation_type::partial, asio::cancellation_type::terminal, asio::cancellation_type::total};
          outer_type = types[steps % 3];
          outer++;
          trail += "C";
          mc::note("cancel the awaiter");
          if (winner < 0)
            for (int k = 0; k < n; k++)
              if (st[k].pending) cancels[k]++;
          ps.signal.emit(outer_type);
          for (int k = 0; k < n; k++)
            if (st[k].pending && winner < 0)
              MC_CHECK(st[k].last_cancel == outer_type, "argument %d was cancelled with the wrong type", k);
          break;
        }
      }
      trail += std::to_string(e.arg);
      w.drain();
      check();
      if (ps.error)
        mc::fail("exception escaped the awaiter: %s", what(ps.error).c_str());
    }
    mc::outcome(trail + "=" + (destroyed ? "destroyed" : std::to_string(winner) + got.str()));
  }

  // --- results
  void take(std::size_t i) {index = i; got = val(value((int)i));}
  template<typename T>
  void take(std::pair<std::size_t, T> p) {index = p.first; got = val(as_int(p.second));}
  template<typename ... T>
  void take(boost::variant2::variant<T...> v)
  {
    index = v.index();
    visit([&]<typename V>(V & x)
    {
      if constexpr (std::is_same_v<V, boost::variant2::monostate>)
        got = val(value((int)index));
      else
        got = val(as_int(x));
    }, v);
  }
  template<typename R>
  void take_result(R r)
  {
    if (r.has_error())
      got = err(r.error());
    else
      take(std::move(*r));
  }
  template<typename T>
  void take_tuple(std::tuple<std::exception_ptr, T> t)
  {
    if (std::get<0>(t))
      got = err(std::get<0>(t));
    else
      take(std::move(std::get<1>(t)));
  }
};

template<asio::cancellation_type Ct, bool Left, typename ... Args>
auto make(int n, Args && ... args)
{
  if constexpr (Left)
    return cobalt::left_race<Ct>(std::forward<Args>(args)...);
  else
    return cobalt::race<Ct>(urbg{n}, std::forward<Args>(args)...);
}

template<typename Make>
proc await_it(proc_state &, base & b, Make & make)
{
  if (b.api == plain)
  {
    try {b.take(co_await make());}
    catch (...) {b.got = err(std::current_exception());}
  }
  else if (b.api == res)
    b.take_result(co_await cobalt::as_result(make()));
  else
    b.take_tuple(co_await cobalt::as_tuple(make()));
  b.done = true;
}

template<typename Make>
void go(base & b, Make mk)
{
  auto live = pstats.live;
  b.run([&]{await_it(b.ps, b, mk);});
  MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
}

template<typename F>
void scenario(const std::string & name, int n, bool left, bool inter, asio::cancellation_type ct, F f)
{
  mc::add(name, [=]
  {
    std::optional<base> b;
    {mc::quiet q; b.emplace(n, left, inter, ct);}
    f(*b);
    {mc::quiet q; b.reset();}
  });
}

constexpr auto all = asio::cancellation_type::all;
constexpr auto total = asio::cancellation_type::total;

template<bool Left>
void add()
{
  const std::string nm = Left ? "left_race/" : "race/";
  // variadic, rvalues
  scenario(nm + "rvalues(token,void)", 2, Left, false, all, [](base & b)
  {
    go(b, [&]{return make<all, Left>(2, ctl<token>{&b.st[0]}, ctl<void>{&b.st[1]});});
  });
  scenario(nm + "rvalues(void,void)/total", 2, Left, false, total, [](base & b)
  {
    go(b, [&]{return make<total, Left>(2, ctl<void>{&b.st[0]}, ctl<void>{&b.st[1]});});
  });
  scenario(nm + "rvalues(mtoken,void,token)", 3, Left, false, all, [](base & b)
  {
    go(b, [&]{return make<all, Left>(3, ctl<mtoken>{&b.st[0]}, ctl<void>{&b.st[1]}, ctl<token>{&b.st[2]});});
  });
  // variadic, lvalues that can be interrupted
  scenario(nm + "interruptible(token,mtoken)", 2, Left, true, all, [](base & b)
  {
    ictl<token> a{&b.st[0]}; ictl<mtoken> c{&b.st[1]};
    go(b, [&]{return make<all, Left>(2, a, c);});
  });
  scenario(nm + "interruptible(void,void,void)", 3, Left, true, all, [](base & b)
  {
    ictl<void> a{&b.st[0]}, c{&b.st[1]}, d{&b.st[2]};
    go(b, [&]{return make<all, Left>(3, a, c, d);});
  });
  // rvalues aren't interrupted
  scenario(nm + "interruptible rvalues(token,void)", 2, Left, false, all, [](base & b)
  {
    go(b, [&]{return make<all, Left>(2, ictl<token>{&b.st[0]}, ictl<void>{&b.st[1]});});
  });
  // ranges
  scenario(nm + "range<token>[1]", 1, Left, false, all, [](base & b)
  {
    std::vector<ctl<token>> v{{&b.st[0]}};
    go(b, [&]{return make<all, Left>(1, v);});
  });
  scenario(nm + "range<token>[3]", 3, Left, false, total, [](base & b)
  {
    std::vector<ctl<token>> v{{&b.st[0]}, {&b.st[1]}, {&b.st[2]}};
    go(b, [&]{return make<total, Left>(3, v);});
  });
  scenario(nm + "range<void>[2]", 2, Left, false, all, [](base & b)
  {
    std::vector<ctl<void>> v{{&b.st[0]}, {&b.st[1]}};
    go(b, [&]{return make<all, Left>(2, v);});
  });
  scenario(nm + "range<void> by value[2]", 2, Left, false, all, [](base & b)
  {
    go(b, [&]{return make<all, Left>(2, std::vector<ctl<void>>{{&b.st[0]}, {&b.st[1]}});});
  });
  scenario(nm + "interruptible range<token>[2]", 2, Left, true, all, [](base & b)
  {
    std::vector<ictl<token>> v{{&b.st[0]}, {&b.st[1]}};
    go(b, [&]{return make<all, Left>(2, v);});
  });
  if (mc::thorough())
  {
    scenario(nm + "rvalues(token,void,mtoken,token)", 4, Left, false, all, [](base & b)
    {
      go(b, [&]{return make<all, Left>(4, ctl<token>{&b.st[0]}, ctl<void>{&b.st[1]}, ctl<mtoken>{&b.st[2]}, ctl<token>{&b.st[3]});});
    });
    scenario(nm + "interruptible range<token>[4]", 4, Left, true, all, [](base & b)
    {
      std::vector<ictl<token>> v{{&b.st[0]}, {&b.st[1]}, {&b.st[2]}, {&b.st[3]}};
      go(b, [&]{return make<all, Left>(4, v);});
    });
  }
  scenario(nm + "interruptible range<void>[3]", 3, Left, true, all, [](base & b)
  {
    std::vector<ictl<void>> v{{&b.st[0]}, {&b.st[1]}, {&b.st[2]}};
    go(b, [&]{return make<all, Left>(3, v);});
  });
}
}

MC_MAIN()
{
  add<false>();
  add<true>();
}
