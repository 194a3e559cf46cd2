// race, join & gather of coroutines: promises and generators passed as lvalues are only awaited, i.e. they lose nothing
// when another one wins; those passed as rvalues (and tasks) are consumed.
#include "cob.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>

using namespace cob;

namespace
{
// the order the arguments of a race are started in
struct order
{
  using result_type = std::uint32_t;
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return 0xFFFFFFFFu;}
  static inline int n = 2;        // how many distinct orders there are
  result_type operator()() {return mc::choose(n, "random number") * (0xFFFFFFFFu / n) + 1000;}
};

enum what_t {race_pp, race_po, race_op, race_gp, race_gg, left_gp, left_pg, range_p, range_g, left_range_p, gather_pg, gather_ps, gather_gs, join_pg, join_ps, join_gs,
           only_p0, only_p1, only_g0, only_g1, race_rvalue, race_task, stop, n_what};

// the sources: two promises, two generators, an operation, a task
enum {P0, P1, G0, G1, OP, TK, n_src};
const char * names[] = {"p0", "p1", "g0", "g1", "op", "the task"};

struct runner
{
  int steps;
  bool few;
  struct source
  {
    io_env op;
    int produced = 0;
    result_t avail;               // a value that's not taken yet
    bool taken = false;           // it's a promise, and gave its result
    bool gone = false;            // moved away
    int frames = 0;
  } src[n_src];
  bool finished = false;
  // the current await
  bool waiting = false, is_race = false, is_join = false, decided = false;
  std::vector<int> over;          // in the order they're evaluated
  std::vector<bool> lv;
  std::vector<result_t> res;      // results of a gather/join, none: pending
  int winner = -1;
  bool first_error = false;
  std::string trail;

  world w;
  proc_state ps{w};
  std::vector<cobalt::promise<token>> p;
  std::vector<cobalt::generator<token>> g;

  runner(int steps, bool few) : steps(steps), few(few)
  {
    for (auto & s : src)
      s.op.aborted = []{return std::make_tuple(aborted_code(), 0);},
      s.op.mode = on_cancel::ignore,
      s.op.on_initiated = [&s]{s.op.cancels = 0;};
    p.reserve(2);
    g.reserve(2);
  }
  static int value(int s, int n) {return 100 * s + 10 + n;}
  cobalt::promise<token> prom(int s, life_guard) {int v = co_await env_wait(src[s].op); co_return token(v);}
  cobalt::task<token> tsk(int s, life_guard) {int v = co_await env_wait(src[s].op); co_return token(v);}
  cobalt::generator<token> gen(int s, life_guard)
  {
    // it's cancelled by a join that fails
    co_await cobalt::this_coro::throw_if_cancelled(false);
    while (true)
      co_yield token(co_await env_wait(src[s].op));
  }
  // -------------------------------------------------- the model
  void take(int s)
  {
    auto & x = src[s];
    x.avail = {};
    if (s <= P1)
      x.taken = true;
  }
  // before an await; in the order of evaluation, unless it's random.
  void begin(std::initializer_list<int> what, bool race, std::initializer_list<bool> lvs = {}, bool join = false)
  {
    mc::quiet q;
    over = what;
    lv.assign(over.size(), true);
    int i = 0;
    for (bool l : lvs)
      lv[i++] = l;
    is_race = race;
    is_join = join;
    decided = any_ready();
    winner = -1;
    first_error = false;
    res.assign(over.size(), {});
    waiting = true;
    if (!race)
      for (std::size_t i = 0; i < over.size(); i++)
      {
        res[i] = src[over[i]].avail;
        if (src[over[i]].avail.kind != result_t::none)
          take(over[i]);
      }
  }
  bool any_ready() const
  {
    for (int s : over)
      if (src[s].avail.kind != result_t::none)
        return true;
    return false;
  }
  int first_ready() const
  {
    for (int s : over)
      if (src[s].avail.kind != result_t::none)
        return s;
    return -1;
  }
  void completed(int s, result_t r)
  {
    auto & x = src[s];
    x.produced++;
    for (std::size_t i = 0; waiting && i < over.size(); i++)
      if (over[i] == s)
      {
        if (is_race)
        {
          if (winner >= 0 || decided)
          {
            // a loser that had to be waited for
            if (!lv[i] || s >= OP)
            {
              mc::quiet q;
              x.gone = true;
              return;
            }
            break;
          }
          winner = s;
          mc::quiet q;
          res[i] = r;
          if (s <= P1)
            x.taken = true;
          return;
        }
        if (res[i].kind == result_t::none)
        {
          mc::quiet q;
          res[i] = r;
          if (s <= P1)
            x.taken = true;
          return;
        }
      }
    x.avail = r;
  }
  // the await yields r from s
  void got(int s, result_t r)
  {
    if (winner < 0)
    {
      MC_CHECK(src[s].avail.kind != result_t::none, "%s won, but it didn't complete", names[s]);
      MC_CHECK(r == src[s].avail, "%s gave %s instead of %s", names[s], r.str().c_str(), src[s].avail.str().c_str());
      take(s);
    }
    else
    {
      MC_CHECK(s == winner, "%s won instead of %s", names[s], names[winner]);
      result_t e;
      for (std::size_t i = 0; i < over.size(); i++)
        if (over[i] == s)
          e = res[i];
      MC_CHECK(r == e, "%s gave %s instead of %s", names[s], r.str().c_str(), e.str().c_str());
    }
    mc::quiet q;
    trail += "=" + std::to_string(s) + r.str();
  }
  void failed(result_t r, bool known_winner = false)
  {
    int s = winner;
    if (s < 0)
    {
      // the first one with that error
      for (int o : over)
        if (src[o].avail == r)
        {
          s = o;
          break;
        }
      MC_CHECK(s >= 0, "failed with %s, but no error was available", r.str().c_str());
    }
    if (s >= 0)
      got(s, r);
  }
  void done()
  {
    for (std::size_t i = 0; i < over.size(); i++)
      MC_CHECK(!is_race || over[i] < OP || !src[over[i]].op.is_pending(), "the race ended before %s", names[over[i]]);
    waiting = false;
  }
  template<typename ... T>
  static result_t of(const boost::system::result<T...> & r) {if (r.has_error()) return err(r.error()); return val(r->v);}
  void one(int i, result_t r)
  {
    MC_CHECK(res[i].kind != result_t::none, "it ended before %s completed", names[over[i]]);
    MC_CHECK(res[i] == r, "%s gave %s instead of %s", names[over[i]], r.str().c_str(), res[i].str().c_str());
    mc::quiet q;
    trail += "&" + r.str();
  }
  void join_failed(result_t r)
  {
    bool any = false;
    for (auto & x : res)
    {
      MC_CHECK(x.kind != result_t::none, "the join ended early");
      any = any || x == r;
    }
    MC_CHECK(any, "the join failed with %s", r.str().c_str());
    mc::quiet q;
    trail += "&" + r.str();
  }
  bool can(what_t x) const
  {
    bool p0 = !src[P0].taken && !src[P0].gone, p1 = !src[P1].taken && !src[P1].gone;
    switch (x)
    {
      case race_po: case race_gp: case left_pg: case gather_pg: case only_p0: return p0;
      // which one wins would depend on the order
      case race_rvalue: return p0 && src[P0].avail.kind == result_t::none && src[G0].avail.kind == result_t::none;
      case race_op: case left_gp: case join_pg: case only_p1: return p1;
      case race_pp: case range_p: case left_range_p: case gather_ps: case join_ps: return p0 && p1;
      case race_task: return p1 && src[P1].avail.kind == result_t::none && !src[TK].gone && !src[TK].produced;
      default: return true;
    }
  }

#define VARIADIC(A, B, ...)                                                                                          \
        {                                                                                                            \
          auto r = co_await __VA_ARGS__;                                                                             \
          if (r.index() == 0) got(A, val(as_int(get<0>(r)))); else got(B, val(as_int(get<1>(r))));                   \
          break;                                                                                                     \
        }
#define RANGED(FIRST, ...)                                                                                           \
        {                                                                                                            \
          auto r = co_await __VA_ARGS__;                                                                             \
          got(FIRST + (int)r.first, val(r.second.v));                                                                \
          break;                                                                                                     \
        }
  static int as_int(const token & t) {return t.v;}
  static int as_int(int i) {return i;}

  proc body(proc_state &)
  {
    for (int i = 0; i < steps && !mc::failed(); i++)
    {
      what_t possible[n_what];
      int n = 0;
      for (int x = 0; x < n_what; x++)
        if (can((what_t)x) && (!few || x == race_pp || x == race_op || x == race_gg || x == left_pg || x == gather_ps || x == join_pg || x == range_g || x == stop))
          possible[n++] = (what_t)x;
      what_t k = possible[mc::choose(n, "await the n-th possible kind")];
      {mc::quiet q; trail += char('a' + k);}
      bool join_api = false;
      try
      {
        switch (k)
        {
          case race_pp: begin({P0, P1}, true); VARIADIC(P0, P1, cobalt::race(order{}, p[0], p[1]))
          case race_po: begin({P0, OP}, true); VARIADIC(P0, OP, cobalt::race(order{}, p[0], env_wait(src[OP].op)))
          case race_op: begin({OP, P1}, true); VARIADIC(OP, P1, cobalt::race(order{}, env_wait(src[OP].op), p[1]))
          case race_gp: begin({G0, P0}, true); VARIADIC(G0, P0, cobalt::race(order{}, g[0], p[0]))
          case race_gg: begin({G0, G1}, true); VARIADIC(G0, G1, cobalt::race(order{}, g[0], g[1]))
          case left_gp:
          {
            begin({G1, P1}, true);
            int fr = first_ready();
            auto r = co_await cobalt::left_race(g[1], p[1]);
            MC_CHECK(fr < 0 || (int)r.index() == (fr == G1 ? 0 : 1), "left_race preferred the wrong one");
            if (r.index() == 0) got(G1, val(get<0>(r).v)); else got(P1, val(get<1>(r).v));
            break;
          }
          case left_pg:
          {
            begin({P0, G0}, true);
            int fr = first_ready();
            auto r = co_await cobalt::left_race(p[0], g[0]);
            MC_CHECK(fr < 0 || (int)r.index() == (fr == P0 ? 0 : 1), "left_race preferred the wrong one");
            if (r.index() == 0) got(P0, val(get<0>(r).v)); else got(G0, val(get<1>(r).v));
            break;
          }
          case range_p: begin({P0, P1}, true); RANGED(P0, cobalt::race(order{}, p))
          case range_g: begin({G0, G1}, true); RANGED(G0, cobalt::race(order{}, g))
          case left_range_p: begin({P0, P1}, true); RANGED(P0, cobalt::left_race(p))
          case gather_pg: {begin({P0, G0}, false); auto [a, b] = co_await cobalt::gather(p[0], g[0]); one(0, of(a)); one(1, of(b)); break;}
          case gather_ps: {begin({P0, P1}, false); auto r = co_await cobalt::gather(p); for (int n = 0; n < 2; n++) one(n, of(r[n])); break;}
          case gather_gs: {begin({G0, G1}, false); auto r = co_await cobalt::gather(g); for (int n = 0; n < 2; n++) one(n, of(r[n])); break;}
          case join_pg: {join_api = true; begin({P1, G0}, false, {}, true); auto [a, b] = co_await cobalt::join(p[1], g[0]); one(0, val(a.v)); one(1, val(b.v)); break;}
          case join_ps: {join_api = true; begin({P0, P1}, false, {}, true); auto r = co_await cobalt::join(p); for (int n = 0; n < 2; n++) one(n, val(r[n].v)); break;}
          case join_gs: {join_api = true; begin({G0, G1}, false, {}, true); auto r = co_await cobalt::join(g); for (int n = 0; n < 2; n++) one(n, val(r[n].v)); break;}
          case only_p0: {begin({P0}, true); auto v = co_await p[0]; got(P0, val(v.v)); break;}
          case only_p1: {begin({P1}, true); auto v = co_await p[1]; got(P1, val(v.v)); break;}
          case only_g0: {begin({G0}, true); auto v = co_await g[0]; got(G0, val(v.v)); break;}
          case only_g1: {begin({G1}, true); auto v = co_await g[1]; got(G1, val(v.v)); break;}
          case race_rvalue:
          {
            begin({P0, G0}, true, {false, true});
            src[P0].gone = true;
            VARIADIC(P0, G0, cobalt::race(order{}, std::move(p[0]), g[0]))
          }
          case race_task:
          {
            begin({TK, P1}, true, {false, true});
            VARIADIC(TK, P1, cobalt::race(order{}, tsk(TK, life_guard(src[TK].frames)), p[1]))
          }
          default: i = steps; break;
        }
      }
      catch (...)
      {
        if (!mc::failed())
        {
          auto r = err(std::current_exception());
          if (join_api)
            join_failed(r);
          else
            failed(r);
        }
      }
      done();
    }
    finished = true;
  }

  void observe()
  {
    std::uint64_t h = 0;
    for (int s = 0; s < n_src; s++)
    {
      auto & x = src[s];
      // losers of a race that aren't lvalues, and whatever a failed join still awaits
      bool cancelled = false, error = false;
      for (auto & r : res)
        error = error || r.kind == result_t::error;
      for (std::size_t i = 0; waiting && i < over.size(); i++)
        if (over[i] == s)
          cancelled = is_race ? (winner >= 0 || decided) && (!lv[i] || s >= OP) : is_join && error;
      // a generator might not have got to its operation yet when the join starts (and fails)
      bool early = decided && is_join && (s == G0 || s == G1);
      MC_CHECK(!x.op.is_pending() || x.op.cancels == cancelled || (early && x.op.cancels == 0), "%s was %scancelled", names[s], cancelled ? "not " : "");
      h = mc::mix(h, x.op.is_pending() + 2 * x.taken + 4 * x.gone + 8 * x.avail.kind);
      if (s <= P1 && !x.gone)
        MC_CHECK(p[s].ready() == (x.avail.kind != result_t::none || x.taken), "%s: ready() is %d", names[s], p[s].ready());
      if (s == G0 || s == G1)
      {
        MC_CHECK(g[s - G0].ready() == (x.avail.kind != result_t::none), "%s: ready() is %d", names[s], g[s - G0].ready());
        bool ended = x.avail.kind == result_t::error;
        MC_CHECK(x.op.is_pending() == (x.avail.kind == result_t::none) || ended || x.gone, "%s: is %srunning", names[s], x.op.is_pending() ? "" : "not ");
      }
    }
    mc::state(mc::mix(h, waiting * 8 + is_race * 4 + winner));
  }

  void run()
  {
    for (int s : {P0, P1})
      p.push_back(prom(s, life_guard(src[s].frames)));
    for (int s : {G0, G1})
      g.push_back(gen(s, life_guard(src[s].frames)));
    // some might be ready
    int pre = mc::choose(6, "completed before (none, p0, g0, p1 and g1, p0 fails, all)");
    auto complete = [&](int s, bool fails)
    {
      mc::step();
      int n = src[s].produced;
      completed(s, fails ? err(50 + s) : val(value(s, n)));
      src[s].op.complete(fails ? user_code(50 + s) : error_code(), value(s, n));
      w.drain();
    };
    if (pre == 1 || pre == 5) complete(P0, false);
    if (pre == 2 || pre == 5) complete(G0, false);
    if (pre == 3 || pre == 5) complete(P1, false), complete(G1, false);
    if (pre == 4) complete(P0, true);
    observe();
    body(ps);
    w.drain();
    int fails = 0;
    while (!mc::failed() && !finished)
    {
      int pend[2 * n_src], n = 0;
      bool needed = false;
      for (int s = 0; s < n_src; s++)
        if (src[s].op.is_pending())
        {
          pend[n++] = s;
          for (int o : over)
            needed = needed || (waiting && o == s);
        }
      if (!needed)
      {
        mc::fail("the coroutine doesn't continue, although nothing it awaits is pending (%s)", trail.c_str());
        break;
      }
      observe();
      int m = n;
      for (int x = 0; fails < 1 && x < n; x++)
        if (pend[x] != G0 && pend[x] != G1)     // these would be over
          pend[m++] = pend[x];
      int c = mc::choose(m, "completes (successfully, or fails)");
      int s = pend[c];
      bool f = c >= n;
      fails += f;
      complete(s, f);
    }
    if (mc::failed())
      return;
    w.drain();
    // nothing is lost: whatever wasn't taken is still there
    observe();
    {
      mc::quiet q;
      p.clear();
      g.clear();
      w.drain();
    }
    for (auto & x : src)
      if (x.op.is_pending())
        x.op.complete(error_code(), 1);
    w.drain();
    for (int s = 0; s < n_src; s++)
      MC_CHECK(src[s].frames == 0, "%s is still alive", names[s]);
    MC_CHECK(pstats.live == 0, "%ld value(s) leaked", pstats.live);
    mc::outcome(trail);
  }
};

// three of a kind, in any order, any of them ready
template<typename Co>
struct three
{
  static constexpr bool is_gen = !std::is_same_v<Co, cobalt::promise<token>>;
  io_env op[3];
  int frames = 0;
  bool done = false;
  int form = 0, winner = -1, rounds = 0;
  result_t got[3], won;
  world w;
  proc_state ps{w};
  std::vector<Co> co;
  three()
  {
    order::n = 6;
    for (auto & o : op)
      o.aborted = []{return std::make_tuple(aborted_code(), 0);}, o.mode = on_cancel::ignore;
    co.reserve(3);
  }
  Co make(int i, life_guard)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    if constexpr (is_gen)
      while (true)
        co_yield token(co_await env_wait(op[i]));
    else
      co_return token(co_await env_wait(op[i]));
  }
  static int value_of(auto & r) {return r.index() == 0 ? get<0>(r).v : r.index() == 1 ? get<1>(r).v : get<2>(r).v;}
  proc body(proc_state &)
  {
    auto take = [&](std::size_t i, int v) {winner = (int)i; won = val(v);};
    try
    {
      switch (form)
      {
        case 0: {auto r = co_await cobalt::race(order{}, co); take(r.first, r.second.v); break;}
        case 1: {auto r = co_await cobalt::race(order{}, co[0], co[1], co[2]); take(r.index(), value_of(r)); break;}
        case 2: {auto r = co_await cobalt::left_race(co); take(r.first, r.second.v); break;}
        case 3: {auto r = co_await cobalt::left_race(co[0], co[1], co[2]); take(r.index(), value_of(r)); break;}
      }
    }
    catch (...) {mc::fail("the race failed with '%s'", what(std::current_exception()).c_str());}
    done = true;
  }
  proc fetch(proc_state &, int i)
  {
    try {token t = co_await co[i]; got[i] = val(t.v);}
    catch (...) {got[i] = err(std::current_exception());}
  }
  void run()
  {
    for (int i = 0; i < 3; i++)
      co.push_back(make(i, life_guard(frames)));
    bool ready[3] = {};
    for (int i = 0; i < 3; i++)
      if (mc::choose(2, "(pending, ready)"))
      {
        ready[i] = true;
        op[i].complete(error_code(), 10 + i);
        w.drain();
      }
    form = mc::choose(4, "(race(range), race(a, b, c), left_race(range), left_race(a, b, c))");
    body(ps);
    w.drain();
    bool any = ready[0] || ready[1] || ready[2];
    MC_CHECK(done == any, "the race did %scomplete", done ? "" : "not ");
    int first = -1;
    if (!any && !mc::failed())
    {
      first = mc::choose(3, "completes");
      op[first].complete(error_code(), 10 + first);
      w.drain();
      MC_CHECK(done, "the race did not complete");
    }
    if (mc::failed()) return;
    MC_CHECK(winner >= 0 && winner < 3 && (ready[winner] || winner == first), "%d won", winner);
    MC_CHECK(won == val(10 + winner), "%s", won.str().c_str());
    if (form >= 2 && any)
      MC_CHECK(winner == (ready[0] ? 0 : ready[1] ? 1 : 2), "left_race preferred %d", winner);
    for (int i = 0; i < 3; i++)
    {
      bool running = i == winner ? is_gen : !ready[i] && i != first;
      MC_CHECK(op[i].is_pending() == running && op[i].cancels == 0, "%d was cancelled", i);
      // a race of generators doesn't await a value that's not needed; it's still there
      if (i != winner)
        MC_CHECK(co[i].ready() == ready[i], "%d: ready() is %d", i, co[i].ready());
    }
    // the others were only waited for
    int left[3], n = 0;
    for (int i = 0; i < 3; i++)
      if (i != winner)
        left[n++] = i;
    if (mc::choose(2, "(in order, in reverse)"))
      std::swap(left[0], left[1]);
    for (int x = 0; x < n && !mc::failed(); x++)
    {
      int i = left[x];
      fetch(ps, i);
      w.drain();
      if (!ready[i])
      {
        MC_CHECK(got[i].kind == result_t::none, "%d gave something", i);
        op[i].complete(error_code(), 10 + i);
        w.drain();
      }
      MC_CHECK(got[i] == val(10 + i), "%d gave %s", i, got[i].str().c_str());
    }
    if (mc::failed()) return;
    mc::outcome("won by " + std::to_string(winner));
    {
      mc::quiet q;
      co.clear();
      w.drain();
      for (auto & o : op)
        if (o.is_pending())
          o.complete(error_code(), 1);
      w.drain();
    }
    MC_CHECK(frames == 0, "%d coroutines are still alive", frames);
  }
  ~three() {order::n = 2;}
};
}

MC_MAIN()
{
  mc::add("held/three promises", []
  {
    std::optional<three<cobalt::promise<token>>> r;
    {mc::quiet q; r.emplace();}
    r->run();
    {mc::quiet q; r.reset();}
  });
  mc::add("held/three generators", []
  {
    std::optional<three<cobalt::generator<token>>> r;
    {mc::quiet q; r.emplace();}
    r->run();
    {mc::quiet q; r.reset();}
  });
  struct {int steps, only;} sc[] = {{2, 0}, {3, 1}};
  for (auto [steps, only] : sc)
  {
    steps += mc::thorough();
    mc::add("held/awaits=" + std::to_string(steps) + ",kinds=" + (only ? "few" : "all"), [steps = steps, only = only]
    {
      std::optional<runner> r;
      {mc::quiet q; pstats.live = 0; r.emplace(steps, only);}
      r->run();
      {mc::quiet q; r.reset();}
    });
  }
}
