// promise: eager start, delivery of the result, cancellation & ownership. Every history of up to N events against a
// small reference model.
#include "cob.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/noop.hpp>

using namespace cob;

namespace
{
template<typename T> struct tn;
template<> struct tn<token>  {static constexpr const char * name = "copyable";};
template<> struct tn<mtoken> {static constexpr const char * name = "move-only";};
template<> struct tn<void>   {static constexpr const char * name = "void";};

struct body_ctl
{
  int id;
  io_env op;
  int frames = 0;              // instances of the parameters living in the frame
  bool started = false, locals_alive = false;
  int awaits = 0;
  bool handles_errors = false;
  bool orphan = false;         // nobody owns the promise anymore
  result_t expected_from_op;   // what the environment completed the pending operation with
  result_t result;             // how the body ended.
  body_ctl(int id) : id(id) {op.aborted = []{return std::make_tuple(aborted_code(), 0);};}
};

template<typename T>
struct runner;

template<typename T>
cobalt::promise<T> body(body_ctl & c, life_guard, int max_awaits)
{
  c.started = true;
  c.locals_alive = true;
  struct leave {body_ctl & c; ~leave() {c.locals_alive = false;}} l{c};
  while (true)
  {
    int k = c.orphan ? 2 * mc::choose(c.awaits < max_awaits ? 2 : 1, "body does (return, await)")
                     : mc::choose(c.awaits < max_awaits ? 3 : 2, "body does (return, throw, await)");
    if (k == 0)
    {
      c.result = val(10 * c.id + c.awaits);
      if constexpr (std::is_void_v<T>)
        co_return ;
      else
        co_return T{10 * c.id + c.awaits};
    }
    if (k == 1)
    {
      c.result = err(100 * c.id + c.awaits);
      throw my_error(100 * c.id + c.awaits);
    }
    c.awaits++;
    c.expected_from_op = {};
    result_t got;
    std::exception_ptr e;
    try
    {
      int v = co_await env_wait(c.op);
      got = val(v);
    }
    catch (...)
    {
      e = std::current_exception();
      got = err(e);
    }
    MC_CHECK(got == c.expected_from_op, "the coroutine observed %s from an operation completed with %s", got.str().c_str(), c.expected_from_op.str().c_str());
    if (e && !c.handles_errors && !c.orphan)
    {
      c.result = got;
      std::rethrow_exception(e);
    }
    if (e && got.v == e_aborted)
    {
      // a cancelled promise throws from every further await expression
      MC_CHECK(co_await cobalt::this_coro::throw_if_cancelled(), "throw_if_cancelled is off");
      co_await cobalt::this_coro::reset_cancellation_state();
    }
  }
}

template<typename T>
struct runner
{
  world w;
  body_ctl c[2]{1, 2};
  std::optional<cobalt::promise<T>> p[2];      // holders
  int holds[2] = {-1, -1};                     // which coroutine they own, -1: nothing/moved from
  bool attached[2] = {false, false};           // by holder
  bool taken[2] = {false, false};              // by coroutine
  bool created[2] = {false, false};
  bool abandoned[2] = {false, false};
  int cancels[2] = {0, 0};                     // expected number of cancellations
  struct awaiter
  {
    proc_state st; int holder; int coro; int api; result_t got; bool done = false;
    awaiter(world & w) : st(w) {}
  };
  std::vector<std::unique_ptr<awaiter>> aw;
  int waiting[2] = {-1, -1};                   // awaiter suspended on coroutine
  int dropped = -1;                            // awaiter of a promise that's being dropped
  std::string trail;

  proc await_it(proc_state &, awaiter & a)
  {
    auto & pr = *p[a.holder];
    if (a.api == 0)
    {
      try
      {
        if constexpr (std::is_void_v<T>)
        {
          co_await pr;
          a.got = val(0);
        }
        else
        {
          T t = co_await pr;
          a.got = val(t.v);
        }
      }
      catch (...) {a.got = err(std::current_exception());}
    }
    else if (a.api == 1)
    {
      auto r = co_await cobalt::as_result(pr);
      if (r.has_error())
        a.got = err(r.error());
      else if constexpr (std::is_void_v<T>)
        a.got = val(0);
      else
        a.got = val(r->v);
    }
    else
    {
      if constexpr (std::is_void_v<T>)
      {
        std::exception_ptr e = co_await cobalt::as_tuple(pr);
        a.got = e ? err(e) : val(0);
      }
      else
      {
        auto [e, t] = co_await cobalt::as_tuple(pr);
        a.got = e ? err(e) : val(t.v);
      }
    }
    a.done = true;
  }

  bool finished(int k) const {return c[k].result.kind != result_t::none || abandoned[k];}
  result_t expected(int k) const
  {
    if (abandoned[k])
      return err(e_unexpected);
    auto r = c[k].result;
    if (r.kind == result_t::value && std::is_void_v<T>)
      r.v = 0;
    return r;
  }
  int holder_of(int k) const {return holds[0] == k ? 0 : holds[1] == k ? 1 : -1;}

  void create(int k)
  {
    mc::step();
    mc::note("create promise %d", k);
    c[k].handles_errors = mc::choose(2, "body handles errors");
    created[k] = true;
    p[k].emplace(body<T>(c[k], life_guard(c[k].frames), mc::property() == "P02" && k == 1 ? 1 : 2));
    holds[k] = k;
    attached[k] = true;
    MC_CHECK(c[k].started, "a promise must start running right away");
    MC_CHECK(c[k].op.is_pending() || finished(k), "the promise neither waits nor is it finished");
  }

  // checks everything visible
  void observe()
  {
    std::uint64_t h = 0;
    for (int k = 0; k < 2; k++)
    {
      h = mc::mix(h, created[k] + 2 * finished(k) + 4 * (holder_of(k) + 1) + 16 * attached[k] + 32 * (waiting[k] >= 0) + 64 * c[k].op.is_pending()
                     + 128 * cancels[k] + 1024 * c[k].awaits + 4096 * taken[k] + 8192ull * c[k].handles_errors + 16384ull * (c[k].result.v + 100));
      if (!created[k])
        continue;
      MC_CHECK(c[k].op.cancels == cancels[k], "promise %d: its operation received %d cancellations, expected %d", k, c[k].op.cancels, cancels[k]);
      int hd = holder_of(k);
      bool fin = finished(k);
      if (fin && waiting[k] >= 0 && !abandoned[k])
        taken[k] = true;
      if (hd >= 0)
      {
        auto & pr = *p[hd];
        MC_CHECK(pr.ready() == fin, "promise %d: ready() is %d, but the coroutine is %s", k, pr.ready(), fin ? "finished" : "still running");
        MC_CHECK(bool(pr) == !(fin && taken[k]), "promise %d: operator bool is %d (finished %d, result taken %d)", k, bool(pr), fin, taken[k]);
        MC_CHECK(pr.attached() == attached[hd], "promise %d: attached() is %d", k, pr.attached());
      }
      MC_CHECK(c[k].frames == (fin ? 0 : 1), "promise %d: %d coroutine frames live (finished %d)", k, c[k].frames, fin);
      MC_CHECK(c[k].locals_alive == !fin, "promise %d: locals alive: %d, finished: %d", k, c[k].locals_alive, fin);
      if (fin && waiting[k] >= 0)
      {
        auto & a = *aw[waiting[k]];
        mc::quiet q;
        if (!abandoned[k])
        {
          MC_CHECK(a.done, "promise %d is finished, but the coroutine awaiting it was not resumed", k);
          MC_CHECK(a.got == expected(k), "promise %d ended with %s, but its awaiter got %s", k, expected(k).str().c_str(), a.got.str().c_str());
        }
        else
          MC_CHECK(a.st.destroyed && !a.done, "a coroutine awaiting a destroyed promise is neither destroyed nor resumed");
        waiting[k] = -1;
      }
      else if (waiting[k] >= 0)
        MC_CHECK(!aw[waiting[k]]->done, "the awaiter of promise %d was resumed before it was finished", k);
    }
    mc::state(h);
  }

  void await(int hd)
  {
    mc::step();
    int k = holds[hd];
    awaiter * a;
    int idx;
    {
      mc::quiet q;
      aw.push_back(std::make_unique<awaiter>(w));
      idx = (int)aw.size() - 1;
      a = aw.back().get();
    }
    a->holder = hd;
    a->coro = k;
    a->api = mc::property() == "P02" ? idx % 3 : (int)mc::choose(3, "await flavour (plain, as_result, as_tuple)");
    bool was_finished = finished(k), was_waiting = waiting[k] >= 0;
    mc::note("await promise %d", k);
    await_it(a->st, *a);
    if (a->st.error)
      mc::fail("exception escaped the awaiter: %s", what(a->st.error).c_str());
    if (was_finished)
    {
      MC_CHECK(a->done, "awaiting the finished promise %d suspended", k);
      MC_CHECK(a->got == expected(k), "promise %d ended with %s, but its awaiter got %s", k, expected(k).str().c_str(), a->got.str().c_str());
      taken[k] = true;
    }
    else if (was_waiting)
    {
      MC_CHECK(a->done && a->got == err(e_already_awaited), "awaiting promise %d a second time gave %s instead of already_awaited", k, a->done ? a->got.str().c_str() : "nothing");
    }
    else
    {
      MC_CHECK(!a->done, "awaiting the running promise %d completed with %s", k, a->got.str().c_str());
      waiting[k] = idx;
    }
    trail += "a";
  }

  void expect_cancel(int k)
  {
    if (k >= 0 && created[k] && !finished(k) && c[k].op.is_pending())
      cancels[k]++;
  }

  void run(int steps)
  {
    bool cancel_events = mc::property() == "P02";
    create(0);
    observe();
    for (int s = 0; s < steps && !mc::failed(); s++)
    {
      enum {stop, poll, mk, ok, ko, aban, awt, cncl, acncl, dtch, attch, destroy, mv, assign, get, drop_moved};
      struct ev {int kind, arg;};
      ev evs[48]; int n = 0;
      evs[n++] = {stop, 0};
      if (w.ctx.stopped() == false && posted()) evs[n++] = {poll, 0};
      if (!created[1] && cancel_events && holds[1] < 0) evs[n++] = {mk, 1};
      for (int k = 0; k < 2; k++)
      {
        if (!created[k]) continue;
        int hd = holder_of(k);
        if (c[k].op.is_pending())
        {
          evs[n++] = {ok, k};
          evs[n++] = {ko, k};
          if (!cancel_events) evs[n++] = {aban, k};
        }
        if (hd < 0)
          continue;
        bool await_ok = !(finished(k) && taken[k]) && aw.size() < 3;
        if (await_ok) evs[n++] = {awt, hd};
        if (!cancel_events && finished(k) && !taken[k]) evs[n++] = {get, hd};
        if (cancel_events)
        {
          if (cancels[k] < 3) evs[n++] = {cncl, hd};
          if (waiting[k] >= 0 && cancels[k] < 3) evs[n++] = {acncl, k};
          if (attached[hd]) evs[n++] = {dtch, hd}; else evs[n++] = {attch, hd};
        }
        if (waiting[k] < 0)
        {
          evs[n++] = {destroy, hd};
          if (p[1 - hd] && holds[1 - hd] < 0) evs[n++] = {drop_moved, 1 - hd};
          int o = 1 - hd;
          // the other holder
          if (!p[o]) evs[n++] = {mv, hd};
          else if (holds[o] < 0 || waiting[holds[o]] < 0 || cancel_events) evs[n++] = {assign, hd};
        }
        else if (cancel_events)
          evs[n++] = {destroy, hd};     // takes the coroutine awaiting it along
      }
      auto e = evs[mc::choose(n, "event (stop, poll, create, complete, fail, abandon, await, cancel, cancel awaiter, detach, attach, destroy, move, assign, get)")];
      if (e.kind == stop) break;
      mc::step();
      switch (e.kind)
      {
        case poll: mc::note("poll"); w.poll_one(); break;
        case mk: create(1); break;
        case ok: mc::note("complete op of %d", e.arg); c[e.arg].expected_from_op = val(7); c[e.arg].op.complete(error_code{}, 7); break;
        case ko: mc::note("fail op of %d", e.arg); c[e.arg].expected_from_op = err(3); c[e.arg].op.complete(user_code(3), 0); break;
        case aban: mc::note("abandon op of %d", e.arg); abandoned[e.arg] = true; c[e.arg].op.abandon(); break;
        case awt: await(e.arg); break;
        case cncl:
        {
          static const asio::cancellation_type types[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::all, asio::cancellation_type::total};
          int k = holds[e.arg];
          auto t = types[(cancels[0] + cancels[1] + s) % 4];
          mc::note("cancel promise %d", k);
          bool pending = c[k].op.is_pending();
          expect_cancel(k);
          c[k].expected_from_op = err(e_aborted);
          p[e.arg]->cancel(t);
          if (pending)
            MC_CHECK(c[k].op.last_cancel == (t & asio::cancellation_type(7)), "promise %d was cancelled with type %d, but its operation with %d", k, (int)t, (int)c[k].op.last_cancel);
          trail += "c";
          break;
        }
        case acncl:
          mc::note("cancel the awaiter of %d", e.arg);
          expect_cancel(e.arg);
          c[e.arg].expected_from_op = err(e_aborted);
          aw[waiting[e.arg]]->st.signal.emit(asio::cancellation_type::all);
          trail += "C";
          break;
        case dtch: mc::note("detach"); if (mc::choose(2, "detach through (detach(), operator+)")) +std::move(*p[e.arg]); else p[e.arg]->detach(); attached[e.arg] = false; trail += "d"; break;
        case attch: mc::note("attach"); p[e.arg]->attach(); attached[e.arg] = true; trail += "t"; break;
        case destroy: mc::note("destroy promise %d", holds[e.arg]); drop(e.arg); p[e.arg].reset(); check_dropped(); trail += "D"; break;
        case mv:
        {
          int o = 1 - e.arg;
          mc::note("move promise %d", holds[e.arg]);
          p[o].emplace(std::move(*p[e.arg]));
          holds[o] = holds[e.arg]; attached[o] = attached[e.arg];
          holds[e.arg] = -1; attached[e.arg] = false;
          after_move(e.arg, o);
          trail += "m";
          break;
        }
        case assign:
        {
          int o = 1 - e.arg;
          mc::note("move-assign promise %d over %d", holds[e.arg], holds[o]);
          drop(o);
          *p[o] = std::move(*p[e.arg]);
          check_dropped();
          holds[o] = holds[e.arg]; attached[o] = attached[e.arg];
          holds[e.arg] = -1; attached[e.arg] = false;
          after_move(e.arg, o);
          trail += "=";
          break;
        }
        case drop_moved: mc::note("destroy a moved from promise"); p[e.arg].reset(); trail += "x"; break;
        case get:
        {
          int k = holds[e.arg];
          result_t g;
          try
          {
            if constexpr (std::is_void_v<T>) {p[e.arg]->get(); g = val(0);}
            else {T t = p[e.arg]->get(); g = val(t.v);}
          }
          catch (...) {g = err(std::current_exception());}
          MC_CHECK(g == expected(k), "promise %d ended with %s, get() gives %s", k, expected(k).str().c_str(), g.str().c_str());
          taken[k] = true;
          trail += "g";
          break;
        }
      }
      observe();
    }
    // let everything finish
    for (int i = 0; i < 20 && !mc::failed(); i++)
    {
      w.drain();
      observe();
      bool any = false;
      for (int k = 0; k < 2; k++)
        if (c[k].op.is_pending())
        {
          any = true;
          c[k].expected_from_op = val(8);
          c[k].op.complete(error_code{}, 8);
        }
      observe();
      if (!any) break;
    }
    for (int k = 0; k < 2; k++)
    {
      if (!created[k] || mc::failed()) continue;
      MC_CHECK(finished(k), "promise %d never finished", k);
      int hd = holder_of(k);
      if (hd >= 0 && !taken[k] && !mc::failed())
        await(hd);
      trail += "/" + expected(k).str();
    }
    observe();
    mc::outcome(trail);
  }

  // a moved from promise has nothing to give and nothing to do with the coroutine anymore
  void after_move(int from, int to)
  {
    MC_CHECK(!p[from]->attached(), "a moved from promise is still attached");
    p[from]->cancel();
    if (finished(holds[to]))
      return;
    proc_state st(w);
    result_t got;
    auto l = [](proc_state &, cobalt::promise<T> & p, result_t & r) -> proc
    {
      auto x = co_await cobalt::as_result(p);
      if (x.has_error())
        r = err(x.error());
      else
        r = val(0);
    };
    l(st, *p[from], got);
    MC_CHECK(st.finished && got == err(e_moved), "awaiting a moved from promise gave %s", st.finished ? got.str().c_str() : "nothing");
  }

  bool posted()
  {
    for (int k = 0; k < 2; k++)
      if (created[k] && !finished(k) && !c[k].op.is_pending())
        return true;
    return false;
  }

  // the holder looses its promise
  void drop(int hd)
  {
    if (holds[hd] >= 0)
    {
      if (attached[hd])
      {
        expect_cancel(holds[hd]);
        c[holds[hd]].expected_from_op = err(e_aborted);
      }
      // nobody can receive an exception anymore
      c[holds[hd]].orphan = true;
      dropped = std::exchange(waiting[holds[hd]], -1);
    }
    holds[hd] = -1;
    attached[hd] = false;
  }
  void check_dropped()
  {
    if (dropped >= 0)
      MC_CHECK(aw[dropped]->st.destroyed && !aw[dropped]->done, "the coroutine awaiting a promise that got destroyed %s", aw[dropped]->done ? "was resumed" : "is left behind");
    dropped = -1;
  }

};

// a promise nobody owns anymore still has to report its exceptions
cobalt::promise<void> failing(io_env & op, life_guard)
{
  co_await env_wait(op);
}

void orphan_error()
{
  auto live = mc::live_allocs();
  int frames = 0;
  {
    std::optional<world> w;
    {mc::quiet q; w.emplace();}
    io_env op;
    op.aborted = []{return std::make_tuple(aborted_code(), 0);};
    int seen = 0;
    std::exception_ptr ex;
    w->escaped = [&](std::exception_ptr e) {seen++; ex = e; return true;};
    {
      auto p = failing(op, life_guard(frames));
      if (mc::choose(2, "how the owner gives up (destroy, detach)"))
      {
        p.detach();
        asio::post(w->ctx, [&]{op.complete(user_code(3), 0);});
      }
    }
    w->drain();
    MC_CHECK(seen == 1, "the exception of a promise without an owner surfaced %d times in the event loop", seen);
    int id = error_id(ex);
    MC_CHECK(id == 3 || id == e_aborted, "the wrong exception surfaced");
    ex = nullptr;
    mc::quiet q;
    w.reset();
  }
  mc::outcome("orphan/" + std::to_string(frames));
  MC_CHECK(frames == 0, "%d frame(s) of failed promises without an owner were never destroyed", frames);
  MC_CHECK(mc::live_allocs() == live, "memory leaked");
}

template<typename T>
void add()
{
  bool p2 = mc::property() == "P02", t = mc::thorough();
  int steps = p2 ? (t ? 6 : std::is_void_v<T> ? 5 : 4) : (t ? 8 : 6);
  mc::add(std::string("promise<") + tn<T>::name + ">/events=" + std::to_string(steps), [=]
  {
    auto live = pstats.live;
    std::optional<runner<T>> r;
    {mc::quiet q; r.emplace();}
    r->run(steps);
    {mc::quiet q; r.reset();}
    MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
  });
}
}

MC_MAIN()
{
  add<token>();
  add<mtoken>();
  add<void>();
  if (mc::property() == "P02")
    mc::add("promise/orphan-error", &orphan_error);
}
