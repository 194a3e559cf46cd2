// generator: values in order exactly once, pushes in order, eager/lazy progress, errors, ownership, cancellation and
// interruption. Every history of up to N events against a small reference model.
#include "cob.hpp"
#include <boost/cobalt/generator.hpp>

using namespace cob;

namespace
{
template<typename T> struct tn;
template<> struct tn<token>  {static constexpr const char * name = "copyable";};
template<> struct tn<mtoken> {static constexpr const char * name = "move-only";};
template<> struct tn<void>   {static constexpr const char * name = "void";};

struct gen_ctl
{
  int id;
  bool lazy;
  io_env op;
  int frames = 0;
  bool started = false, locals_alive = false;
  bool orphan = false;
  // --- reference model
  std::deque<int> avail;         // values produced, but not consumed. At most one.
  int produced = 0, consumed = 0;
  bool parked = false;           // suspended in a yield (or in initial)
  bool resumable = false;        // parked & the resumption is scheduled
  bool finished = false;         // the body ended
  result_t error;                // undelivered exception
  std::deque<int> pushes;        // what the generator must receive, in order
  int received = 0;
  bool latched = false;          // cancelled since the last reset
  result_t op_result;
  int awaits = 0, yields = 0;
  int max_yields = 3, max_awaits = 1;
  bool relaxed = false;          // a lazy void generator can have been asked ahead
  bool dead = false;             // frame was destroyed without finishing
  gen_ctl(int id) : id(id) {op.aborted = []{return std::make_tuple(aborted_code(), 0);};}
};

template<typename Y, typename P, typename Aw>
struct yielder;

template<typename P>
void got_push(gen_ctl & c, int v)
{
  c.parked = c.resumable = false;
  c.received++;
  if (c.relaxed)
  {
    if (!c.pushes.empty())
      c.pushes.pop_front();
    return;
  }
  MC_CHECK(!c.pushes.empty(), "generator %d was resumed although nobody asked for another value", c.id);
  if (!c.pushes.empty())
  {
    MC_CHECK(std::is_void_v<P> || c.pushes.front() == v, "generator %d received %d, but %d was pushed", c.id, v, c.pushes.front());
    c.pushes.pop_front();
  }
}

template<typename Y, typename P>
cobalt::generator<Y, P> body(gen_ctl & c, life_guard)
{
  c.started = true;
  c.locals_alive = true;
  struct leave {gen_ctl & c; ~leave() {c.locals_alive = false; if (!c.finished) c.dead = true;}} l{c};
  if (c.lazy)
  {
    c.parked = true;
    if constexpr (std::is_void_v<P>)
    {
      co_await cobalt::this_coro::initial;
      got_push<P>(c, 0);
    }
    else
    {
      P p = co_await cobalt::this_coro::initial;
      got_push<P>(c, p.v);
    }
  }
  while (true)
  {
    enum {yield, ret, await, thr};
    int opts[4], n = 0;
    if (c.yields < c.max_yields) opts[n++] = yield;
    opts[n++] = ret;
    if (c.awaits < c.max_awaits) opts[n++] = await;
    if (!c.orphan) opts[n++] = thr;
    int k = opts[mc::choose(n, "body does (yield, return, await, throw)")];
    if (k == yield)
    {
      c.yields++;
      int v = 100 * c.id + ++c.produced;
      if (!c.orphan)
      {
        c.avail.push_back(v);
        c.parked = true;
      }
      if constexpr (std::is_void_v<P>)
      {
        co_yield Y{v};
        got_push<P>(c, 0);
      }
      else
      {
        P p = co_yield Y{v};
        got_push<P>(c, p.v);
      }
    }
    else if (k == ret)
    {
      int v = 100 * c.id + ++c.produced;
      if (!c.orphan)
        c.avail.push_back(v);
      c.finished = true;
      co_return Y{v};
    }
    else if (k == thr)
    {
      c.finished = true;
      c.error = err(10 * c.id + c.awaits);
      throw my_error(10 * c.id + c.awaits);
    }
    else
    {
      c.awaits++;
      c.op_result = {};
      bool latched = c.latched;
      int initiated = c.op.initiated;
      result_t got;
      try {got = val(co_await env_wait(c.op));}
      catch (...) {got = err(std::current_exception());}
      if (latched)
      {
        MC_CHECK(got == err(e_aborted) && initiated == c.op.initiated, "a cancelled generator could start another operation");
      }
      else
        MC_CHECK(got == c.op_result, "generator %d observed %s from an operation completed with %s", c.id, got.str().c_str(), c.op_result.str().c_str());
      if (got == err(e_aborted))
      {
        co_await boost::asio::this_coro::reset_cancellation_state();
        c.latched = false;
        c.awaits--;
        if (c.awaits < 0) c.awaits = 0;
        c.max_awaits = c.awaits;
      }
    }
  }
}

template<typename Y, typename P>
struct runner
{
  static constexpr bool moves = std::is_same_v<Y, mtoken>;
  using gen = cobalt::generator<Y, P>;
  using aw_t = typename boost::cobalt::detail::generator_receiver<Y, P>::awaitable;
  world w;
  gen_ctl c[2]{1, 2};
  std::optional<gen> g[2];
  int holds[2] = {-1, -1};
  bool created[2] = {false, false};
  int cancels[2] = {0, 0};
  struct consumer
  {
    proc_state st; int holder, coro, api, push; bool as_const;
    result_t got, expected;
    bool done = false, pushed_early = false, interrupted = false;
    aw_t * aw = nullptr;
    consumer(world & w) : st(w) {}
  };
  std::vector<std::unique_ptr<consumer>> cs;
  int waiting[2] = {-1, -1};
  int consumers = 0, max_consumers = 4;
  std::string trail;
  const bool g2 = mc::property() == "G02";
  bool strict = false;

  struct push_arg
  {
    std::conditional_t<std::is_void_v<P>, int, P> p;
  };

  struct by_ref_plain
  {
    aw_t & aw;
    bool await_ready() {return aw.await_ready();}
    template<typename Pr> auto await_suspend(std::coroutine_handle<Pr> h) {return aw.await_suspend(h);}
    Y await_resume() {return aw.await_resume();}
  };
  struct by_ref_result
  {
    aw_t & aw;
    bool await_ready() {return aw.await_ready();}
    template<typename Pr> auto await_suspend(std::coroutine_handle<Pr> h) {return aw.await_suspend(h);}
    auto await_resume() {return aw.await_resume(cobalt::as_result_tag{});}
  };

  aw_t make(consumer & a, push_arg & pa)
  {
    if constexpr (std::is_void_v<P>)
      return g[a.holder]->operator co_await();
    else if constexpr (std::is_copy_constructible_v<P>)
    {
      if (a.as_const)
        return (*g[a.holder])(static_cast<const P &>(pa.p));
      else
        return (*g[a.holder])(std::move(pa.p));
    }
    else
      return (*g[a.holder])(std::move(pa.p));
  }

  proc consume(proc_state &, consumer & a)
  {
    push_arg pa{a.push};
    if (a.api == 0)
    {
      auto aw = make(a, pa);
      a.aw = &aw;
      try
      {
        Y y = co_await by_ref_plain{aw};
        a.got = val(y.v);
      }
      catch (...) {a.got = err(std::current_exception());}
    }
    else if (a.api == 1)
    {
      auto aw = make(a, pa);
      a.aw = &aw;
      auto r = co_await by_ref_result{aw};
      if (r.has_error())
        a.got = err(r.error());
      else
        a.got = val(r->v);
    }
    else if constexpr (!moves)
    {
      auto [e, y] = co_await cobalt::as_tuple(make(a, pa));
      if (e)
        a.got = err(e);
      else
        a.got = val(y.v);
    }
    if constexpr (!std::is_void_v<P>)
      if (a.as_const)
        MC_CHECK(pa.p.v == a.push || !std::is_copy_constructible_v<P>, "a value pushed by const reference was modified");
    a.done = true;
    a.aw = nullptr;
  }

  int holder_of(int k) const {return holds[0] == k ? 0 : holds[1] == k ? 1 : -1;}

  void create(int k)
  {
    mc::step();
    c[k].lazy = mc::choose(2, "generator is (eager, lazy)") == 1;
    c[k].max_yields = mc::thorough() ? 3 : (g2 && k == 1 ? 1 : 2);
    c[k].max_awaits = g2 && k == 1 ? 0 : (mc::thorough() && !g2 ? 2 : 1);
    mc::note("create %s generator %d", c[k].lazy ? "lazy" : "eager", k);
    created[k] = true;
    g[k].emplace(body<Y, P>(c[k], life_guard(c[k].frames)));
    holds[k] = k;
    MC_CHECK(c[k].started, "a generator must start right away");
  }

  bool gone(int k) const {return c[k].finished || c[k].dead;}

  // one value, or the error, was delivered
  result_t deliver(int k, int push, bool pushed_early)
  {
    auto & m = c[k];
    if (m.error.kind != result_t::none)
      return std::exchange(m.error, {});
    if (m.avail.empty())
      return m.finished ? err(-5) : result_t{};
    int v = m.avail.front();
    m.avail.pop_front();
    m.consumed++;
    if (!pushed_early)
      m.pushes.push_back(push);
    if (m.parked && !m.lazy && !m.pushes.empty())
      m.resumable = true;
    return val(v);
  }

  void observe()
  {
    std::uint64_t h = 0;
    for (int k = 0; k < 2; k++)
    {
      auto & m = c[k];
      if (!created[k])
        continue;
      if (waiting[k] >= 0)
      {
        auto & a = *cs[waiting[k]];
        bool served = !m.avail.empty() || m.error.kind != result_t::none || m.finished;
        if (served && m.relaxed && !a.done && !m.finished)
          ; // known: it gets resumed with the next value only. See the scenario generator/lazy-void-interrupted
        else if (served)
        {
          MC_CHECK(a.done, "generator %d has something to deliver, but the coroutine awaiting it was not resumed", k);
          a.expected = deliver(k, a.push, a.pushed_early);
          MC_CHECK(a.got == a.expected, "the awaiter of generator %d got %s instead of %s", k, a.got.str().c_str(), a.expected.str().c_str());
          waiting[k] = -1;
        }
        else
          MC_CHECK(!a.done, "the awaiter of generator %d was resumed with %s before a value was there", k, a.got.str().c_str());
      }
      h = mc::mix(h, m.avail.size() + 4 * m.parked + 8 * m.resumable + 16 * m.finished + 32 * m.dead + 64 * m.lazy + 128 * (waiting[k] >= 0)
                     + 256 * m.op.is_pending() + 512 * m.pushes.size() + 4096 * (holder_of(k) + 1) + 16384ull * m.produced + 65536ull * m.latched + 131072ull * cancels[k] + (m.error.kind << 20));
      MC_CHECK((int)m.avail.size() <= 1 + m.relaxed, "generator %d produced %d values nobody asked for", k, (int)m.avail.size());
      MC_CHECK(m.op.cancels == cancels[k], "generator %d: its operation received %d cancellations, expected %d", k, m.op.cancels, cancels[k]);
      bool over = gone(k);
      MC_CHECK(m.frames == (over ? 0 : 1), "generator %d: %d coroutine frames live (finished %d)", k, m.frames, over);
      MC_CHECK(m.locals_alive == !over, "generator %d: locals alive %d", k, m.locals_alive);
      int hd = holder_of(k);
      if (hd < 0)
        continue;
      bool ready = !m.avail.empty() || m.error.kind != result_t::none;
      MC_CHECK(g[hd]->ready() == ready, "generator %d: ready() is %d, expected %d", k, g[hd]->ready(), ready);
      MC_CHECK(bool(*g[hd]) == (!m.finished || ready), "generator %d: operator bool is %d (finished %d, ready %d)", k, bool(*g[hd]), m.finished, ready);
      MC_CHECK(!m.dead, "an owned generator was destroyed");
    }
    mc::state(h);
  }

  void await(int hd)
  {
    int k = holds[hd];
    consumer * a;
    int idx;
    {
      mc::quiet q;
      cs.push_back(std::make_unique<consumer>(w));
      idx = (int)cs.size() - 1;
      a = cs.back().get();
    }
    a->holder = hd;
    a->coro = k;
    a->push = 1000 + idx;
    a->api = g2 ? idx % (moves ? 2 : 3) : (int)mc::choose(moves ? 2 : 3, "await flavour (plain, as_result, as_tuple)");
    a->as_const = !std::is_void_v<P> && std::is_copy_constructible_v<P> && (idx % 2 == 1);
    auto & m = c[k];
    bool ready = !m.avail.empty() || m.error.kind != result_t::none || m.finished;
    bool was_waiting = waiting[k] >= 0;
    mc::note("await generator %d, push %d", k, a->push);
    if (ready && !was_waiting)
    {
      a->expected = deliver(k, a->push, false);
      consume(a->st, *a);
      MC_CHECK(a->done, "awaiting generator %d, which has something to deliver, suspended", k);
      MC_CHECK(a->got == a->expected, "the awaiter of generator %d got %s instead of %s", k, a->got.str().c_str(), a->expected.str().c_str());
    }
    else if (was_waiting)
    {
      consume(a->st, *a);
      MC_CHECK(a->done && a->got == err(e_already_awaited), "a second awaiter of generator %d got %s instead of already_awaited", k, a->done ? a->got.str().c_str() : "nothing");
    }
    else
    {
      if (m.parked && !m.resumable)
      {
        // hands the value over right away
        if (m.pushes.empty())
        {
          m.pushes.push_back(a->push);
          a->pushed_early = true;
        }
        m.resumable = true;
      }
      waiting[k] = idx;
      consume(a->st, *a);
    }
    if (a->st.error)
      mc::fail("exception escaped the awaiter: %s", what(a->st.error).c_str());
  }

  void cancelled(int k)
  {
    if (k < 0 || !created[k] || gone(k))
      return;
    c[k].latched = true;
    if (c[k].op.is_pending())
    {
      cancels[k]++;
      c[k].op_result = err(e_aborted);
    }
  }

  // the holder looses its generator
  void drop(int hd)
  {
    int k = holds[hd];
    if (k >= 0)
    {
      cancelled(k);
      auto & m = c[k];
      m.orphan = true;
      m.avail.clear();
      m.error = {};
    }
    holds[hd] = -1;
  }
  void dropped(int k)
  {
    if (k < 0)
      return;
    auto & m = c[k];
    if (m.parked && !m.resumable && !m.finished)
      MC_CHECK(m.dead, "generator %d is suspended in a yield, nobody owns it, yet it was not destroyed", k);
  }

  void after_move(int from, int to)
  {
    MC_CHECK(!g[from]->ready() || gone(holds[to]) || true, "-");
    g[from]->cancel();
    if (gone(holds[to]))
      return;
    consumer * a;
    {
      mc::quiet q;
      cs.push_back(std::make_unique<consumer>(w));
      a = cs.back().get();
    }
    a->holder = from; a->coro = -1; a->push = -7; a->api = 1; a->as_const = false;
    consume(a->st, *a);
    MC_CHECK(a->done && a->got == err(e_moved), "awaiting a moved from generator gave %s", a->done ? a->got.str().c_str() : "nothing");
  }

  bool busy()
  {
    for (int k = 0; k < 2; k++)
      if (created[k] && !gone(k) && !c[k].op.is_pending() && (c[k].resumable || !c[k].parked))
        return true;
    return false;
  }

  void run(int steps)
  {
    create(0);
    observe();
    for (int s = 0; s < steps && !mc::failed(); s++)
    {
      enum {stop, poll, awt, ok, ko, get, mk, cncl, acncl, intr, destroy, mv, assign, drop_moved};
      struct ev {int kind, arg;};
      ev evs[48]; int n = 0;
      evs[n++] = {stop, 0};
      if (busy()) evs[n++] = {poll, 0};
      if (g2 && !created[1] && holds[1] < 0) evs[n++] = {mk, 1};
      for (int k = 0; k < 2; k++)
      {
        if (!created[k]) continue;
        auto & m = c[k];
        int hd = holder_of(k);
        if (m.op.is_pending())
        {
          evs[n++] = {ok, k};
          if (!g2) evs[n++] = {ko, k};
        }
        if (hd < 0) continue;
        if (consumers < max_consumers) evs[n++] = {awt, hd};
        if (waiting[k] >= 0 && cs[waiting[k]]->aw) evs[n++] = {intr, k};
        if (!m.avail.empty() || m.error.kind != result_t::none)
          if (!g2) evs[n++] = {get, hd};
        if (g2)
        {
          if (cancels[k] < 2 && !(m.latched && !m.op.is_pending())) evs[n++] = {cncl, hd};
          if (cancels[k] < 2 && waiting[k] >= 0) evs[n++] = {acncl, k};
          if (waiting[k] < 0)
          {
            int o = 1 - hd;
            evs[n++] = {destroy, hd};
            if (g[o] && holds[o] < 0) evs[n++] = {drop_moved, o};
            if (!g[o]) evs[n++] = {mv, hd};
            else if (holds[o] < 0 || waiting[holds[o]] < 0) evs[n++] = {assign, hd};
          }
        }
      }
      auto e = evs[mc::choose(n, "event (stop, poll, create, complete, fail, await, interrupt, get, cancel, cancel awaiter, destroy, move, assign)")];
      if (e.kind == stop) break;
      mc::step();
      switch (e.kind)
      {
        case poll: mc::note("poll"); w.poll_one(); break;
        case mk: create(1); break;
        case awt: consumers++; await(e.arg); trail += "a"; break;
        case ok: mc::note("complete op of %d", e.arg); c[e.arg].op_result = val(7); c[e.arg].op.complete(error_code{}, 7); break;
        case ko: mc::note("fail op of %d", e.arg); c[e.arg].op_result = err(3); c[e.arg].op.complete(user_code(3), 0); break;
        case intr:
        {
          auto & a = *cs[waiting[e.arg]];
          if (std::is_void_v<P> && c[e.arg].lazy && !strict)
            c[e.arg].relaxed = true;
          mc::note("interrupt the awaiter of %d", e.arg);
          waiting[e.arg] = -1;
          a.aw->interrupt_await();
          MC_CHECK(a.done && a.got == err(e_detached), "an interrupted awaiter got %s", a.done ? a.got.str().c_str() : "nothing");
          trail += "i";
          break;
        }
        case get:
        {
          int k = holds[e.arg];
          auto & m = c[k];
          result_t x, g_;
          if (m.error.kind != result_t::none)
            x = m.error;           // stays
          else
          {
            x = val(m.avail.front());
            m.avail.pop_front();
            m.consumed++;
          }
          mc::note("get from %d", k);
          try {Y y = g[e.arg]->get(); g_ = val(y.v);}
          catch (...) {g_ = err(std::current_exception());}
          MC_CHECK(g_ == x, "get() of generator %d gave %s instead of %s", k, g_.str().c_str(), x.str().c_str());
          trail += "g";
          break;
        }
        case cncl:
        {
          static const asio::cancellation_type types[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total};
          int k = holds[e.arg];
          auto t = types[s % 3];
          bool pending = c[k].op.is_pending();
          mc::note("cancel generator %d", k);
          cancelled(k);
          g[e.arg]->cancel(t);
          if (pending)
            MC_CHECK(c[k].op.last_cancel == t, "generator %d was cancelled with type %d, but its operation with %d", k, (int)t, (int)c[k].op.last_cancel);
          trail += "c";
          break;
        }
        case acncl:
          mc::note("cancel the awaiter of %d", e.arg);
          cancelled(e.arg);
          cs[waiting[e.arg]]->st.signal.emit(asio::cancellation_type::all);
          trail += "C";
          break;
        case destroy:
        {
          int k = holds[e.arg];
          mc::note("destroy generator %d", k);
          drop(e.arg);
          g[e.arg].reset();
          dropped(k);
          trail += "D";
          break;
        }
        case mv:
        case assign:
        {
          int o = 1 - e.arg, k = holds[o];
          if (e.kind == mv)
          {
            mc::note("move generator %d", holds[e.arg]);
            g[o].emplace(std::move(*g[e.arg]));
          }
          else
          {
            mc::note("move-assign generator %d over %d", holds[e.arg], k);
            drop(o);
            *g[o] = std::move(*g[e.arg]);
          }
          holds[o] = holds[e.arg];
          holds[e.arg] = -1;
          dropped(k);
          after_move(e.arg, o);
          trail += e.kind == mv ? "m" : "=";
          break;
        }
        case drop_moved: g[e.arg].reset(); break;
      }
      observe();
    }
    // let it run dry: everything still to come arrives, in order
    for (int i = 0; i < 24 && !mc::failed(); i++)
    {
      while (!mc::failed() && w.poll_one())
        observe();
      for (int k = 0; k < 2 && !mc::failed(); k++)
      {
        auto & m = c[k];
        if (!created[k]) continue;
        if (m.orphan && !m.op.is_pending())
          MC_CHECK(gone(k), "generator %d has no owner, is idle, yet its frame lives", k);
        // an eager generator works ahead, a lazy one does not
        if (!gone(k) && !m.op.is_pending() && !m.relaxed)
          MC_CHECK(m.lazy ? m.parked : m.parked && (!m.avail.empty() || m.pushes.empty()), "generator %d is idle though it could work ahead", k);
      }
      bool any = false;
      for (int k = 0; k < 2 && !mc::failed(); k++)
      {
        auto & m = c[k];
        if (!created[k]) continue;
        if (m.op.is_pending())
        {
          any = true;
          m.op_result = val(8);
          m.op.complete(error_code{}, 8);
          observe();
          continue;
        }
        int hd = holder_of(k);
        if (hd >= 0 && bool(*g[hd]) && waiting[k] < 0)
        {
          any = true;
          await(hd);
          observe();
        }
        else if (hd >= 0 && waiting[k] >= 0)
          any = true;
      }
      if (!any) break;
    }
    for (int k = 0; k < 2 && !mc::failed(); k++)
    {
      if (!created[k]) continue;
      MC_CHECK(gone(k), "generator %d never ended", k);
      trail += "/" + std::to_string(c[k].consumed) + "," + std::to_string(c[k].received) + (c[k].dead ? "x" : "");
      if (holder_of(k) >= 0)
        MC_CHECK(c[k].produced == c[k].consumed, "generator %d produced %d values, %d arrived", k, c[k].produced, c[k].consumed);
    }
    mc::outcome(trail);
  }
};

// values produced after an interrupted await must reach the next awaiter right away
cobalt::generator<int> lazy_ints(io_env & op)
{
  co_await cobalt::this_coro::initial;
  while (true)
    co_yield co_await env_wait(op);
}

void lazy_void_interrupted()
{
  world w;
  io_env op;
  op.aborted = []{return std::make_tuple(aborted_code(), 0);};
  std::optional<cobalt::generator<int>> g;
  using aw_t = boost::cobalt::detail::generator_receiver<int, void>::awaitable;
  struct by_ref
  {
    aw_t & aw;
    bool await_ready() {return aw.await_ready();}
    auto await_suspend(std::coroutine_handle<proc::promise_type> h) {return aw.await_suspend(h);}
    auto await_resume() {return aw.await_resume(cobalt::as_result_tag{});}
  };
  struct consumer
  {
    proc_state st; bool done = false; int got = -1; aw_t * aw = nullptr;
    consumer(world & w) : st(w) {}
  };
  auto consume = [&](proc_state &, consumer & c) -> proc
  {
    auto aw = g->operator co_await();
    c.aw = &aw;
    auto r = co_await by_ref{aw};
    c.got = r.has_error() ? -2 : *r;
    c.done = true;
  };
  std::deque<consumer> cs;
  g.emplace(lazy_ints(op));
  int n = mc::choose(2, "interrupted awaits") + 1;
  for (int i = 0; i < n; i++)
  {
    cs.emplace_back(w);
    consume(cs.back().st, cs.back());
    cs.back().aw->interrupt_await();
    MC_CHECK(cs.back().done && cs.back().got == -2, "an interrupted await did not end");
  }
  cs.emplace_back(w);
  consume(cs.back().st, cs.back());
  op.complete(error_code{}, 7);
  w.drain();
  bool prompt = cs.back().done;
  if (!prompt)
    op.complete(error_code{}, 8);
  w.drain();
  MC_CHECK(cs.back().done && cs.back().got == 7, "the value got lost");
  w.escaped = [](std::exception_ptr) {return true;};
  g.reset();
  w.drain();
  mc::outcome(prompt ? "prompt" : "late");
  MC_CHECK(prompt, "after an interrupted await, the next awaiter of a lazy generator was resumed by the second value only");
}

template<typename Y, typename P>
void add()
{
  bool g2 = mc::property() == "G02", t = mc::thorough();
  int steps = g2 ? (t ? 6 : 5) : (t ? 7 : 6);
  mc::add(std::string("generator<") + tn<Y>::name + "," + tn<P>::name + ">/events=" + std::to_string(steps), [=]
  {
    auto live = pstats.live;
    std::optional<runner<Y, P>> r;
    {mc::quiet q; r.emplace();}
    r->run(steps);
    {mc::quiet q; r.reset();}
    MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
  });
}
}

MC_MAIN()
{
  add<token, void>();
  add<token, token>();
  add<mtoken, mtoken>();
  if (mc::property() == "G01")
  {
    mc::options o;
    o.leak_check = false;
    mc::add("generator/lazy-void-interrupted", &lazy_void_interrupted, o);
  }
}
