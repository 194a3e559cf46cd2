// wait_group: every history of pushes, completions, waits, cancellations and reaps against a reference model
#include "cob.hpp"
#include <boost/cobalt/wait_group.hpp>
#include <algorithm>
#include <map>

using namespace cob;

namespace
{
struct child
{
  int id;
  ctl_state op;
  int frames = 0;
  result_t result;            // how it ended
  int cancels = 0;            // expected
  asio::cancellation_type last = asio::cancellation_type::none;
  bool in_group = true;
  bool done() const {return result.kind != result_t::none;}
};

cobalt::promise<void> body(child & c, life_guard)
{
  try {co_await ctl<void>{&c.op};}
  catch (...)
  {
    c.result = err(std::current_exception());
    throw;
  }
  c.result = val(0);
}

// seeds producing every permutation of n elements
const std::vector<unsigned> & seeds(std::size_t n)
{
  static std::map<std::size_t, std::vector<unsigned>> cache;
  auto itr = cache.find(n);
  if (itr != cache.end())
    return itr->second;
  mc::quiet q;
  std::map<std::vector<int>, unsigned> perms;
  std::size_t f = 1;
  for (std::size_t i = 2; i <= n; i++) f *= i;
  for (unsigned s = 1; perms.size() < f; s++)
  {
    std::default_random_engine e(s);
    std::vector<int> v(n);
    for (std::size_t i = 0; i < n; i++) v[i] = (int)i;
    std::shuffle(v.begin(), v.end(), e);
    perms.emplace(v, s);
  }
  std::vector<unsigned> res;
  for (auto & p : perms) res.push_back(p.second);
  return cache[n] = res;
}

enum wait_kind {none, one, all, co, exit_normal, exit_error};
const char * names[] = {"", "wait_one", "wait", "co_await", "await_exit()", "await_exit(error)"};

struct runner
{
  world w;
  std::optional<cobalt::wait_group> wg;
  std::vector<std::unique_ptr<child>> children;
  std::vector<child*> group;           // in order
  asio::cancellation_type normal, except;
  struct waiter {proc_state st; wait_kind kind; bool done = false; result_t got; waiter(world & w) : st(w) {}};
  std::vector<std::unique_ptr<waiter>> waiters;
  waiter * cur = nullptr;              // pending one
  std::vector<child*> waiting_for;     // by that
  result_t expected;                   // for that
  std::string trail;

  proc await_it(proc_state &, waiter & a)
  {
    try
    {
      switch (a.kind)
      {
        case one: co_await wg->wait_one(); break;
        case all: co_await wg->wait(); break;
        case co: co_await *wg; break;
        case exit_normal: co_await wg->await_exit(nullptr); break;
        case exit_error: co_await wg->await_exit(std::make_exception_ptr(my_error(1))); break;
        default: break;
      }
      a.got = val(0);
    }
    catch (...) {a.got = err(std::current_exception());}
    a.done = true;
  }
  void erase(child * c)
  {
    c->in_group = false;
    std::erase(group, c);
  }
  void cancelled(child * c, asio::cancellation_type ct)
  {
    if (!c->op.pending)
      return;
    c->cancels++;
    c->last = ct;
  }
  void push()
  {
    child * c;
    {
      mc::quiet q;
      children.push_back(std::make_unique<child>());
      c = children.back().get();
      c->id = (int)children.size();
    }
    switch (mc::choose(3, "child is (pending, done at once, fails at once)"))
    {
      case 1: c->op.ready = true; c->op.result = val(0); break;
      case 2: c->op.throws = true; c->op.result = err(10 + c->id); break;
      default: break;
    }
    mc::note("push child %d", c->id);
    trail += "P";
    wg->push_back(body(*c, life_guard(c->frames)));
    mc::quiet q;
    group.push_back(c);
  }
  void start(wait_kind k)
  {
    mc::note("start %s", names[k]);
    trail += std::to_string(k);
    const auto & s = seeds(group.size());
    std::vector<int> perm(group.size());
    for (std::size_t i = 0; i < perm.size(); i++) perm[i] = (int)i;
    if (k == one && group.size() > 1)
    {
      unsigned seed = s[mc::choose((int)s.size(), "order of the race")];
      std::default_random_engine e(seed);
      std::shuffle(perm.begin(), perm.end(), e);
      cobalt::detail::prng().seed(seed);
    }
    {
      mc::quiet q;
      waiters.push_back(std::make_unique<waiter>(w));
      cur = waiters.back().get();
      cur->kind = k;
      waiting_for = group;
    }
    expected = val(0);
    child * winner = nullptr;
    bool immediate = group.empty();
    if (k == one)
    {
      for (auto i : perm)
        if (group[i]->done())
        {
          winner = group[i];
          break;
        }
      if (winner)
      {
        immediate = true;
        expected = winner->result;
        mc::quiet q;
        erase(winner);
      }
    }
    else
    {
      auto ct = k == exit_normal ? normal : k == exit_error ? except : asio::cancellation_type::none;
      if (ct != asio::cancellation_type::none)
        for (auto c : group)
          cancelled(c, ct);
      if (std::all_of(group.begin(), group.end(), [](child * c) {return c->done();}))
        immediate = true;
      if (immediate)
        for (auto c : waiting_for) erase(c);
    }
    await_it(cur->st, *cur);
    if (immediate)
      finish();
    else
      MC_CHECK(!cur->done, "%s completes although nothing is done", names[k]);
  }
  void finish()
  {
    MC_CHECK(cur->done, "%s isn't done", names[cur->kind]);
    MC_CHECK(cur->got == expected, "%s yields %s instead of %s", names[cur->kind], cur->got.str().c_str(), expected.str().c_str());
    MC_CHECK(cur->st.destroyed, "the awaiter isn't done");
    trail += "=" + cur->got.str();
    cur = nullptr;
    waiting_for.clear();
  }
  void complete(child * c, result_t r)
  {
    mc::note("complete child %d with %s", c->id, r.str().c_str());
    trail += r.kind == result_t::error ? "-" : "+";
    const bool awaited = cur && std::find(waiting_for.begin(), waiting_for.end(), c) != waiting_for.end();
    c->op.complete(r);
    MC_CHECK(c->result == r, "child %d didn't get the result of its operation", c->id);
    if (!awaited)
      return;
    if (cur->kind == one)
    {
      expected = r;
      erase(c);
      finish();
    }
    else if (std::all_of(waiting_for.begin(), waiting_for.end(), [](child * c) {return c->done();}))
    {
      for (auto x : waiting_for)
        erase(x);
      finish();
    }
  }
  void observe()
  {
    std::uint64_t h = cur ? cur->kind : 0;
    if (wg)
      MC_CHECK(wg->size() == group.size(), "size() is %zu, expected %zu", wg->size(), group.size());
    for (auto & p : children)
    {
      auto & c = *p;
      MC_CHECK(c.op.n_cancel == c.cancels, "child %d: received %d cancellations, expected %d", c.id, c.op.n_cancel, c.cancels);
      MC_CHECK(c.cancels == 0 || ((int)c.op.last_cancel & 7) == ((int)c.last & 7), "child %d: cancelled with type %d instead of %d", c.id, (int)c.op.last_cancel, (int)c.last);
      MC_CHECK(c.frames == (c.done() ? 0 : 1), "child %d: %d frames alive", c.id, c.frames);
      h = mc::mix(h, c.done() * 2 + c.in_group + c.cancels * 4 + 64 * (c.result.kind));
    }
    if (cur)
      MC_CHECK(!cur->done, "%s completed too early", names[cur->kind]);
    mc::state(h);
  }

  void run(int steps, int max_children)
  {
    if (mc::choose(2, "cancellation types of the group"))
    {
      normal = asio::cancellation_type::total;
      except = asio::cancellation_type::partial;
      wg.emplace(normal, except);
    }
    else
    {
      normal = asio::cancellation_type::none;
      except = asio::cancellation_type::all;
      wg.emplace();
    }
    while (!mc::failed() && steps-- > 0)
    {
      std::vector<std::function<void()>> ev;
      {
        mc::quiet q;
        if ((int)children.size() < max_children)
          ev.push_back([this]{push();});
        for (auto & p : children)
          if (p->op.pending)
          {
            ev.push_back([this, c = p.get()]{complete(c, val(0));});
            ev.push_back([this, c = p.get()]{complete(c, err(20 + c->id));});
          }
        if (!cur)
        {
          for (auto k : {one, all, co, exit_normal, exit_error})
            ev.push_back([this, k]{start(k);});
          ev.push_back([this]
          {
            mc::note("destroy the group");
            trail += "D";
            for (auto c : group)
              cancelled(c, asio::cancellation_type::all);
            wg.reset();
            mc::quiet q;
            group.clear();
          });
        }
        else
          ev.push_back([this]
          {
            mc::note("cancel the awaiter");
            trail += "c";
            for (auto c : waiting_for)
              cancelled(c, asio::cancellation_type::terminal);
            cur->st.signal.emit(asio::cancellation_type::terminal);
          });
        ev.push_back([this]
        {
          mc::note("cancel the group");
          trail += "C";
          for (auto c : group)
            cancelled(c, asio::cancellation_type::partial);
          wg->cancel(asio::cancellation_type::partial);
        });
        ev.push_back([this]
        {
          std::size_t n = 0;
          {
            mc::quiet q;
            auto g = group;
            for (auto c : g)
              if (c->done() && !(cur && std::find(waiting_for.begin(), waiting_for.end(), c) != waiting_for.end()))
              {
                n++;
                erase(c);
              }
          }
          mc::note("reap %zu", n);
          trail += "R";
          auto r = wg->reap();
          MC_CHECK(r == n, "reap() removed %zu instead of %zu", r, n);
        });
      }
      int k = mc::choose((int)ev.size(), "event");
      mc::step();
      ev[k]();
      {mc::quiet q; ev.clear();}
      observe();
      if (!wg)
        break;
    }
    // the rest
    for (auto & p : children)
      if (!mc::failed() && p->op.pending)
      {
        complete(p.get(), val(0));
        observe();
      }
    if (cur)
      MC_CHECK(!cur, "the awaiter of %s is never resumed", names[cur->kind]);
    mc::outcome(trail);
    wg.reset();
  }
};
}

MC_MAIN()
{
  const int steps = mc::thorough() ? 7 : 5, n = 3;
  mc::add("wait_group/events=" + std::to_string(steps) + "/promises=" + std::to_string(n), [=]
  {
    std::optional<runner> r;
    {mc::quiet q; r.emplace();}
    r->run(steps, n);
    {mc::quiet q; r.reset();}
  });
}
