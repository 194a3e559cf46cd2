// channels within race: whatever a race doesn't report must not have happened.
#include "cob.hpp"
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/race.hpp>
#include <algorithm>

using namespace cob;

namespace
{
template<typename T> int tok(T & t) {return t.v;}

struct urbg
{
  using result_type = std::uint32_t;
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return 0xFFFFFFFFu;}
  result_type operator()() {return mc::choose(2, "random number") * (0xFFFFFFFFu / 2) + 1000;}
};

enum status {unknown, pending, ok, nothing};
const char * names[] = {"unknown", "pending", "ok", "nothing"};

struct rec
{
  int id;
  int ch;
  bool read;
  int value = -1;       // written
  int got = -1;         // read
  status st = pending;
  int group = -1;       // the race
  bool alive = true;
};

template<typename T>
struct base
{
  world w;
  int nch;
  std::vector<std::unique_ptr<cobalt::channel<T>>> ch;
  std::vector<std::unique_ptr<rec>> ops;
  struct actor {proc_state st; bool busy = false; actor(world & w) : st(w) {}};
  std::vector<std::unique_ptr<actor>> actors;
  std::vector<actor*> racers;
  io_env op;
  int budget, next_value = 1, rounds = 0, max_rounds, groups = 0;
  std::string trail;
  std::vector<int> anon;             // void: balance
  bool flushing = false;

  base(std::vector<int> limits, int budget, int max_rounds) : nch((int)limits.size()), budget(budget), max_rounds(max_rounds)
  {
    for (auto l : limits)
      ch.push_back(std::make_unique<cobalt::channel<T>>(l, w.ctx.get_executor()));
    op.aborted = []{return std::make_tuple(aborted_code(), -1);};
  }

  rec & begin(int c, bool read, int group = -1)
  {
    mc::quiet q;
    ops.push_back(std::make_unique<rec>());
    auto & o = *ops.back();
    o.id = (int)ops.size() - 1;
    o.ch = c;
    o.read = read;
    o.group = group;
    if (!read)
      o.value = 100 * c + next_value++;
    mc::note("%s%s #%d on channel %d %s", group < 0 ? "" : "race ", read ? "read" : "write", o.id, c, read ? "" : std::to_string(o.value).c_str());
    return o;
  }
  void done(rec & o, bool fine, int got = -1)
  {
    mc::quiet q;
    o.st = fine ? ok : nothing;
    o.got = got;
    trail += o.read ? 'r' : 'w';
    trail += fine ? std::to_string(o.read ? got : o.value) : "-";
    mc::note("#%d: %s %d", o.id, fine ? "done" : "not done", got);
    if (fine && o.read && !std::is_void_v<T>)
    {
      MC_CHECK(got / 100 == o.ch, "a read on channel %d yields %d", o.ch, got);
      rec * src = nullptr;
      for (auto & x : ops)
      {
        if (!x->read && x->value == got)
          src = x.get();
        if (x->read && x.get() != &o && x->st == ok)
          MC_CHECK(x->got != got, "%d was read twice", got);
      }
      MC_CHECK(src, "%d was read, but not written", got);
      if (src)
        MC_CHECK(src->st != nothing, "%d was read, but its write reports that it did not happen", got);
    }
    if (!fine && !o.read)
      for (auto & x : ops)
        if (x->read && x->st == ok)
          MC_CHECK(x->got != o.value, "%d was read, but its write reports that it did not happen", o.value);
  }
  int count(int c, bool read, status st) const
  {
    int n = 0;
    for (auto & o : ops)
      n += o->ch == c && o->read == read && o->st == st && o->alive;
    return n;
  }

  proc writer(proc_state &, actor & a, int c)
  {
    a.busy = true;
    for (;;)
    {
      auto & o = begin(c, false);
      bool fine = true;
      try
      {
        if constexpr (std::is_void_v<T>)
          co_await ch[c]->write();
        else
          co_await ch[c]->write(T{o.value});
      }
      catch (...) {fine = false;}
      MC_CHECK(fine, "a write failed");
      done(o, fine);
      if (budget <= 0 || mc::failed() || mc::choose(2, "the writer (stops, writes again)") == 0)
        break;
      budget--;
    }
    a.busy = false;
  }
  proc reader(proc_state &, actor & a, int c)
  {
    a.busy = true;
    for (;;)
    {
      auto & o = begin(c, true);
      bool fine = true;
      int got = -1;
      try
      {
        if constexpr (std::is_void_v<T>)
          co_await ch[c]->read();
        else
        {
          auto v = co_await ch[c]->read();
          got = v.v;
        }
      }
      catch (...) {fine = false;}
      MC_CHECK(fine, "a read failed");
      done(o, fine, got);
      if (flushing || budget <= 0 || mc::failed() || mc::choose(2, "the reader (stops, reads again)") == 0)
        break;
      budget--;
    }
    a.busy = false;
  }
  actor & make_actor()
  {
    mc::quiet q;
    actors.push_back(std::make_unique<actor>(w));
    return *actors.back();
  }

  void check_idle()
  {
    for (int c = 0; c < nch; c++)
    {
      int wr = count(c, false, ok), rd = count(c, true, ok);
      int buffered = wr - rd;
      int rw = count(c, true, pending), ww = count(c, false, pending);
      MC_CHECK(buffered >= 0 && buffered <= limit(c), "channel %d holds %d values, its limit is %d", c, buffered, limit(c));
      MC_CHECK(!(rw && buffered > 0), "%d reader(s) wait on channel %d, that holds %d value(s)", rw, c, buffered);
      MC_CHECK(!(ww && buffered < limit(c)), "%d writer(s) wait on channel %d, that has free space", ww, c);
      bool pair = false;
      for (auto & x : ops) for (auto & y : ops)
        pair |= x->ch == c && y->ch == c && x->read && !y->read && x->st == pending && y->st == pending && (x->group < 0 || x->group != y->group) && x->alive && y->alive;
      MC_CHECK(!pair, "a reader and a writer both wait on channel %d", c);
    }
  }
  std::vector<int> limits_;
  int limit(int c) const {return limits_[c];}

  // the scenario's coroutine
  std::function<void(base &, actor &)> start_racer;
  bool uses_op = false;
  int max_events = 8, racer_limit = 1;

  bool again()
  {
    if (rounds >= max_rounds || mc::failed() || flushing)
      return false;
    if (mc::choose(2, "the racer (stops, races again)") == 0)
      return false;
    rounds++;
    return true;
  }

  void run()
  {
    bool idle = true;
    int cancels = 0, opc = 0;
    for (int ev = 0; ev < max_events && !mc::failed(); ev++)
    {
      enum {W, R, X, P, C, O, E};
      struct e {int kind, arg;} evs[16]; int m = 0;
      if (budget > 0)
        for (int c = 0; c < nch; c++)
        {
          evs[m++] = {W, c};
          evs[m++] = {R, c};
        }
      if ((int)racers.size() < racer_limit)
        evs[m++] = {X, 0};
      if (!idle)
        evs[m++] = {P, 0};
      for (std::size_t i = 0; i < racers.size(); i++)
        if (cancels < 1 && racers[i]->busy)
          evs[m++] = {C, (int)i};
      if (uses_op && op.is_pending() && opc < 2)
        evs[m++] = {O, 0};
      evs[m++] = {E, 0};
      auto x = evs[mc::choose(m, "event (write, read, race, poll, cancel, op, end)")];
      if (x.kind == E)
        break;
      mc::step();
      switch (x.kind)
      {
        case W: {budget--; auto & a = make_actor(); writer(a.st, a, x.arg); break;}
        case R: {budget--; auto & a = make_actor(); reader(a.st, a, x.arg); break;}
        case X: {auto & a = make_actor(); {mc::quiet q; racers.push_back(&a);} rounds++; start_racer(*this, a); break;}
        case P: w.poll_one(); break;
        case C: cancels++; mc::note("cancel the racer"); trail += "C"; racers[x.arg]->st.signal.emit(asio::cancellation_type::all); break;
        case O: opc++; mc::note("the op completes"); trail += "O"; op.complete(error_code{}, 42); break;
      }
      idle = w.ctx.stopped();
      {
        // is there anything to run?
        idle = false;
        std::uint64_t h = 0;
        for (auto & o : ops)
          h = mc::mix(h, o->st * 8 + o->read * 4 + o->ch);
        mc::state(h);
      }
      // poll on an idle context is pointless, find out about it without running anything
      idle = !has_work();
      if (idle)
        check_idle();
    }
    w.drain();
    if (mc::failed()) return;
    check_idle();
    // wind down: the racers first, then everything that's still in there
    flushing = true;
    max_events = 0;
    for (auto r : racers)
      if (r->busy)
      {
        r->st.signal.emit(asio::cancellation_type::all);
        w.drain();
        MC_CHECK(!r->busy, "a cancelled race does not complete");
      }
    if (mc::failed()) return;
    check_idle();
    for (int c = 0; c < nch && !mc::failed(); c++)
      for (int n = 0; n < 12 && !mc::failed(); n++)
      {
        if (count(c, false, ok) - count(c, true, ok) + count(c, false, pending) <= 0)
          break;
        auto & a = make_actor();
        reader(a.st, a, c);
        w.drain();
        MC_CHECK(!a.busy, "channel %d should hold values, but none can be read", c);
      }
    for (auto & o : ops)
      if (!o->read && !std::is_void_v<T>)
      {
        bool was = false;
        for (auto & x : ops)
          was |= x->read && x->st == ok && x->got == o->value;
        MC_CHECK(was == (o->st == ok), "%d was %s, but %s", o->value, o->st == ok ? "written" : "not written", was ? "read" : "never read");
      }
    // waiting ones are destroyed with the channel
    {mc::quiet q; ch.clear();}
    mc::outcome(trail);
  }
  // peeks into the queue of the context: a marker behind everything tells whether there was something
  bool has_work()
  {
    struct impl : asio::io_context {};
    return queue_size() > 0;
  }
  std::size_t queue_size();
};

// everything gets posted through the executor of the channels/coroutines, so count them there.
}

namespace
{
// io_context doesn't tell whether there's something queued, but outstanding work does: one handler is one work.
struct peek
{
  using type = std::atomic<long> asio::detail::scheduler::*;
};
template<typename Tag, typename Tag::type M>
struct rob {friend typename Tag::type get(Tag) {return M;}};
using atomic_count = asio::detail::atomic_count;
struct work_tag {using type = atomic_count asio::detail::scheduler::*; friend type get(work_tag);};
template struct rob<work_tag, &asio::detail::scheduler::outstanding_work_>;

template<typename T>
std::size_t base<T>::queue_size()
{
  auto & s = asio::use_service<asio::detail::scheduler>(w.ctx);
  long n = s.*get(work_tag{});
  return (std::size_t)(n - 1); // the work guard
}

template<typename T>
using B = base<T>;

// the outcome of a race of two operations
template<typename T>
void settle(base<T> & b, rec & x, rec & y, int index, int got)
{
  if (index == 0) {b.done(x, true, got); b.done(y, false);}
  else if (index == 1) {b.done(x, false); b.done(y, true, got);}
  else {b.done(x, false); b.done(y, false);}
}

template<typename T>
struct racers
{
  using base_t = base<T>;
  using actor = typename base_t::actor;

  template<bool Left, typename ... Args>
  static auto make(Args && ... args)
  {
    if constexpr (Left)
      return cobalt::left_race(std::forward<Args>(args)...);
    else
      return cobalt::race(urbg{}, std::forward<Args>(args)...);
  }
  template<bool Left>
  static proc read_read(proc_state &, base_t & b, actor & a, int c0, int c1)
  {
    a.busy = true;
    do
    {
      int g = b.groups++;
      auto & x = b.begin(c0, true, g); auto & y = b.begin(c1, true, g);
      int index = -1, got = -1;
      try
      {
        if constexpr (std::is_void_v<T>)
          index = (int)co_await make<Left>(b.ch[c0]->read(), b.ch[c1]->read());
        else
        {
          auto r = co_await make<Left>(b.ch[c0]->read(), b.ch[c1]->read());
          index = (int)r.index();
          visit([&](auto & v) {got = v.v;}, r);
        }
      }
      catch (...) {MC_CHECK(error_id(std::current_exception()) == e_aborted, "race: %s", what(std::current_exception()).c_str());}
      settle(b, x, y, index, got);
    }
    while (b.again());
    a.busy = false;
  }
  template<bool Left>
  static proc write_write(proc_state &, base_t & b, actor & a)
  {
    a.busy = true;
    do
    {
      int g = b.groups++;
      auto & x = b.begin(0, false, g); auto & y = b.begin(1, false, g);
      int index = -1;
      try
      {
        if constexpr (std::is_void_v<T>)
          index = (int)co_await make<Left>(b.ch[0]->write(), b.ch[1]->write());
        else
        {
          T v0{x.value}, v1{y.value};
          auto done = [&](int i)
          {
            if (i != 0) MC_CHECK(v0.v == x.value, "the source of a write that lost is gone");
            if (i != 1) MC_CHECK(v1.v == y.value, "the source of a write that lost is gone");
          };
          try {index = (int)co_await make<Left>(b.ch[0]->write(v0), b.ch[1]->write(std::move(v1)));}
          catch (...) {done(-1); throw;}
          done(index);
        }
      }
      catch (...) {MC_CHECK(error_id(std::current_exception()) == e_aborted, "race: %s", what(std::current_exception()).c_str());}
      settle(b, x, y, index, -1);
    }
    while (b.again());
    a.busy = false;
  }
  template<bool Left>
  static proc read_write(proc_state &, base_t & b, actor & a)
  {
    a.busy = true;
    do
    {
      int g = b.groups++;
      auto & x = b.begin(0, true, g); auto & y = b.begin(1, false, g);
      int index = -1, got = -1;
      try
      {
        if constexpr (std::is_void_v<T>)
          index = (int)co_await make<Left>(b.ch[0]->read(), b.ch[1]->write());
        else
        {
          auto r = co_await make<Left>(b.ch[0]->read(), b.ch[1]->write(T{y.value}));
          index = (int)r.index();
          if (index == 0)
            got = boost::variant2::get<0>(r).v;
        }
      }
      catch (...) {MC_CHECK(error_id(std::current_exception()) == e_aborted, "race: %s", what(std::current_exception()).c_str());}
      settle(b, x, y, index, got);
    }
    while (b.again());
    a.busy = false;
  }
  template<bool Left, bool OpFirst>
  static proc read_op(proc_state &, base_t & b, actor & a)
  {
    a.busy = true;
    do
    {
      auto & x = b.begin(0, true, b.groups++);
      int index = -1, got = -1;
      try
      {
        constexpr std::size_t R = OpFirst ? 1 : 0;
        auto take = [&](auto r)
        {
          index = (int)r.index();
          if (index == R)
          {
            if constexpr (!std::is_void_v<T>)
              got = boost::variant2::get<R>(r).v;
          }
        };
        if constexpr (OpFirst)
          take(co_await make<Left>(env_wait(b.op), b.ch[0]->read()));
        else
          take(co_await make<Left>(b.ch[0]->read(), env_wait(b.op)));
        b.done(x, index == (int)R, got);
      }
      catch (...)
      {
        MC_CHECK(error_id(std::current_exception()) == e_aborted, "race: %s", what(std::current_exception()).c_str());
        b.done(x, false);
      }
    }
    while (b.again());
    a.busy = false;
  }
  template<bool Left>
  static proc range(proc_state &, base_t & b, actor & a)
  {
    a.busy = true;
    do
    {
      int g = b.groups++;
      auto & x = b.begin(0, true, g); auto & y = b.begin(1, true, g);
      int index = -1, got = -1;
      std::vector<cobalt::channel_reader<T>> v{{*b.ch[0]}, {*b.ch[1]}};
      try
      {
        if constexpr (std::is_void_v<T>)
          index = (int)co_await make<Left>(v);
        else
        {
          auto r = co_await make<Left>(v);
          index = (int)r.first;
          got = r.second.v;
        }
      }
      catch (...) {MC_CHECK(error_id(std::current_exception()) == e_aborted, "race: %s", what(std::current_exception()).c_str());}
      settle(b, x, y, index, got);
    }
    while (b.again());
    a.busy = false;
  }
};

template<typename T, typename F>
void scenario(const std::string & name, std::vector<int> limits, bool op, F f, int racers_n = 1)
{
  std::string n = name + "/limits=";
  for (auto l : limits) n += std::to_string(l);
  mc::add(n, [=]
  {
    std::optional<base<T>> b;
    auto live = pstats.live;
    {
      mc::quiet q;
      b.emplace(limits, mc::thorough() ? 4 : 3, mc::thorough() ? 3 : 2);
      b->limits_ = limits;
      b->start_racer = f;
      b->uses_op = op;
      b->max_events = mc::thorough() ? 9 : 7;
      b->racer_limit = racers_n;
    }
    b->run();
    {mc::quiet q; b.reset();}
    MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
  });
}

template<typename T>
void add(const std::string & nm, std::vector<std::vector<int>> l2, std::vector<std::vector<int>> l1)
{
  using r = racers<T>;
  using actor = typename base<T>::actor;
  for (auto l : l2)
  {
    scenario<T>(nm + "/left_race(read,read)", l, false, [](base<T> & b, actor & a) {r::template read_read<true>(a.st, b, a, 0, 1);});
    scenario<T>(nm + "/race(read,read)", l, false, [](base<T> & b, actor & a) {r::template read_read<false>(a.st, b, a, 0, 1);});
    scenario<T>(nm + "/left_race(write,write)", l, false, [](base<T> & b, actor & a) {r::template write_write<true>(a.st, b, a);});
    scenario<T>(nm + "/left_race(read,write)", l, false, [](base<T> & b, actor & a) {r::template read_write<true>(a.st, b, a);});
    if constexpr (!std::is_same_v<T, mtoken>)
      scenario<T>(nm + "/left_race(range of readers)", l, false, [](base<T> & b, actor & a) {r::template range<true>(a.st, b, a);});
  }
  for (auto l : l1)
  {
    scenario<T>(nm + "/left_race(read,read of the same)", l, false, [](base<T> & b, actor & a) {r::template read_read<true>(a.st, b, a, 0, 0);}, 2);
    scenario<T>(nm + "/left_race(read,op)", l, true, [](base<T> & b, actor & a) {r::template read_op<true, false>(a.st, b, a);});
    scenario<T>(nm + "/left_race(op,read)", l, true, [](base<T> & b, actor & a) {r::template read_op<true, true>(a.st, b, a);});
  }
}
}

MC_MAIN()
{
  add<token>("copyable", {{0, 0}, {1, 0}, {1, 1}}, {{0}, {1}});
  add<mtoken>("move-only", {{0, 0}, {0, 1}}, {{0}, {1}});
  add<void>("void", {{0, 0}, {1, 0}}, {{0}, {1}});
}
