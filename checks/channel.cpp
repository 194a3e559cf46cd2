// Exhaustive exploration of boost::cobalt::channel operation histories against an atomic reference model.
#include "cob.hpp"
#include <algorithm>
#include <boost/cobalt/channel.hpp>

using namespace cob;

namespace
{
enum class res {waiting, ok, closed, aborted};
const char * res_name(res r)
{
  switch (r) {case res::waiting: return "waiting"; case res::ok: return "ok"; case res::closed: return "closed"; default: return "aborted";}
}

template<typename T> struct traits;
template<> struct traits<token>  {static constexpr const char * name = "copyable";};
template<> struct traits<mtoken> {static constexpr const char * name = "move-only";};
template<> struct traits<void>   {static constexpr const char * name = "void";};

struct op_rec
{
  int id = 0;
  bool is_read = false;
  int value = -1;            // written value
  res got = res::waiting;
  int got_value = -1;
  int t_issue = 0, t_done = 0; // event clock
  bool awaiting = false;     // the coroutine is suspended in this operation
  bool cancel_requested = false;
  bool issued_closed = false;  // the channel was closed before it was issued
  bool must_not_wait = false;  // issued in a quiescent channel that can serve it
};

// The oracle: a history of operations is correct, iff it is linearizable with respect to a bounded FIFO queue
// (pairwise characterization for distinct values), the buffer limit is kept, and nobody who could be served is left
// waiting whenever the event loop is idle.
template<typename T>
struct history
{
  world w;
  std::size_t limit;
  int op_budget;
  int next_value = 1;
  int clock = 0;
  bool idle = true;            // the event loop is known to have nothing to run
  std::vector<std::unique_ptr<op_rec>> ops;
  struct actor {proc_state st; int cur = -1; actor(world & w) : st(w) {}};
  std::vector<std::unique_ptr<actor>> actors;
  std::optional<cobalt::channel<T>> ch;
  bool closed = false;
  std::string trail;

  history(std::size_t limit, int ops) : limit(limit), op_budget(ops) { ch.emplace(limit, w.ctx.get_executor()); }

  int count(bool read, res r) const
  {
    int n = 0;
    for (auto & o : ops)
      n += o->is_read == read && o->got == r && (r != res::waiting || o->awaiting);
    return n;
  }
  int buffered() const {return count(false, res::ok) - count(true, res::ok);}

  op_rec * begin(bool is_read)
  {
    mc::quiet q;
    // the documentation promises not to suspend if the buffer can serve the operation
    bool possible = false;
    if (idle)
      possible = closed || (is_read ? buffered() > 0 : buffered() < (int)limit);
    ops.push_back(std::make_unique<op_rec>());
    auto & o = *ops.back();
    o.id = (int)ops.size() - 1;
    o.is_read = is_read;
    o.issued_closed = closed;
    o.must_not_wait = possible;
    op_budget--;
    if (!is_read)
      o.value = next_value++;
    mc::note("%s #%d issued%s", is_read ? "read" : "write", o.id, is_read ? "" : (" value " + std::to_string(o.value)).c_str());
    o.awaiting = true;
    o.t_issue = ++clock;
    idle = false;
    return &o;
  }

  void finish(op_rec & o, res r, int value)
  {
    mc::quiet q;
    o.awaiting = false;
    o.got = r;
    o.got_value = value;
    o.t_done = ++clock;
    const char * nm = o.is_read ? "read" : "write";
    mc::note("%s #%d finished: %s value %d", nm, o.id, res_name(r), value);
    if (r == res::aborted)
      MC_CHECK(o.cancel_requested, "%s #%d was aborted without a cancellation", nm, o.id);
    if (r == res::closed)
      MC_CHECK(closed, "%s #%d reports a closed channel, but it is open", nm, o.id);
    if (r == res::ok && !o.is_read)
      MC_CHECK(!o.issued_closed, "write #%d to a closed channel succeeded", o.id);
    if (r == res::ok && o.is_read && !std::is_void_v<T>)
    {
      op_rec * src = nullptr;
      for (auto & x : ops)
        if (!x->is_read && x->value == value)
          src = x.get();
      MC_CHECK(src, "read #%d returned value %d which nobody wrote", o.id, value);
      if (src)
        MC_CHECK(src->got == res::ok || src->got == res::waiting, "read #%d returned value %d, whose write failed (%s)", o.id, value, res_name(src->got));
      for (auto & x : ops)
        if (x.get() != &o && x->is_read && x->got == res::ok)
          MC_CHECK(x->got_value != value, "value %d was read twice (#%d, #%d)", value, x->id, o.id);
    }
    if (!o.is_read && r != res::ok && !std::is_void_v<T>)
      for (auto & x : ops)
        if (x->is_read && x->got == res::ok)
          MC_CHECK(x->got_value != o.value, "write #%d reports '%s', but its value was read by #%d", o.id, res_name(r), x->id);
    trail += o.is_read ? 'r' : 'w';
    trail += r == res::ok ? (o.is_read ? std::to_string(value) : std::string("+")) : r == res::closed ? "x" : "c";
  }

  void check_order()
  {
    if (std::is_void_v<T>)
      return;
    auto reader_of = [&](int v) -> op_rec*
    {
      for (auto & x : ops)
        if (x->is_read && x->got == res::ok && x->got_value == v)
          return x.get();
      return nullptr;
    };
    for (auto & a : ops)
      for (auto & b : ops)
        if (!a->is_read && !b->is_read && a->got == res::ok && a->t_done < b->t_issue)
        {
          auto rb = reader_of(b->value), ra = reader_of(a->value);
          if (!rb)
            continue;
          if (!ra)
          {
            // a may still be on its way to a reader that was not resumed yet
            bool in_flight = false;
            for (auto & x : ops)
              in_flight |= x->is_read && x->awaiting && x->t_issue < rb->t_done;
            MC_CHECK(in_flight && !idle, "FIFO: value %d was read, while %d, written before it, was not", b->value, a->value);
          }
          else
            MC_CHECK(!(rb->t_done < ra->t_issue), "FIFO: value %d was read before %d, which was written earlier", b->value, a->value);
        }
  }

  static res to_res(const error_code & ec)
  {
    if (!ec) return res::ok;
    if (ec == asio::error::broken_pipe) return res::closed;
    if (ec == asio::error::operation_aborted) return res::aborted;
    mc::fail("unexpected error code %s", ec.message().c_str());
    return res::ok;
  }

  // what an actor does next, decided by the explorer: 0 stop, 1 read, 2 write
  int next_action()
  {
    if (op_budget <= 0 || mc::failed())
      return 0;
    return mc::choose(3, "actor continues with (stop, read, write)");
  }

  proc act(proc_state &, actor & self, int action)
  {
    while (action != 0 && !mc::failed())
    {
      auto & o = *begin(action == 1);
      self.cur = o.id;

      res r = res::ok;
      int value = -1;
      int api = o.id % 3;
      if (action == 1)
      {
        if constexpr (std::is_void_v<T>)
        {
          if (api == 0)
          {
            try {co_await ch->read();}
            catch (boost::system::system_error & e) {r = to_res(e.code());}
          }
          else if (api == 1)
          {
            auto x = co_await cobalt::as_result(ch->read());
            r = to_res(x.has_error() ? x.error() : error_code{});
          }
          else
          {
            auto [ec] = co_await cobalt::as_tuple(ch->read());
            r = to_res(ec);
          }
        }
        else
        {
          if (api == 0)
          {
            try {T t = co_await ch->read(); value = t.v;}
            catch (boost::system::system_error & e) {r = to_res(e.code());}
          }
          else if (api == 1)
          {
            auto x = co_await cobalt::as_result(ch->read());
            if (x.has_error()) r = to_res(x.error());
            else value = x->v;
          }
          else
          {
            auto [ec, t] = co_await cobalt::as_tuple(ch->read());
            r = to_res(ec);
            value = t.v;
          }
        }
      }
      else
      {
        if constexpr (std::is_void_v<T>)
        {
          if (api == 0)
          {
            try {co_await ch->write();}
            catch (boost::system::system_error & e) {r = to_res(e.code());}
          }
          else if (api == 1)
          {
            auto x = co_await cobalt::as_result(ch->write());
            r = to_res(x.has_error() ? x.error() : error_code{});
          }
          else
          {
            auto [ec] = co_await cobalt::as_tuple(ch->write());
            r = to_res(ec);
          }
        }
        else
        {
          T t{o.value};
          if (api == 0)
          {
            try {co_await ch->write(std::move(t));}
            catch (boost::system::system_error & e) {r = to_res(e.code());}
          }
          else if (api == 1)
          {
            auto x = co_await cobalt::as_result(ch->write(t));
            r = to_res(x.has_error() ? x.error() : error_code{});
          }
          else
          {
            if constexpr (std::is_copy_constructible_v<T>)
            {
              const T & ct = t;
              auto [ec] = co_await cobalt::as_tuple(ch->write(ct));
              r = to_res(ec);
              MC_CHECK(t.v == o.value, "writing a const value modified it");
            }
            else
            {
              auto [ec] = co_await cobalt::as_tuple(ch->write(t));
              r = to_res(ec);
            }
          }
          if (r != res::ok)
            MC_CHECK(t.v == o.value, "write #%d failed, yet its value was taken", o.id);
        }
      }
      finish(o, r, value);
      self.cur = -1;
      action = next_action();
    }
  }

  void observe()
  {
    mc::quiet q;
    std::uint64_t h = mc::mix(limit, closed + 2 * idle);
    for (auto & o : ops)
      h = mc::mix(h, o->is_read * 64 + (int)o->got * 2 + o->awaiting + o->cancel_requested * 128 + (o->got_value + 1) * 256);
    mc::state(h);
    check_order();
    int b = buffered();
    int possible_reads = count(true, res::waiting);
    MC_CHECK(b <= (int)limit + possible_reads, "%d values were accepted by a channel with limit %d", b, (int)limit);
    MC_CHECK(b + count(false, res::waiting) >= 0, "more values were read than written");
    if (idle)
      at_rest();
  }

  // nothing left to run: everything that can be served must have been served.
  void at_rest()
  {
    int b = buffered(), rd = count(true, res::waiting), wr = count(false, res::waiting);
    MC_CHECK(b >= 0, "more values were read than written");
    MC_CHECK(b <= (int)limit, "channel with limit %d holds %d values", (int)limit, b);
    MC_CHECK(!(rd > 0 && b > 0), "lost wakeup: %d reader(s) wait although %d value(s) are buffered", rd, b);
    MC_CHECK(!(wr > 0 && b < (int)limit), "lost wakeup: %d writer(s) wait although the buffer holds only %d of %d values", wr, b, (int)limit);
    MC_CHECK(!(rd > 0 && wr > 0), "lost wakeup: %d reader(s) and %d writer(s) wait for each other", rd, wr);
    if (closed)
      MC_CHECK(rd + wr == 0, "%d reader(s) and %d writer(s) still wait in a closed channel", rd, wr);
    for (auto & o : ops)
      if (o->awaiting)
        MC_CHECK(!o->cancel_requested, "%s #%d was cancelled, but never completed", o->is_read ? "read" : "write", o->id);
  }

  void quiescent()
  {
    w.drain();
    idle = true;
    observe();
  }

  void check_immediate(int id)
  {
    auto & o = *ops[id];
    if (o.must_not_wait)
      MC_CHECK(!o.awaiting, "%s #%d suspended, although the channel could serve it right away", o.is_read ? "read" : "write", o.id);
  }

  void start(int action)
  {
    actor * a;
    {
      mc::quiet q;
      actors.push_back(std::make_unique<actor>(w));
      a = actors.back().get();
    }
    mc::step();
    int id = (int)ops.size();
    act(a->st, *a, action);
    if (a->st.error)
      mc::fail("exception escaped an actor: %s", what(a->st.error).c_str());
    check_immediate(id);
  }

  void cancel(int i)
  {
    mc::step();
    auto & o = *ops[actors[i]->cur];
    mc::note("cancel %s #%d", o.is_read ? "read" : "write", o.id);
    o.cancel_requested = true;
    idle = false;
    actors[i]->st.signal.emit(asio::cancellation_type::all);
  }

  void close()
  {
    mc::step();
    mc::note("close");
    closed = true;
    idle = false;
    ch->close();
    MC_CHECK(!ch->is_open(), "is_open() after close()");
  }

  void run(int steps, int cancels, int closes)
  {
    MC_CHECK(ch->is_open(), "a new channel is not open");
    for (int s = 0; s < steps && !mc::failed(); s++)
    {
      // 0: stop, 1: read, 2: write, 3: run one handler, 4: close, 5+i: cancel actor i
      int opts[64], n = 0;
      opts[n++] = 0;
      if (op_budget > 0) { opts[n++] = 1; opts[n++] = 2; }
      if (!idle) opts[n++] = 3;
      if (closes > 0) opts[n++] = 4;
      if (cancels > 0)
        for (int i = 0; i < (int)actors.size(); i++)
          if (actors[i]->cur >= 0 && ops[actors[i]->cur]->awaiting)
            opts[n++] = 5 + i;
      int c = opts[mc::choose(n, "event (stop, start read, start write, run handler, close, cancel i)")];
      if (c == 0) break;
      else if (c == 1 || c == 2) start(c);
      else if (c == 3) { if (!w.poll_one()) {idle = true; mc::note("idle");} }
      else if (c == 4) { close(); closes--; }
      else { cancel(c - 5); cancels--; }
      observe();
    }
    quiescent();
    // epilogue: whatever the channel still holds has to come out in order, without waiting
    int left = std::max(0, buffered());
    op_budget = 0;
    for (int i = 0; i < left + 1 && !mc::failed(); i++)
    {
      if (i == left && !closed && count(false, res::waiting) == 0)
        break;
      start(1);
      quiescent();
      res want = i < left || !closed ? res::ok : res::closed;
      MC_CHECK(ops.back()->got == want, "draining the channel: read #%d gave '%s', although %d values are left", ops.back()->id, res_name(ops.back()->got), left - i);
    }
    quiescent();
    int suspended = 0;
    for (auto & a : actors)
      suspended += a->cur >= 0 && ops[a->cur]->awaiting;
    if (!mc::failed())
    {
      // destroying the channel destroys the coroutines still waiting in it
      ch.reset();
      w.drain();
      for (auto & a : actors)
        MC_CHECK(a->st.destroyed, "a coroutine waiting in a destroyed channel was not destroyed");
    }
    trail += "/s" + std::to_string(suspended);
    mc::outcome(trail);
  }
};

template<typename T>
void add(int limit, int ops, int steps, int cancels, int closes)
{
  auto name = std::string("channel<") + traits<T>::name + ">/limit=" + std::to_string(limit) + "/ops=" + std::to_string(ops)
      + "/steps=" + std::to_string(steps) + "/cancels=" + std::to_string(cancels) + "/close=" + std::to_string(closes);
  mc::add(name,
          [=]
          {
            auto live = pstats.live;
            std::optional<history<T>> h;
            {
              mc::quiet q;
              h.emplace(limit, ops);
            }
            h->run(steps, cancels, closes);
            {
              mc::quiet q;
              h.reset();
            }
            MC_CHECK(pstats.live == live, "%ld value(s) leaked", pstats.live - live);
          });
}

template<typename T>
void add_all()
{
  bool t = mc::thorough();
  for (int limit = 0; limit <= (t ? 3 : 2); limit++)
  {
    if (mc::property() == "C01")        // delivery
      add<T>(limit, t ? 7 : 6, t ? 9 : 8, 0, 0);
    else if (mc::property() == "C02")   // cancellation
      add<T>(limit, t ? 6 : 5, t ? 9 : 8, t ? 3 : 2, 0);
    else if (mc::property() == "C03")   // close
    {
      add<T>(limit, t ? 6 : 5, t ? 9 : 7, 0, 1);
      add<T>(limit, t ? 5 : 4, t ? 9 : 7, 1, 2);
    }
  }
}
}

MC_MAIN()
{
  add_all<token>();
  add_all<mtoken>();
  add_all<void>();
}
