// pipes and connected pairs of sockets against queues of bytes or messages
#include "cob.hpp"
#include <boost/cobalt/io/pipe.hpp>
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/io/datagram_socket.hpp>
#include <boost/cobalt/io/seq_packet_socket.hpp>

#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <set>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace cob;
namespace io = cobalt::io;

// ------------------------------------------------------------------ the system calls that create and close descriptors
namespace
{
bool active = false, faults = false;
std::set<int> fds;
int fault = 0;

bool inject(const char * what, int e)
{
  if (!faults || !mc::dev(2, what))
    return false;
  errno = fault = e;
  return true;
}
int got(int * p, int r)
{
  if (active && r == 0)
  {
    mc::quiet q;
    fds.insert(p[0]);
    fds.insert(p[1]);
  }
  return r;
}
}
extern "C"
{
int pipe(int * p) noexcept
{
  if (active && inject("pipe (works, fails)", EMFILE))
    return -1;
  return got(p, ::syscall(SYS_pipe2, p, 0));
}
int pipe2(int * p, int f) noexcept
{
  if (active && inject("pipe (works, fails)", EMFILE))
    return -1;
  return got(p, ::syscall(SYS_pipe2, p, f));
}
int socketpair(int d, int t, int pr, int * p) noexcept
{
  if (active && inject("socketpair (works, fails)", EMFILE))
    return -1;
  return got(p, ::syscall(SYS_socketpair, d, t, pr, p));
}
int close(int fd)
{
  if (active)
  {
    mc::quiet q;
    fds.erase(fd);
  }
  return ::syscall(SYS_close, fd);
}
int epoll_ctl(int e, int op, int fd, epoll_event * ev) noexcept
{
  if (active && op == EPOLL_CTL_ADD && fds.count(fd) && inject("epoll_ctl (works, fails)", ENOSPC))
    return -1;
  return ::syscall(SYS_epoll_ctl, e, op, fd, ev);
}
}

namespace
{
using ct_t = asio::cancellation_type;
using bytes = std::vector<unsigned char>;
enum kind_t {pipes, stream_sockets, datagrams, seq_packets};

template<kind_t K> struct ends;
template<> struct ends<pipes>          {using t0 = io::readable_pipe; using t1 = io::writable_pipe;};
template<> struct ends<stream_sockets> {using t0 = io::stream_socket; using t1 = io::stream_socket;};
template<> struct ends<datagrams>      {using t0 = io::datagram_socket; using t1 = io::datagram_socket;};
template<> struct ends<seq_packets>    {using t0 = io::seq_packet_socket; using t1 = io::seq_packet_socket;};

template<kind_t K>
auto create()
{
  if constexpr (K == pipes) return io::pipe();
  else if constexpr (K == stream_sockets) return io::make_pair(io::local_stream);
  else if constexpr (K == datagrams) return io::make_pair(io::local_datagram);
  else return io::make_pair(io::local_seqpacket);
}

template<typename F, typename Op = std::invoke_result_t<F>>
struct watched
{
  int & depth;
  Op op;
  decltype(std::declval<Op&>().operator co_await()) a{op.operator co_await()};
  watched(int & d, F f) : depth(d), op(f()) {}
  watched(const watched &) = delete;
  bool await_ready() {return a.await_ready();}
  template<typename P>
  auto await_suspend(std::coroutine_handle<P> h)
  {
    auto & d = depth;
    d++;
    auto r = a.await_suspend(h);
    d--;
    return r;
  }
  auto await_resume()
  {
    MC_CHECK(depth == 0, "completed from within the initiation");
    return a.await_resume(cobalt::as_tuple_tag{});
  }
};

constexpr std::size_t big = 3000;      // two of them don't fit into a small pipe

// one operation of the user
struct request
{
  proc_state ps;
  enum {read, write, wait} what;
  int end;                       // on which end
  bytes mem;
  std::vector<asio::mutable_buffer> mb;
  std::vector<asio::const_buffer> cb;
  bool peek = false;
  int flags_kind = 0;
  io::socket::message_flags out_flags = 0;
  int depth = 0, resumed = 0;
  bool done = false, handled = false, may_abort = false, must_abort = false, could = false;
  bool eof_possible = false, broken_possible = false, at_init = false;
  std::size_t floor = 0;         // at least so many bytes must be read
  error_code ec;
  std::size_t n = 0;
  request(world & w) : ps(w) {}
};

template<kind_t K>
struct fixture
{
  static constexpr bool message = K == datagrams || K == seq_packets;
  std::deque<request> rs;
  int frames = 0;
  world w;
  std::optional<typename ends<K>::t0> e0;
  std::optional<typename ends<K>::t1> e1;
  // model: what is on the way to end i
  std::deque<bytes> queue[2];
  bool open[2] = {true, true};       // the descriptor exists
  bool shut_r[2] = {}, shut_w[2] = {};
  bool eof_seen[2] = {};             // asio (edge triggered) may not report it again
  bool reset[2] = {};                // the other end was closed with unread data
  unsigned char fresh = 1;
  std::string trail;
  int raw[2] = {-1, -1};

  struct guard
  {
    bool prev = active;
    guard() {active = true; fault = 0;}
    ~guard() {active = prev;}
  };

  std::size_t avail(int i) const
  {
    if (queue[i].empty()) return 0;
    if (message) return queue[i].front().size();
    std::size_t n = 0;
    for (auto & b : queue[i]) n += b.size();
    return n;
  }
  bool eof(int i) const          // would reading end i yield the end?
  {
    return queue[i].empty() && (!open[1 - i] || shut_w[1 - i] || shut_r[i]);
  }
  template<typename F>
  void with(int i, F f) {if (i == 0) f(*e0); else f(*e1);}

  template<typename E>
  proc start_read(proc_state &, life_guard, request & r, E & e, int api)
  {
    auto buf = [&]() -> io::mutable_buffer_sequence
    {
      if (r.mb.size() == 1) return r.mb[0];
      return std::span<const asio::mutable_buffer>(r.mb);
    };
    auto op = [&]
    {
      if constexpr (K == pipes || K == stream_sockets) return e.read_some(buf());
      else if constexpr (K == datagrams) return e.receive(buf());
      else
      {
        auto fl = r.peek ? io::socket::message_peek : 0;
        if (r.flags_kind) return e.receive(fl, r.out_flags, buf());
        return e.receive(fl, buf());
      }
    };
    std::tie(r.ec, r.n) = co_await watched(r.depth, op);
    r.resumed++;
    r.done = true;
  }
  template<typename E>
  proc start_write(proc_state &, life_guard, request & r, E & e)
  {
    auto buf = [&]() -> io::const_buffer_sequence
    {
      if (r.cb.size() == 1) return r.cb[0];
      return std::span<const asio::const_buffer>(r.cb);
    };
    auto op = [&]
    {
      if constexpr (K == pipes || K == stream_sockets) return e.write_some(buf());
      else if constexpr (K == datagrams) return e.send(buf());
      else return e.send(0, buf());
    };
    std::tie(r.ec, r.n) = co_await watched(r.depth, op);
    r.resumed++;
    r.done = true;
  }
  template<typename E>
  proc start_wait(proc_state &, life_guard, request & r, E & e)
  {
    auto op = [&] {return e.wait(io::socket::wait_type::wait_read);};
    std::tie(r.ec) = co_await watched(r.depth, op);
    r.resumed++;
    r.done = true;
  }

  bool has_pending(int end, int what) const
  {
    for (auto & r : rs)
      if (!r.handled && r.end == end && r.what == what)
        return true;
    return false;
  }
  // the state changed: which pending operations can complete now?
  void update()
  {
    for (auto & r : rs)
    {
      if (r.handled || r.must_abort)
        continue;
      if (r.what == request::read || r.what == request::wait)
      {
        if (!r.could && avail(r.end))
        {
          r.could = true;
          r.floor = std::min(r.mem.size(), avail(r.end));
        }
        if (eof(r.end))
        {
          r.eof_possible = true;
          if (!eof_seen[r.end])
            r.could = true;
        }
      }
      else
      {
        int o = 1 - r.end;
        if (!open[o] || shut_w[r.end] || shut_r[o])
          r.broken_possible = r.could = true;
        else if (r.mem.size() < big || avail(o) == 0)
          r.could = true;
      }
    }
  }
  // a pending operation is cancelled
  void abort(request & r)
  {
    if (r.handled)
      return;
    r.may_abort = true;
    // a read may have made room already
    bool room = r.what == request::write && has_pending(1 - r.end, request::read);
    if (!r.could && !r.eof_possible && !room)
      r.must_abort = true;
  }
  void abort_end(int i)
  {
    for (auto & r : rs)
      if (r.end == i)
        abort(r);
  }
  // look at what completed
  void look()
  {
    for (int pass = 0; pass < 2; pass++)     // writes first, as the data must come from somewhere
      for (auto & r : rs)
      {
        if (r.handled || !r.done || (pass == 0) != (r.what == request::write))
          continue;
        r.handled = true;
        MC_CHECK(r.resumed == 1, "resumed twice");
        const char * name = r.what == request::read ? "read" : r.what == request::write ? "write" : "wait";
        if (r.ec == asio::error::operation_aborted)
        {
          MC_CHECK(r.may_abort, "%s: aborted without being cancelled", name);
          MC_CHECK(r.n == 0, "%s: aborted with %zu bytes", name, r.n);
          continue;
        }
        MC_CHECK(!r.must_abort, "%s: completes although it was cancelled", name);
        if (r.what == request::wait)
        {
          MC_CHECK(!r.ec, "wait: fails with '%s'", r.ec.message().c_str());
          MC_CHECK(r.could || r.eof_possible, "wait: completes although there is nothing to read");
        }
        else if (r.what == request::write)
        {
          if (r.ec)
          {
            MC_CHECK(r.broken_possible, "write: fails with '%s'", r.ec.message().c_str());
            MC_CHECK(r.ec == asio::error::broken_pipe || r.ec == asio::error::connection_reset || r.ec == asio::error::not_connected || r.ec == asio::error::connection_refused,
                     "write: fails with '%s'", r.ec.message().c_str());
            continue;
          }
          MC_CHECK(r.n == r.mem.size(), "write: %zu bytes instead of %zu", r.n, r.mem.size());
          if (open[1 - r.end] && r.n && !r.at_init)
          {
            mc::quiet q;
            queue[1 - r.end].push_back(r.mem);
          }
        }
        else
        {
          if (r.mem.empty())
          {
            if (!message)
            {
              MC_CHECK(!r.ec && r.n == 0, "a read of nothing yields '%s' and %zu bytes", r.ec.message().c_str(), r.n);
              continue;
            }
          }
          if (r.ec || (K == seq_packets && r.n == 0 && r.eof_possible))     // asio reports no error here
          {
            MC_CHECK(!r.ec || r.ec == asio::error::eof || r.ec == asio::error::connection_reset, "read: fails with '%s'", r.ec.message().c_str());
            eof_seen[r.end] = true;
            MC_CHECK(r.eof_possible || (reset[r.end] && r.ec == asio::error::connection_reset), "read: '%s' although the other end is open, or there is more to read", r.ec.message().c_str());
            MC_CHECK(r.n == 0, "read: %zu bytes although it fails", r.n);
            continue;
          }
          int i = r.end;
          MC_CHECK(r.n >= r.floor && r.n <= r.mem.size(), "read: %zu bytes instead of %zu..%zu", r.n, r.floor, r.mem.size());
          MC_CHECK(avail(i) >= r.n && (r.n > 0 || r.mem.empty()), "read: %zu bytes, although only %zu were written", r.n, avail(i));
          if (mc::failed())
            return;
          mc::quiet q;
          if (message)
          {
            auto & m = queue[i].front();
            MC_CHECK(r.n == std::min(m.size(), r.mem.size()), "read: %zu bytes of a message of %zu", r.n, m.size());
            for (std::size_t k = 0; k < r.n; k++)
              MC_CHECK(r.mem[k] == m[k], "read: byte %zu is wrong", k);
            if (K == seq_packets && r.flags_kind)
              MC_CHECK(((r.out_flags & MSG_TRUNC) != 0) == (m.size() > r.mem.size()), "read: out_flags are %x", r.out_flags);
            if (!r.peek)
              queue[i].pop_front();
          }
          else
          {
            for (std::size_t k = 0; k < r.n; k++)
            {
              auto & m = queue[i].front();
              MC_CHECK(r.mem[k] == m.front(), "read: byte %zu is %d instead of %d", k, r.mem[k], m.front());
              m.erase(m.begin());
              if (m.empty())
                queue[i].pop_front();
            }
          }
        }
      }
    update();
  }
  void settle()
  {
    guard g;
    w.drain();
    look();
    for (int k = 0; k < 3 && !mc::failed(); k++)
    {
      // what completed may have made others possible
      w.drain();
      look();
    }
    for (auto & r : rs)
      if (!r.handled)
      {
        const char * name = r.what == request::read ? "read" : r.what == request::write ? "write" : "wait";
        MC_CHECK(!r.may_abort, "%s: cancelled, but it does not complete", name);
        MC_CHECK(!r.could, "%s: does not complete, although it could", name);
      }
  }
};

template<kind_t K>
void run(int depth, int max_requests, bool blocking)
{
  using fx = fixture<K>;
  std::optional<fx> st;
  {
    mc::quiet q;
    st.emplace();
    fds.clear();
  }
  auto & f = *st;
  faults = false;
  {
    typename fx::guard g;
    auto r = create<K>();
    MC_CHECK(r.has_value(), "cannot be created");
    if (!r) return;
    f.e0.emplace(std::move(r->first));
    f.e1.emplace(std::move(r->second));
  }
  if (blocking)
    ::fcntl(f.e1->native_handle(), F_SETPIPE_SZ, 4096);
  constexpr bool duplex = K != pipes;
  auto usable = [&](int i) {return i == 0 ? f.e0.has_value() : f.e1.has_value();};
  for (int step = 0; step < depth && !mc::failed(); step++)
  {
    mc::step();
    struct event {char what; int a;};
    std::vector<event> menu;
    {
      mc::quiet q;
      if ((int)f.rs.size() < max_requests)
        for (int i = 0; i < 2; i++)
          if (usable(i))
          {
            // a read and a wait at a time: asio may forget the latter
            if ((duplex || i == 0) && !f.has_pending(i, request::read) && !f.has_pending(i, request::wait)) menu.push_back({'r', i});
            if ((duplex || i == 1) && !f.has_pending(i, request::write)) menu.push_back({'w', i});
            if (duplex && i == 0 && !f.has_pending(i, request::read) && !f.has_pending(i, request::wait)) menu.push_back({'W', i});
          }
      menu.push_back({'p', 0});
      for (int i = 0; i < 2; i++)
        if (usable(i))
        {
          menu.push_back({'c', i});
          if (!f.message)
          {
            menu.push_back({'x', i});
            menu.push_back({'d', i});
            menu.push_back({'l', i});
          }
          else if (K == seq_packets)
            menu.push_back({'x', i});
          menu.push_back({'m', i});
          if (K == stream_sockets && f.open[i]) {menu.push_back({'S', i}); menu.push_back({'T', i});}
          if (K == stream_sockets && f.open[i]) menu.push_back({'b', i});
        }
      for (int n = 0; n < (int)f.rs.size(); n++)
        if (!f.rs[n].done)
          menu.push_back({'k', n});
    }
    auto ev = menu[mc::choose((int)menu.size(), "event (read, Wait, write, poll, cancel, close, destroy, release, move, shutdown Send / boTh, bytes readable, kill)")];
    {mc::quiet q; f.trail += ev.what; f.trail += char('0' + ev.a); menu = {};}
    if (mc::logging()) mc::note("event %c%d", ev.what, ev.a);
    int i = ev.a;
    typename fx::guard g;
    switch (ev.what)
    {
      case 'r':
      case 'w':
      {
        static constexpr std::size_t sizes[] = {2, 1, 5, 0};
        std::size_t n = ev.what == 'r' ? sizes[mc::choose(blocking ? 1 : f.message ? 3 : 4, "size (2, 1, 5, 0)")]
                                       : sizes[mc::choose(blocking ? 1 : 2, "size (2, 1)")];
        if (blocking)
          n = ev.what == 'r' ? 6000 : big;
        bool split = n > 1 && !blocking && (mc::thorough() ? mc::choose(2, "(one buffer, two)") == 1 : n == (ev.what == 'r' ? 5 : 2));
        {
          mc::quiet q;
          f.rs.emplace_back(f.w);
        }
        auto & r = f.rs.back();
        r.what = ev.what == 'r' ? request::read : request::write;
        r.end = i;
        {
          mc::quiet q;
          for (std::size_t k = 0; k < n; k++)
            r.mem.push_back(ev.what == 'r' ? 0 : f.fresh++);
          std::size_t h = split ? 1 : n;
          r.mb.push_back(asio::buffer(r.mem.data(), h));
          r.cb.push_back(asio::buffer(r.mem.data(), h));
          if (split)
          {
            r.mb.push_back(asio::buffer(r.mem.data() + h, n - h));
            r.cb.push_back(asio::buffer(r.mem.data() + h, n - h));
          }
        }
        if (K == seq_packets && ev.what == 'r')
        {
          r.peek = mc::choose(2, "(receive, peek)");
          r.flags_kind = mc::choose(2, "(without out_flags, with)");
        }
        bool op = f.open[i];
        if (ev.what == 'r')
        {
          if (n == 0 && !f.message)
            r.could = true;
          if (i == 0) f.start_read(r.ps, life_guard(f.frames), r, *f.e0, 0);
          else if constexpr (duplex) f.start_read(r.ps, life_guard(f.frames), r, *f.e1, 0);
        }
        else
        {
          if (i == 1) f.start_write(r.ps, life_guard(f.frames), r, *f.e1);
          else if constexpr (duplex) f.start_write(r.ps, life_guard(f.frames), r, *f.e0);
        }
        MC_CHECK(!r.done || r.depth == 0, "completed from within the initiation");
        if (!op)
        {
          // on a closed object
          f.w.drain();
          MC_CHECK(r.done && (r.ec || n == 0) && r.n == 0, "an operation on a closed object does not fail");
          MC_CHECK(r.ec != asio::error::eof, "end of file from a closed object");
          r.handled = true;
          break;
        }
        f.update();
        // a write that does not block happens at once, others see it
        if (ev.what == 'w' && r.could && !r.broken_possible)
        {
          r.at_init = true;
          mc::quiet q;
          f.queue[1 - i].push_back(r.mem);
          f.update();
        }
        break;
      }
      case 'W':
        if constexpr (duplex)
        {
          {mc::quiet q; f.rs.emplace_back(f.w);}
          auto & r = f.rs.back();
          r.what = request::wait;
          r.end = i;
          f.start_wait(r.ps, life_guard(f.frames), r, *f.e0);
          if (!f.open[i])
          {
            f.w.drain();
            MC_CHECK(r.done && r.ec, "waiting for a closed object does not fail");
            r.handled = true;
            break;
          }
          f.update();
          if (f.avail(i))
            MC_CHECK(r.done, "suspends, although there is something to read");
        }
        break;
      case 'p':
        f.settle();
        break;
      case 'c':
        f.with(i, [&](auto & e)
        {
          auto r = e.cancel();
          MC_CHECK(r.has_value() || !f.open[i], "cancel fails");
        });
        f.abort_end(i);
        break;
      case 'x':
      case 'd':
      case 'l':
      {
        bool was = f.open[i];
        f.abort_end(i);
        if (ev.what == 'x')
          f.with(i, [&](auto & e)
          {
            MC_CHECK(e.close().has_value(), "close fails");
            MC_CHECK(!e.is_open(), "open after close");
          });
        else if (ev.what == 'd')
        {
          if (i == 0) f.e0.reset(); else f.e1.reset();
        }
        else
          f.with(i, [&](auto & e)
          {
            auto r = e.release();
            if (!was)
              return;
            MC_CHECK(r.has_value() && fds.count(*r), "release fails");
            MC_CHECK(!e.is_open(), "open after release");
            int fd = *r;
            if (mc::choose(2, "the released descriptor is (assigned again, closed)"))
            {
              ::close(fd);
              return;
            }
            if constexpr (K == pipes)
              MC_CHECK(e.assign(fd).has_value(), "assign fails");
            else
              MC_CHECK(e.assign(io::local_stream, fd).has_value(), "assign fails");
            MC_CHECK(e.is_open() && e.native_handle() == fd, "assign: not open");
            was = false;
          });
        if (was && f.avail(i))
          f.reset[1 - i] = true;
        if (was)
          f.open[i] = false;     // what was read already may still be delivered
        f.update();
        break;
      }
      case 'm':
        if (i == 0)
        {
          auto e = std::move(*f.e0);
          MC_CHECK(!f.e0->is_open(), "open after it was moved from");
          f.e0.reset();
          f.e0.emplace(std::move(e));
        }
        else
        {
          auto e = std::move(*f.e1);
          MC_CHECK(!f.e1->is_open(), "open after it was moved from");
          f.e1.reset();
          f.e1.emplace(std::move(e));
        }
        break;
      case 'S':
      case 'T':
        if constexpr (K == stream_sockets)
          f.with(i, [&](auto & e)
          {
            auto r = e.shutdown(ev.what == 'S' ? io::socket::shutdown_type::shutdown_send : io::socket::shutdown_type::shutdown_both);
            MC_CHECK(r.has_value(), "shutdown fails");
            f.shut_w[i] = true;
            if (ev.what == 'T')
              f.shut_r[i] = true;
            f.update();
          });
        break;
      case 'b':
        if constexpr (duplex)
          f.with(i, [&](auto & e)
          {
            auto r = e.bytes_readable();
            // what's consumed by a pending read is not known
            if (!f.has_pending(i, request::read))
              MC_CHECK(r.has_value() && *r == f.avail(i), "bytes_readable: %zu instead of %zu", r.has_value() ? *r : 0, f.avail(i));
          });
        break;
      case 'k':
      {
        auto & r = f.rs[i];
        r.ps.signal.emit((ct_t)(1 << mc::choose(mc::thorough() ? 3 : 1, "type (terminal, partial, total)")));
        f.abort(r);
        break;
      }
    }
    if (mc::failed())
      return;
    for (int k = 0; k < 2; k++)
      if (usable(k))
        f.with(k, [&](auto & e)
        {
          MC_CHECK(e.is_open() == f.open[k], "is_open is wrong");
        });
    std::size_t n = f.open[0] + f.open[1];
    MC_CHECK(fds.size() == n, "%zu descriptors are open instead of %zu", fds.size(), n);
    std::uint64_t h = f.avail(0) * 64 + f.avail(1) + f.open[0] * 1024 + f.open[1] * 2048;
    for (auto & r : f.rs)
      h = mc::mix(h, r.what * 64 + r.end * 32 + r.done * 16 + r.could * 8 + r.may_abort * 4 + r.handled);
    mc::state(h);
  }
  if (!mc::failed() && mc::choose(2, "finally (everything ends, everything is destroyed)") == 0)
  {
    f.settle();
    typename fx::guard g;
    f.abort_end(0);
    f.abort_end(1);
    f.e0.reset();
    f.e1.reset();
    f.w.drain();
    f.look();
    for (auto & r : f.rs)
      MC_CHECK(r.done && r.ps.destroyed, "an operation of a destroyed object does not end");
    MC_CHECK(f.frames == 0, "%d frames alive", f.frames);
  }
  if (mc::failed())
    return;
  mc::outcome(f.trail);
  typename fx::guard g;
  f.e0.reset();
  f.e1.reset();
  MC_CHECK(fds.empty(), "%zu descriptors are left open", fds.size());
  mc::quiet q;
  st.reset();
}

// what a socket can be waited for
template<kind_t K>
void waits(int depth)
{
  struct waiter
  {
    proc_state ps;
    int what = 0, depth = 0, resumed = 0;     // read, write, error
    bool suspended = false, done = false, handled = false, could = false, may_abort = false, must_abort = false;
    error_code ec;
    waiter(world & w) : ps(w) {}
  };
  struct fix
  {
    std::deque<waiter> ws;
    int frames = 0;
    world w;
    std::optional<typename ends<K>::t0> e0;
    std::optional<typename ends<K>::t1> e1;
    int messages = 0;
    bool full = false, gone = false, open = true;
    std::string trail;

    bool is(int what) const {return gone || (what == 0 && messages) || (what == 1 && !full);}
    proc wait(proc_state &, life_guard, waiter & me)
    {
      static constexpr io::socket::wait_type types[] = {io::socket::wait_type::wait_read, io::socket::wait_type::wait_write, io::socket::wait_type::wait_error};
      std::tie(me.ec) = co_await watched(me.depth, [&] {return e0->wait(types[me.what]);});
      me.resumed++;
      me.done = true;
    }
    void update()
    {
      for (auto & x : ws)
        if (!x.done && !x.must_abort && is(x.what))
          x.could = true;
    }
    void look()
    {
      static const char * names[] = {"read", "write", "error"};
      for (auto & x : ws)
      {
        if (!x.done || x.handled)
          continue;
        x.handled = true;
        MC_CHECK(x.resumed == 1, "resumed twice");
        if (x.ec == asio::error::operation_aborted)
        {
          MC_CHECK(x.may_abort, "wait_%s: aborted without being cancelled", names[x.what]);
          continue;
        }
        MC_CHECK(!x.ec, "wait_%s: '%s'", names[x.what], x.ec.message().c_str());
        MC_CHECK(!x.must_abort, "wait_%s: completes although it was cancelled", names[x.what]);
        MC_CHECK(x.could, "wait_%s: completes although it could not", names[x.what]);
      }
    }
    void settle()
    {
      w.drain();
      look();
      for (auto & x : ws)
        if (!x.done)
        {
          MC_CHECK(!x.may_abort, "wait: cancelled, but it does not complete");
          MC_CHECK(x.what == 2 || !is(x.what), "wait: does not complete, although it could");
        }
    }
    void abort(waiter & x)
    {
      if (x.done)
        return;
      x.may_abort = true;
      if (!x.could)
        x.must_abort = true;
    }
  };
  std::optional<fix> st;
  {mc::quiet q; st.emplace(); fds.clear();}
  auto & f = *st;
  faults = false;
  active = true;
  {
    auto r = create<K>();
    MC_CHECK(r.has_value(), "cannot be created");
    f.e0.emplace(std::move(r->first));
    f.e1.emplace(std::move(r->second));
  }
  const int a = f.e0->native_handle(), b = f.e1->native_handle();
  char buf[4096] = {};
  for (int step = 0; step < depth && !mc::failed(); step++)
  {
    mc::step();
    struct event {char what; int a;};
    std::vector<event> menu;
    {
      mc::quiet q;
      if (f.open && f.ws.size() < 3)
        for (int t = 0; t < 3; t++)
          menu.push_back({'W', t});
      menu.push_back({'p', 0});
      if (!f.gone)
      {
        if (f.open && f.messages < 2) menu.push_back({'s', 0});
        if (f.full) menu.push_back({'t', 0});
        if (f.open && K != datagrams) menu.push_back({'h', 0});
        if (f.open && !f.full) menu.push_back({'f', 0});
      }
      if (f.open)
      {
        if (f.messages) menu.push_back({'g', 0});
        menu.push_back({'c', 0});
        menu.push_back({'x', 0});
      }
      for (int n = 0; n < (int)f.ws.size(); n++)
        if (!f.ws[n].done)
          menu.push_back({'k', n});
    }
    auto ev = menu[mc::choose((int)menu.size(), "event (Wait, poll, peer sends / takes all / hangs up, fill, get all, cancel, close, kill)")];
    {mc::quiet q; f.trail += ev.what; f.trail += char('0' + ev.a); menu = {};}
    if (mc::logging()) mc::note("event %c%d", ev.what, ev.a);
    switch (ev.what)
    {
      case 'W':
      {
        {mc::quiet q; f.ws.emplace_back(f.w);}
        auto & x = f.ws.back();
        x.what = ev.a;
        f.wait(x.ps, life_guard(f.frames), x);
        if (x.done)
        {
          MC_CHECK(f.is(x.what), "wait: completes at once although it can not");
          x.could = true;
        }
        else if (x.what == 0)
          MC_CHECK(!f.messages, "wait_read: suspends although there is something to read");
        break;
      }
      case 'p': f.settle(); break;
      case 's': if (::send(b, buf, 3, MSG_DONTWAIT) != 3) std::abort(); f.messages++; break;
      case 't': while (::recv(b, buf, sizeof buf, MSG_DONTWAIT) > 0); f.full = false; break;
      case 'f': while (::send(a, buf, sizeof buf, MSG_DONTWAIT) > 0); f.full = true; break;
      case 'g': while (::recv(a, buf, sizeof buf, MSG_DONTWAIT) > 0); f.messages = 0; break;
      case 'h': f.e1.reset(); f.gone = true; break;
      case 'c': MC_CHECK(f.e0->cancel().has_value(), "cancel fails"); for (auto & x : f.ws) f.abort(x); break;
      case 'x': MC_CHECK(f.e0->close().has_value(), "close fails"); for (auto & x : f.ws) f.abort(x); f.open = false; break;
      case 'k':
      {
        auto & x = f.ws[ev.a];
        x.ps.signal.emit(ct_t::terminal);
        f.abort(x);
        break;
      }
    }
    if (f.open)
      f.update();
    std::uint64_t h = f.messages * 8 + f.full * 4 + f.gone * 2 + f.open;
    for (auto & x : f.ws)
      h = mc::mix(h, x.what * 16 + x.done * 8 + x.could * 4 + x.may_abort * 2 + x.handled);
    mc::state(h);
  }
  if (mc::failed())
    return;
  f.settle();
  for (auto & x : f.ws)
    f.abort(x);
  f.e0.reset();
  f.e1.reset();
  f.w.drain();
  f.look();
  for (auto & x : f.ws)
    MC_CHECK(x.done && x.ps.destroyed, "an operation of a destroyed object does not end");
  MC_CHECK(f.frames == 0, "%d frames alive", f.frames);
  MC_CHECK(fds.empty(), "%zu descriptors are left open", fds.size());
  mc::outcome(f.trail);
  mc::quiet q;
  active = false;
  st.reset();
}

// creation with faults
template<kind_t K>
void creation()
{
  std::optional<world> w;
  {
    mc::quiet q;
    w.emplace();
    fds.clear();
  }
  active = true;
  faults = true;
  fault = 0;
  mc::set_dev_budget(2);
  {
    int mode = K == pipes ? 0 : mc::choose(2, "(make_pair, connect_pair of sockets, one of which may be open)");
    try
    {
      if (mode == 0)
      {
        auto r = create<K>();
        MC_CHECK(r.has_error() == (fault != 0), "reports %s", fault ? "success instead of an error of the system" : "an error");
        if (fault && r.has_error())
          MC_CHECK(r.error() == error_code(fault, boost::system::system_category()), "the wrong error");
        MC_CHECK(fds.size() == (fault ? 0u : 2u), "%zu descriptors are open", fds.size());
        if (r)
          MC_CHECK(r->first.is_open() && r->second.is_open(), "not open");
      }
      else if constexpr (K != pipes)
      {
        typename ends<K>::t0 a;
        typename ends<K>::t1 b;
        constexpr auto prot = [] {if constexpr (K == stream_sockets) return io::local_stream; else if constexpr (K == datagrams) return io::local_datagram; else return io::local_seqpacket;}();
        int pre = mc::choose(3, "(both are closed, the first is open, the second is open)");
        faults = false;
        int fd = -1, other = -1;
        if (pre)
        {
          int p[2];
          ::socketpair(AF_UNIX, SOCK_STREAM, 0, p);
          fd = p[0];
          other = p[1];
          if (pre == 1) (void)a.assign(io::local_stream, fd); else (void)b.assign(io::local_stream, fd);
        }
        faults = true;
        fault = 0;
        auto r = io::connect_pair(prot, a, b);
        bool fail = fault || pre;
        MC_CHECK(r.has_error() == fail, "reports %s", fail ? "success instead of an error" : "an error");
        MC_CHECK(a.is_open() == (!fail || pre == 1) && b.is_open() == (!fail || pre == 2), "is_open is wrong");
        MC_CHECK(fds.size() == (fail ? 0u : 2u) + (pre ? 2u : 0u), "%zu descriptors are open", fds.size());
        if (pre)
          ::close(other);
      }
    }
    catch (std::exception & e)
    {
      mc::fail("throws '%s' instead of returning an error", e.what());
    }
  }
  MC_CHECK(fds.empty(), "%zu descriptors leak", fds.size());
  mc::outcome(fault ? "fault" : "ok");
  mc::quiet q;
  w.reset();
  active = faults = false;
}
}

MC_MAIN()
{
  ::signal(SIGPIPE, SIG_IGN);
  const bool th = mc::thorough();
  mc::add("pipe/create", [] {creation<pipes>();});
  mc::add("stream_socket/create", [] {creation<stream_sockets>();});
  mc::add("datagram_socket/create", [] {creation<datagrams>();});
  mc::add("seq_packet_socket/create", [] {creation<seq_packets>();});
  mc::add("stream_socket/waits", [=] {waits<stream_sockets>(th ? 6 : 5);});
  mc::add("datagram_socket/waits", [=] {waits<datagrams>(th ? 6 : 5);});
  mc::add("seq_packet_socket/waits", [=] {waits<seq_packets>(th ? 6 : 5);});
  mc::add("pipe", [=] {run<pipes>(5, 3, false);});
  mc::add("pipe/blocking", [=] {run<pipes>(th ? 6 : 5, 4, true);});
  mc::add("stream_socket", [=] {run<stream_sockets>(th ? 5 : 4, 3, false);});
  mc::add("datagram_socket", [=] {run<datagrams>(th ? 5 : 4, 4, false);});
  mc::add("seq_packet_socket", [=] {run<seq_packets>(th ? 5 : 4, 3, false);});
}
