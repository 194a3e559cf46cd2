// sockets: opening, connecting, addresses and options, against raw sockets
#include "cob.hpp"
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/io/datagram_socket.hpp>
#include <boost/cobalt/io/seq_packet_socket.hpp>

#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <set>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

using namespace cob;
namespace io = cobalt::io;

// ------------------------------------------------------------------ the system calls
namespace
{
bool active = false;
std::set<int> fds;
std::vector<std::string> connects;       // the addresses connect was called with
}
extern "C"
{
int socket(int d, int t, int pr) noexcept
{
  int r = ::syscall(SYS_socket, d, t, pr);
  if (active && r >= 0)
  {
    mc::quiet q;
    fds.insert(r);
  }
  return r;
}
int close(int fd)
{
  if (active)
  {
    mc::quiet q;
    fds.erase(fd);
  }
  return ::syscall(SYS_close, fd);
}
int connect(int fd, const sockaddr * a, socklen_t n)
{
  if (active)
  {
    mc::quiet q;
    connects.emplace_back(reinterpret_cast<const char*>(a), n);
  }
  return ::syscall(SYS_connect, fd, a, n);
}
}

namespace
{
using ct_t = asio::cancellation_type;
enum kind_t {tcp, local_stream, local_seqpacket, local_datagram, udp};
constexpr int type_of(kind_t k) {return k == local_seqpacket ? SOCK_SEQPACKET : k == local_datagram || k == udp ? SOCK_DGRAM : SOCK_STREAM;}
constexpr bool is_ip(kind_t k) {return k == tcp || k == udp;}
constexpr bool is_dgram(kind_t k) {return k == udp || k == local_datagram;}
template<kind_t K> struct socket_of {using type = io::stream_socket;};
template<> struct socket_of<local_seqpacket> {using type = io::seq_packet_socket;};
template<> struct socket_of<local_datagram> {using type = io::datagram_socket;};
template<> struct socket_of<udp> {using type = io::datagram_socket;};

// an address somebody listens at (or not)
struct peer
{
  std::string addr;      // sockaddr
  int fd = -1;
  std::vector<int> backlog;
  ~peer() {for (auto b : backlog) ::close(b); if (fd >= 0) ::close(fd);}
};
int counter = 0;
std::string make_addr(kind_t k)
{
  if (is_ip(k))
  {
    sockaddr_in in{};
    in.sin_family = AF_INET;
    in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return std::string(reinterpret_cast<char*>(&in), sizeof(in));
  }
  sockaddr_un un{};
  un.sun_family = AF_UNIX;
  int n = std::snprintf(un.sun_path + 1, sizeof(un.sun_path) - 1, "verif-net-%d-%d", (int)::getpid(), counter++);
  return std::string(reinterpret_cast<char*>(&un), offsetof(sockaddr_un, sun_path) + 1 + n);
}
enum state_t {listening, refusing, full, n_states};
void setup(peer & p, kind_t k, state_t s)
{
  p.addr = make_addr(k);
  if (!is_ip(k) && s == refusing)
    return;
  p.fd = ::socket(is_ip(k) ? AF_INET : AF_UNIX, type_of(k) | SOCK_NONBLOCK, 0);
  if (::bind(p.fd, reinterpret_cast<sockaddr*>(p.addr.data()), p.addr.size()))
    mc::fail("harness: bind");
  socklen_t n = p.addr.size();
  ::getsockname(p.fd, reinterpret_cast<sockaddr*>(p.addr.data()), &n);
  if (is_dgram(k))
    return;
  if (s == listening)
    ::listen(p.fd, 20);
  if (s == full)
  {
    ::listen(p.fd, 0);
    for (int i = 0; i < 4; i++)
    {
      int c = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
      ::connect(c, reinterpret_cast<sockaddr*>(p.addr.data()), p.addr.size());
      p.backlog.push_back(c);
    }
  }
}
// made once, as they use up ports
peer & get_peer(kind_t k, state_t s, int i)
{
  static std::map<std::tuple<int, int, int>, std::unique_ptr<peer>> all;
  auto & p = all[{k, s, i}];
  if (!p)
  {
    mc::quiet q;
    p = std::make_unique<peer>();
    bool a = std::exchange(active, false);
    setup(*p, k, s);
    active = a;
  }
  return *p;
}
std::vector<int> conns;
// who connected?
int accepted(peer & p)
{
  int n = 0;
  while (p.fd >= 0)
  {
    int c = ::accept(p.fd, nullptr, nullptr);
    if (c < 0)
      break;
    linger l{1, 0};      // no TIME_WAIT
    ::setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
    conns.push_back(c);
    n++;
  }
  return n;
}
void hang_up()
{
  for (auto c : conns) ::close(c);
  conns.clear();
}

struct raw_endpoint
{
  std::string d;
  io::protocol_type prot;
  io::protocol_type protocol() const {return prot;}
  void * data() {return d.data();}
  std::size_t size() const {return d.size();}
};
template<kind_t K>
io::endpoint to_endpoint(const peer & p, bool typed)
{
  io::protocol_type t = io::tcp_v4;
  if (K == udp) t = typed ? io::protocol_type(io::udp_v4) : io::ip_v4;
  else if (K == tcp) t = typed ? io::protocol_type(io::tcp_v4) : io::ip_v4;
  else if (!typed) t = io::local_protocol;
  else if (K == local_stream) t = io::local_stream;
  else if (K == local_seqpacket) t = io::local_seqpacket;
  else t = io::local_datagram;
  return io::endpoint(raw_endpoint{p.addr, t});
}
std::string bytes_of(const io::endpoint & e) {return std::string(static_cast<const char*>(e.data()), e.size());}

template<typename F, typename Op = std::invoke_result_t<F>>
struct watched
{
  int & depth;
  Op op;
  decltype(std::declval<Op&>().operator co_await()) a{op.operator co_await()};
  watched(int & d, F f) : depth(d), op(f()) {}
  watched(const watched &) = delete;
  bool await_ready() {return a.await_ready();}
  template<typename P>
  auto await_suspend(std::coroutine_handle<P> h)
  {
    auto & d = depth;
    d++;
    auto r = a.await_suspend(h);
    d--;
    return r;
  }
  auto await_resume()
  {
    MC_CHECK(depth == 0, "completed from within the initiation");
    return a.await_resume(cobalt::as_tuple_tag{});
  }
};

struct request
{
  proc_state ps;
  int depth = 0, resumed = 0;
  bool done = false, handled = false, ranged = false, killed = false;
  std::vector<int> targets;      // state_t of the peers, -1: none
  error_code ec;
  io::endpoint ep;
  request(world & w) : ps(w) {}
};

template<kind_t K>
struct fixture
{
  using socket_t = typename socket_of<K>::type;
  std::deque<request> rs;
  int frames = 0;
  world w;
  std::optional<socket_t> s;
  bool open = false;
  int connected = -1;      // to which
  std::string trail;

  struct guard
  {
    bool prev = active;
    guard() {active = true;}
    ~guard() {active = prev;}
  };
  proc connect(proc_state &, life_guard, request & r, io::endpoint ep)
  {
    std::tie(r.ec) = co_await watched(r.depth, [&] {return s->connect(ep);});
    r.resumed++;
    r.done = true;
  }
  proc connect_range(proc_state &, life_guard, request & r, io::endpoint_sequence eps)
  {
    auto op = [&] {auto o = s->connect(eps); eps.clear(); return o;};
    std::tie(r.ec, r.ep) = co_await watched(r.depth, op);
    r.resumed++;
    r.done = true;
  }
  bool pending() const {return !rs.empty() && !rs.back().done;}
  void look()
  {
    for (auto & r : rs)
    {
      if (!r.done || r.handled)
        continue;
      r.handled = true;
      MC_CHECK(r.resumed == 1, "resumed twice");
      // what's expected
      std::vector<int> tried;
      int success = -1;
      bool stuck = false, isconn = false;
      for (auto t : r.targets)
      {
        tried.push_back(t);
        if (!r.ranged && connected >= 0 && !is_dgram(K)) {isconn = true; break;}
        if (t == full) {stuck = true; break;}
        if (t != refusing) {success = t; break;}
      }
      bool aborted = r.ec == asio::error::operation_aborted;
      mc::quiet q;
      // each was attempted in order; the system may be asked more than once for the same only for its result
      if (r.killed && aborted)
      {
        MC_CHECK(connects.size() <= tried.size(), "attempts after the cancellation");
        tried.resize(std::min(tried.size(), connects.size()));
      }
      MC_CHECK(connects.size() == tried.size(), "%zu attempts to connect instead of %zu", connects.size(), tried.size());
      for (std::size_t i = 0; i < tried.size() && !mc::failed(); i++)
        MC_CHECK(connects[i] == address(tried[i]), "attempt %zu is for the wrong address", i);
      connects.clear();
      if (aborted)
      {
        MC_CHECK(r.killed, "aborted, although it was not cancelled");
        if (r.ranged)
          connected = -1;
        if (is_dgram(K) && success >= 0 && !r.ranged) connected = success;
        int n = accepted(get_peer(K, listening, 0)) + accepted(get_peer(K, listening, 1));
        // a cancellation may come just after it connected
        MC_CHECK(n <= 1, "%d connections", n);
        if (n || K == tcp) lost = true;
      }
      else if (K == tcp && broken && !r.ranged && r.ec == asio::error::connection_aborted)
      {
        // linux: the first connect after one that failed
        broken = false;
      }
      else if (isconn && K == tcp && !r.ec)
      {
        // linux: the first connect after one that was in progress yields its result
        int n = accepted(get_peer(K, listening, 0)) + accepted(get_peer(K, listening, 1));
        MC_CHECK(n == 0, "connected twice");
      }
      else if (success >= 0)
      {
        MC_CHECK(!r.ec, "fails with '%s'", r.ec.message().c_str());
        if (r.ranged)
          MC_CHECK(bytes_of(r.ep) == address(success), "yields the wrong endpoint");
        connected = success;
        if (!is_dgram(K))
          for (int i = 0; i < 2; i++)
          {
            int n = accepted(get_peer(K, listening, i));
            MC_CHECK(n == (success == 10 + i), "%d connections at peer %d", n, i);
          }
      }
      else
      {
        MC_CHECK(!stuck || r.killed, "completes although the peer doesn't answer");
        error_code e = asio::error::connection_refused;
        if (isconn) e = asio::error::already_connected;
        else if (r.targets.empty()) e = asio::error::not_found;
        if (isconn && r.targets[0] == refusing && r.ec == asio::error::connection_refused)
          e = r.ec;     // whatever is checked first
        broken = true;
        MC_CHECK(r.ec == e, "yields '%s' instead of '%s'", r.ec.message().c_str(), e.message().c_str());
        if (r.ranged && !r.targets.empty())
          connected = -1;
        int n = is_dgram(K) ? 0 : accepted(get_peer(K, listening, 0)) + accepted(get_peer(K, listening, 1));
        MC_CHECK(n == 0, "%d connections", n);
      }
      open = s && s->is_open();
    }
  }
  bool broken = false;
  bool lost = false;       // it's not known whether it is connected
  static std::string address(int t)
  {
    return t >= 10 ? get_peer(K, listening, t - 10).addr : get_peer(K, t == full ? full : refusing, 0).addr;
  }
  void settle()
  {
    w.drain();
    for (int i = 0; i < 50 && pending() && !stuck(); i++)     // the loopback device
    {
      ::usleep(1000);
      w.drain();
    }
    look();
    if (pending())
      MC_CHECK(stuck(), "does not complete");
  }
  bool stuck() const
  {
    auto & r = rs.back();
    if (r.killed) return false;
    for (auto t : r.targets)
    {
      if (t == full) return true;
      if (t != refusing) return false;
    }
    return false;
  }
};

template<kind_t K>
void run(int depth, int max_requests)
{
  using fx = fixture<K>;
  std::optional<fx> st;
  {
    mc::quiet q;
    st.emplace();
    fds.clear();
    connects.clear();
    for (int i = 0; i < 2; i++) accepted(get_peer(K, listening, i));
    hang_up();
  }
  auto & f = *st;
  typename fx::guard g;
  f.s.emplace();
  constexpr bool has_full = K == tcp;
  for (int step = 0; step < depth && !mc::failed(); step++)
  {
    mc::step();
    std::vector<char> menu;
    {
      mc::quiet q;
      if (!f.pending() && (int)f.rs.size() < max_requests && !f.lost)
        for (char c : {'c', 'R'}) menu.push_back(c);
      menu.push_back('p');
      // cancelling the socket (as opposed to the operation) stops only one attempt of a ranged connect
      if (!f.pending() || !f.rs.back().ranged) menu.push_back('n');
      menu.push_back('x');
      if (!f.pending() && !f.open) menu.push_back('o');
      menu.push_back('e');
      if (f.pending() && !f.rs.back().killed) menu.push_back('k');
      menu.push_back('m');
    }
    char ev = menu[mc::choose((int)menu.size(), "event (connect, Range, poll, caNcel, close, open, endpoints, kill, move)")];
    {mc::quiet q; f.trail += ev; menu = {};}
    if (mc::logging()) mc::note("event %c", ev);
    switch (ev)
    {
      case 'c':
      {
        // the address, and whether its protocol is complete
        int t = mc::choose(has_full ? 4 : is_dgram(K) && is_ip(K) ? 2 : 3, "to (A, B, one that refuses, one that doesn't answer)");
        bool typed = mc::choose(2, "(without type, with)");
        io::endpoint ep;
        {
          mc::quiet q;
          f.rs.emplace_back(f.w);
          f.rs.back().targets = {t < 2 ? 10 + t : t == 2 ? refusing : full};
          ep = to_endpoint<K>(t < 2 ? get_peer(K, listening, t) : get_peer(K, t == 2 ? refusing : full, 0), typed);
        }
        auto & r = f.rs.back();
        f.connect(r.ps, life_guard(f.frames), r, ep);
        f.open = f.s->is_open();
        break;
      }
      case 'R':
      {
        int n = mc::choose(mc::thorough() ? 4 : 3, "number of endpoints");
        {mc::quiet q; f.rs.emplace_back(f.w); f.rs.back().ranged = true;}
        auto & r = f.rs.back();
        {
          io::endpoint_sequence eps;
          int typed = n ? mc::choose(2, "(the even ones have a type, the odd ones)") : 0;
          for (int i = 0; i < n; i++)
          {
            int t = mc::choose(has_full ? 4 : is_dgram(K) && is_ip(K) ? 2 : 3, "to (A, B, one that refuses, one that doesn't answer)");
            mc::quiet q;
            r.targets.push_back(t < 2 ? 10 + t : t == 2 ? refusing : full);
            eps.push_back(to_endpoint<K>(t < 2 ? get_peer(K, listening, t) : get_peer(K, t == 2 ? refusing : full, 0), (i + typed) % 2));
          }
          f.connect_range(r.ps, life_guard(f.frames), r, std::move(eps));
        }
        f.open = f.s->is_open();
        break;
      }
      case 'p':
        f.settle();
        break;
      case 'n':
      {
        auto r = f.s->cancel();
        MC_CHECK(r.has_value() == f.open || f.pending(), "cancel");
        if (f.pending()) f.rs.back().killed = true;
        break;
      }
      case 'x':
      {
        if (f.pending()) f.rs.back().killed = true;
        MC_CHECK(f.s->close().has_value(), "close fails");
        MC_CHECK(!f.s->is_open(), "open after close");
        f.w.drain();
        f.look();
        f.open = f.s->is_open();
        if (!f.open) {f.connected = -1; f.lost = false;}
        break;
      }
      case 'o':
      {
        io::protocol_type p = to_endpoint<K>(get_peer(K, listening, 0), true).protocol();
        MC_CHECK(f.s->open(p).has_value(), "open fails");
        MC_CHECK(f.s->is_open(), "not open");
        f.open = true;
        MC_CHECK(!f.s->open(p).has_value(), "open succeeds twice");
        break;
      }
      case 'e':
        if (!f.pending() && !f.lost)
        {
          f.look();
          auto l = f.s->local_endpoint();
          auto r = f.s->remote_endpoint();
          MC_CHECK(l.has_value() == f.open, "local_endpoint");
          MC_CHECK(r.has_value() == (f.connected >= 0), "remote_endpoint %s", r.has_value() ? "of a socket that is not connected" : "fails");
          if (r)
          {
            MC_CHECK(bytes_of(*r) == fx::address(f.connected), "remote_endpoint is wrong");
            MC_CHECK(r->protocol().family() == (is_ip(K) ? AF_INET : AF_UNIX), "family");
          }
          if (l)
          {
            sockaddr_storage ss{};
            socklen_t n = sizeof(ss);
            ::getsockname(f.s->native_handle(), reinterpret_cast<sockaddr*>(&ss), &n);
            MC_CHECK(bytes_of(*l) == std::string(reinterpret_cast<char*>(&ss), n), "local_endpoint is wrong");
          }
        }
        break;
      case 'k':
        f.rs.back().killed = true;
        f.rs.back().ps.signal.emit((ct_t)(1 << mc::choose(mc::thorough() ? 3 : 1, "type (terminal, partial, total)")));
        break;
      case 'm':
        // an operation refers to the object
        if (!f.pending())
        {
          auto e = std::move(*f.s);
          MC_CHECK(!f.s->is_open(), "open after it was moved from");
          f.s.reset();
          f.s.emplace(std::move(e));
        }
        break;
    }
    if (mc::failed()) return;
    f.look();
    if (mc::failed()) return;
    MC_CHECK(f.s->is_open() == f.open || f.pending(), "is_open is wrong");
    MC_CHECK(fds.size() == (std::size_t)f.s->is_open(), "%zu descriptors are open", fds.size());
    if (f.s->is_open())
    {
      int t = 0;
      socklen_t n = sizeof(t);
      ::getsockopt(f.s->native_handle(), SOL_SOCKET, SO_TYPE, &t, &n);
      MC_CHECK(t == type_of(K), "the type of the socket is %d", t);
      n = sizeof(t);
      ::getsockopt(f.s->native_handle(), SOL_SOCKET, SO_PROTOCOL, &t, &n);
      MC_CHECK(t == (K == tcp ? IPPROTO_TCP : K == udp ? IPPROTO_UDP : 0), "the protocol of the socket is %d", t);
    }
    std::uint64_t h = f.open * 4 + f.lost * 2 + f.pending();
    h = mc::mix(h, f.connected + 1);
    if (!f.rs.empty()) for (auto t : f.rs.back().targets) h = mc::mix(h, t);
    mc::state(h);
  }
  bool end = f.pending() && mc::choose(2, "finally (everything ends, everything is destroyed)");
  if (f.pending())
    f.rs.back().killed = true;
  if (!end)
  {
    if (f.pending() && f.rs.back().ranged)
    {
      // refers to the socket
      (void)f.s->close();
      f.w.drain();
    }
    f.s.reset();
    f.w.drain();
    f.look();
    for (auto & r : f.rs)
      MC_CHECK(r.done && r.ps.destroyed, "an operation of a destroyed socket does not end");
    MC_CHECK(f.frames == 0, "%d frames alive", f.frames);
  }
  mc::outcome(f.trail);
  f.s.reset();
  MC_CHECK(fds.empty(), "%zu descriptors are left open", fds.size());
  mc::quiet q;
  for (int i = 0; i < 2; i++) accepted(get_peer(K, listening, i));
  hang_up();
  st.reset();
}

// ------------------------------------------------------------------ options against those of a raw socket
template<kind_t K>
void options(int sets)
{
  std::optional<world> w;
  {
    mc::quiet q;
    w.emplace();
    fds.clear();
  }
  active = true;
  {
    using socket_t = typename socket_of<K>::type;
    socket_t s;
    auto prot = to_endpoint<K>(get_peer(K, listening, 0), true).protocol();
    bool open = mc::choose(2, "(open, closed)") == 0;
    int raw = -1;
    if (open)
    {
      MC_CHECK(s.open(prot).has_value(), "open");
      raw = ::syscall(SYS_socket, prot.family(), prot.type(), prot.protocol());
    }
    bool aborted_enabled = false;
    std::string trail;
    auto expect = [&](const char * what, auto r, int rc, int e)
    {
      if (rc == 0)
        MC_CHECK(r.has_value(), "%s fails: %s", what, r.has_error() ? r.error().message().c_str() : "");
      else
        MC_CHECK(r.has_error() && r.error().value() == e, "%s: the wrong error", what);
    };
    auto rset = [&](int level, int name, auto v)
    {
      int rc = ::setsockopt(raw, level, name, &v, sizeof(v));
      return std::make_pair(rc, rc ? errno : 0);
    };
    auto verify = [&]
    {
      auto one = [&](const char * what, auto r, int level, int name)
      {
        int v = 0;
        socklen_t n = sizeof(v);
        int rc = ::getsockopt(raw, level, name, &v, &n), e = errno;
        expect(what, r, rc, e);
        if (name == SO_RCVBUF || name == SO_SNDBUF)
          v /= 2;      // linux doubles it, which asio reverts
        if (r.has_value() && !rc)
        {
          if constexpr (std::is_same_v<std::decay_t<decltype(*r)>, bool>)
            MC_CHECK(*r == (v != 0), "%s is %d", what, *r);
          else
            MC_CHECK(*r == v, "%s is %d instead of %d", what, *r, v);
        }
      };
      one("debug", s.get_debug(), SOL_SOCKET, SO_DEBUG);
      one("do_not_route", s.get_do_not_route(), SOL_SOCKET, SO_DONTROUTE);
      one("keep_alive", s.get_keep_alive(), SOL_SOCKET, SO_KEEPALIVE);
      one("reuse_address", s.get_reuse_address(), SOL_SOCKET, SO_REUSEADDR);
      one("receive_buffer_size", s.get_receive_buffer_size(), SOL_SOCKET, SO_RCVBUF);
      one("send_buffer_size", s.get_send_buffer_size(), SOL_SOCKET, SO_SNDBUF);
      one("receive_low_watermark", s.get_receive_low_watermark(), SOL_SOCKET, SO_RCVLOWAT);
      one("send_low_watermark", s.get_send_low_watermark(), SOL_SOCKET, SO_SNDLOWAT);
      one("no_delay", s.get_no_delay(), IPPROTO_TCP, TCP_NODELAY);
      {
        linger l{};
        socklen_t n = sizeof(l);
        int rc = ::getsockopt(raw, SOL_SOCKET, SO_LINGER, &l, &n), e = errno;
        auto r = s.get_linger();
        expect("linger", r, rc, e);
        if (r.has_value() && !rc)
          MC_CHECK(r->first == (l.l_onoff != 0) && r->second == l.l_linger, "linger is %d, %d", r->first, r->second);
      }
      auto r = s.get_enable_connection_aborted();
      MC_CHECK(r.has_value() == open && (!open || *r == aborted_enabled), "enable_connection_aborted");
      auto b = s.bytes_readable();
      MC_CHECK(b.has_value() || !open || !is_dgram(K), "bytes_readable");
      if (b.has_value())
        MC_CHECK(*b == 0, "bytes_readable");
    };
    verify();
    for (int i = 0; i < sets && !mc::failed(); i++)
    {
      mc::step();
      int o = mc::choose(11, "option (debug, do_not_route, keep_alive, reuse_address, receive_buffer_size, send_buffer_size, receive_low_watermark, send_low_watermark, no_delay, linger, connection_aborted)");
      int v = mc::choose(3, "value");
      bool on = v != 0;
      static constexpr int sizes[] = {4096, 10000, 1};
      auto sw = [&](const char * what, auto r, int level, int name, int val)
      {
        auto [rc, e] = rset(level, name, val);
        expect(what, r, rc, e);
      };
      switch (o)
      {
        case 0: sw("set_debug", s.set_debug(on), SOL_SOCKET, SO_DEBUG, on); break;
        case 1: sw("set_do_not_route", s.set_do_not_route(on), SOL_SOCKET, SO_DONTROUTE, on); break;
        case 2: sw("set_keep_alive", s.set_keep_alive(on), SOL_SOCKET, SO_KEEPALIVE, on); break;
        case 3: sw("set_reuse_address", s.set_reuse_address(on), SOL_SOCKET, SO_REUSEADDR, on); break;
        case 4: sw("set_receive_buffer_size", s.set_receive_buffer_size(sizes[v]), SOL_SOCKET, SO_RCVBUF, sizes[v]); break;
        case 5: sw("set_send_buffer_size", s.set_send_buffer_size(sizes[v]), SOL_SOCKET, SO_SNDBUF, sizes[v]); break;
        case 6: sw("set_receive_low_watermark", s.set_receive_low_watermark(v + 2), SOL_SOCKET, SO_RCVLOWAT, v + 2); break;
        case 7: sw("set_send_low_watermark", s.set_send_low_watermark(v + 2), SOL_SOCKET, SO_SNDLOWAT, v + 2); break;
        case 8: sw("set_no_delay", s.set_no_delay(on), IPPROTO_TCP, TCP_NODELAY, on); break;
        case 9:
        {
          linger l{on, v * 7};
          auto r = s.set_linger(on, v * 7);
          auto [rc, e] = rset(SOL_SOCKET, SO_LINGER, l);
          expect("set_linger", r, rc, e);
          break;
        }
        case 10:
        {
          auto r = s.set_enable_connection_aborted(on);
          MC_CHECK(r.has_value() == open, "set_enable_connection_aborted");
          if (open) aborted_enabled = on;
          break;
        }
      }
      verify();
      mc::quiet q;
      trail += char('a' + o);
      mc::state(o * 3 + v);
    }
    mc::outcome(trail);
    if (raw >= 0) ::syscall(SYS_close, raw);
  }
  MC_CHECK(fds.empty(), "%zu descriptors leak", fds.size());
  mc::quiet q;
  w.reset();
  active = false;
}

// ------------------------------------------------------------------ constructors
template<kind_t K>
void construction()
{
  using socket_t = typename socket_of<K>::type;
  std::optional<world> w;
  peer other;
  {
    mc::quiet q;
    w.emplace();
    fds.clear();
    other.addr = make_addr(K);
  }
  active = true;
  int how = mc::choose(4, "(bound, bound to an address in use, from a descriptor, from an invalid descriptor)");
  auto prot = to_endpoint<K>(other, true).protocol();
  try
  {
    switch (how)
    {
      case 0:
      case 1:
      {
        auto ep = to_endpoint<K>(how == 1 ? get_peer(K, listening, 0) : other, true);
        socket_t s(ep);
        MC_CHECK(how == 0, "bound to an address in use");
        MC_CHECK(s.is_open(), "not open");
        auto l = s.local_endpoint();
        MC_CHECK(l.has_value(), "local_endpoint");
        if (is_ip(K))
          MC_CHECK(get_if<io::ip_v4>(&*l)->addr() == htonl(INADDR_LOOPBACK) && get_if<io::ip_v4>(&*l)->port() != 0, "the local address");
        else
          MC_CHECK(bytes_of(*l) == other.addr, "the local address");
        MC_CHECK(fds.size() == 1, "%zu descriptors", fds.size());
        break;
      }
      case 2:
      case 3:
      {
        int fd = how == 2 ? ::socket(prot.family(), prot.type(), prot.protocol()) : ::open("/dev/null", O_RDONLY);
        if (how == 3) {::close(fd);}
        socket_t s(fd, prot);
        MC_CHECK(how == 2, "an invalid descriptor is accepted");
        MC_CHECK(s.is_open() && s.native_handle() == fd, "not assigned");
        auto r = s.release();
        MC_CHECK(r.has_value() && *r == fd && !s.is_open() && fds.count(fd), "release");
        MC_CHECK(s.assign(prot, fd).has_value() && s.is_open(), "assign");
        MC_CHECK(!s.assign(prot, fd).has_value(), "assigned twice");
        break;
      }
    }
  }
  catch (boost::system::system_error & e)
  {
    MC_CHECK(how == 1 || how == 3, "throws '%s'", e.what());
  }
  MC_CHECK(fds.empty(), "%zu descriptors leak", fds.size());
  mc::quiet q;
  w.reset();
  active = false;
}
template<kind_t K>
void all(const char * n, int depth, int rq)
{
  bool th = mc::thorough();
  auto name = [&](const char * w) {return std::string(n) + "/" + w;};
  mc::add(name("construct"), [] {construction<K>();});
  mc::add(name("options"), [=] {options<K>(th ? 3 : 2);});
  mc::add(name("connect"), [=] {run<K>(depth, rq);});
}
}

MC_MAIN()
{
  ::signal(SIGPIPE, SIG_IGN);
  bool th = mc::thorough();
  all<tcp>("tcp", th ? 5 : 4, 2);
  all<udp>("udp", th ? 5 : 4, 3);
  all<local_stream>("local_stream", th ? 6 : 5, 3);
  all<local_seqpacket>("local_seqpacket", th ? 6 : 5, 3);
  all<local_datagram>("local_datagram", th ? 5 : 4, 3);
}
