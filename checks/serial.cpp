// serial_port on a pseudo terminal, whose settings are kept here (a pseudo terminal ignores most of them)
#include "cob.hpp"
#include <boost/cobalt/io/serial_port.hpp>

#include <csignal>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <termios.h>
#include <unistd.h>

using namespace cob;
namespace io = boost::cobalt::io;

namespace
{
bool active = false;
int watched_tty = -1;          // the device number of the slave
std::optional<termios> shadow;
int fault = 0, breaks = 0;

bool ours(int fd)
{
  return active && ::isatty(fd);
}
bool inject(const char * what, int e)
{
  if (!mc::dev(2, what))
    return false;
  errno = fault = e;
  return true;
}
// what asio sets besides the options
constexpr tcflag_t option_cflags = CSIZE | CRTSCTS | PARENB | PARODD | CSTOPB;
}
extern "C"
{
int tcgetattr(int fd, termios * t) noexcept
{
  static auto real = reinterpret_cast<int(*)(int, termios*)>(::dlsym(RTLD_NEXT, "tcgetattr"));
  if (!ours(fd) || !shadow)
    return real(fd, t);
  if (inject("tcgetattr (works, fails)", EIO))
    return -1;
  *t = *shadow;
  return 0;
}
int tcsetattr(int fd, int a, const termios * t) noexcept
{
  static auto real = reinterpret_cast<int(*)(int, int, const termios*)>(::dlsym(RTLD_NEXT, "tcsetattr"));
  if (!ours(fd))
    return real(fd, a, t);
  if (inject("tcsetattr (works, fails)", EIO))
    return -1;
  shadow = *t;
  // what the pseudo terminal would refuse
  termios u = *t;
  u.c_cflag = (u.c_cflag & ~option_cflags) | CS8;
  ::cfsetspeed(&u, B38400);
  return real(fd, a, &u);
}
int tcsendbreak(int fd, int) noexcept
{
  if (active && !::isatty(fd))
  {
    errno = ENOTTY;
    return -1;
  }
  if (active && inject("tcsendbreak (works, fails)", EIO))
    return -1;
  breaks++;
  return 0;
}
}

namespace
{
using bytes = std::string;
int open_fds()
{
  int n = 0;
  DIR * d = ::opendir("/proc/self/fd");
  while (::readdir(d))
    n++;
  ::closedir(d);
  return n;
}

template<typename F, typename Op = std::invoke_result_t<F>>
struct watched
{
  int & depth;
  Op op;
  decltype(std::declval<Op&>().operator co_await()) a{op.operator co_await()};
  watched(int & d, F f) : depth(d), op(f()) {}
  watched(const watched &) = delete;
  bool await_ready() {return a.await_ready();}
  template<typename P>
  auto await_suspend(std::coroutine_handle<P> h)
  {
    auto & d = depth;
    d++;
    auto r = a.await_suspend(h);
    d--;
    return r;
  }
  auto await_resume()
  {
    MC_CHECK(depth == 0, "completed from within the initiation");
    return a.await_resume(cobalt::as_tuple_tag{});
  }
};

struct request
{
  proc_state ps;
  bool write = false, done = false, handled = false, may_abort = false, must_abort = false, could = false, closed = false;
  int depth = 0, resumed = 0;
  bytes mem;
  std::vector<asio::mutable_buffer> mb;
  std::vector<asio::const_buffer> cb;
  error_code ec;
  std::size_t n = 0;
  request(world & w) : ps(w) {}
};

struct settings
{
  unsigned baud = 38400, size = 8;
  io::serial_port::flow_control flow = asio::serial_port_base::flow_control::none;
  io::serial_port::parity parity = asio::serial_port_base::parity::none;
};
constexpr struct {unsigned value; speed_t speed;} bauds[] = {{38400, B38400}, {9600, B9600}, {115200, B115200}, {4000000, B4000000}, {1200, B1200}, {0, B0}};
constexpr struct {unsigned value; tcflag_t flag;} sizes[] = {{8, CS8}, {7, CS7}, {5, CS5}, {6, CS6}};

struct fixture
{
  std::deque<request> rs;
  int frames = 0;
  world w;
  std::unique_ptr<io::serial_port> s;
  int master = -1;
  std::string device;
  bool open = false, gone = false;
  settings opt;
  std::deque<char> in, out;            // to be read by the port / by the other side
  unsigned char fresh = 1;
  std::string trail;

  ~fixture() {if (master >= 0) ::close(master);}
  // a new terminal
  void terminal()
  {
    mc::quiet q;
    if (master >= 0)
      ::close(master);
    master = ::posix_openpt(O_RDWR | O_NOCTTY | O_NONBLOCK);
    if (master < 0 || ::grantpt(master) || ::unlockpt(master))
    {
      std::perror("pseudo terminal");
      std::abort();
    }
    char b[100];
    if (::ptsname_r(master, b, sizeof b))
      std::abort();
    device = b;
    active = false;
    termios t;
    ::tcgetattr(master, &t);
    ::cfmakeraw(&t);
    ::tcsetattr(master, TCSANOW, &t);
    active = true;
    gone = false;
    in.clear();
    out.clear();
    fresh = 1;
  }
  proc read(proc_state &, life_guard, request & r)
  {
    std::tie(r.ec, r.n) = co_await watched(r.depth, [&] {return s->read_some(r.mb.size() == 1 ? io::mutable_buffer_sequence(r.mb[0]) : io::mutable_buffer_sequence(std::span<const asio::mutable_buffer>(r.mb)));});
    r.resumed++;
    r.done = true;
  }
  proc write(proc_state &, life_guard, request & r)
  {
    std::tie(r.ec, r.n) = co_await watched(r.depth, [&] {return s->write_some(r.cb.size() == 1 ? io::const_buffer_sequence(r.cb[0]) : io::const_buffer_sequence(std::span<const asio::const_buffer>(r.cb)));});
    r.resumed++;
    r.done = true;
  }
  int pending(bool write)
  {
    for (std::size_t i = 0; i < rs.size(); i++)
      if (!rs[i].handled && rs[i].write == write)
        return (int)i;
    return -1;
  }
  void update()
  {
    for (auto & r : rs)
      if (!r.handled && !r.must_abort && (r.write || !in.empty() || gone || r.mem.empty()))
        r.could = true;
  }
  void abort(request & r)
  {
    if (r.handled)
      return;
    r.may_abort = true;
    if (!r.could)
      r.must_abort = true;
  }
  void look()
  {
    for (auto & r : rs)
    {
      if (!r.done || r.handled)
        continue;
      r.handled = true;
      const char * name = r.write ? "write" : "read";
      MC_CHECK(r.resumed == 1, "resumed twice");
      if (r.closed)
      {
        MC_CHECK((r.ec && r.ec != asio::error::eof && r.ec != asio::error::operation_aborted) || (r.mem.empty() && !r.write), "%s of a closed port: '%s'", name, r.ec.message().c_str());
        MC_CHECK(r.n == 0, "%s of a closed port transfers bytes", name);
        continue;
      }
      if (r.ec == asio::error::operation_aborted)
      {
        MC_CHECK(r.may_abort, "%s aborted without being cancelled", name);
        MC_CHECK(r.n == 0, "%s aborted with %zu bytes", name, r.n);
        continue;
      }
      MC_CHECK(!r.must_abort, "%s completes although it was cancelled", name);
      if (r.ec)
      {
        MC_CHECK(gone, "%s fails with '%s'", name, r.ec.message().c_str());
        MC_CHECK(r.n == 0, "%s: %zu bytes although it fails", name, r.n);
        continue;
      }
      MC_CHECK(r.n <= r.mem.size() && (r.n || r.mem.empty()), "%s: %zu bytes", name, r.n);
      if (r.write)
        MC_CHECK(r.n == r.mem.size(), "write: %zu of %zu bytes", r.n, r.mem.size());
      else
      {
        MC_CHECK(r.n <= in.size(), "read: %zu bytes (of %zu) instead of %zu", r.n, r.mem.size(), in.size());
        for (std::size_t i = 0; i < r.n && !in.empty(); i++)
        {
          MC_CHECK(r.mem[i] == in.front(), "read: byte %zu is wrong", i);
          in.pop_front();
        }
      }
    }
  }
  void settle()
  {
    w.drain();
    look();
    for (auto & r : rs)
      if (!r.handled)
      {
        MC_CHECK(!r.may_abort, "cancelled, but it does not complete");
        MC_CHECK(!r.could, "%s does not complete", r.write ? "write" : "read");
      }
  }
  // the other side gets exactly what was written
  void collect()
  {
    mc::quiet q;
    while (!out.empty() && !gone)
    {
      pollfd p{master, POLLIN, 0};
      ::poll(&p, 1, 2000);
      char b[100];
      auto n = ::read(master, b, sizeof b);
      MC_CHECK(n > 0, "%zu bytes that were written do not arrive", out.size());
      if (n <= 0)
        return;
      for (ssize_t i = 0; i < n; i++)
      {
        MC_CHECK(!out.empty() && out.front() == b[i], "the other side reads the wrong bytes");
        if (mc::failed()) return;
        out.pop_front();
      }
    }
    char c;
    if (!gone)
      MC_CHECK(::read(master, &c, 1) <= 0, "the other side reads more than was written");
  }
  void check_options()
  {
    MC_CHECK(s->is_open() == open, "is_open() is %d", s->is_open());
    mc::set_dev_budget(0);
    auto b = s->get_baud_rate();
    auto c = s->get_character_size();
    auto f = s->get_flow_control();
    auto p = s->get_parity();
    mc::set_dev_budget(1);
    if (!open)
    {
      MC_CHECK(b.has_error() && c.has_error() && f.has_error() && p.has_error(), "a closed port has options");
      return;
    }
    MC_CHECK(b.has_value() && *b == opt.baud, "baud_rate is %d instead of %u", b ? (int)*b : -1, opt.baud);
    MC_CHECK(c.has_value() && *c == opt.size, "character_size is %d instead of %u", c ? (int)*c : -1, opt.size);
    MC_CHECK(f.has_value() && *f == opt.flow, "flow_control is %d instead of %d", f ? (int)*f : -1, (int)opt.flow);
    MC_CHECK(p.has_value() && *p == opt.parity, "parity is %d instead of %d", p ? (int)*p : -1, (int)opt.parity);
    // and the device has them
    auto & t = *shadow;
    for (auto & x : bauds)
      if (x.value == opt.baud)
        MC_CHECK(::cfgetospeed(&t) == x.speed && (::cfgetispeed(&t) == x.speed || !x.value), "the speed of the device is wrong");
    for (auto & x : sizes)
      if (x.value == opt.size)
        MC_CHECK((t.c_cflag & CSIZE) == x.flag, "the character size of the device is wrong");
    using fc = asio::serial_port_base::flow_control;
    using pt = asio::serial_port_base::parity;
    MC_CHECK(((t.c_cflag & CRTSCTS) != 0) == (opt.flow == fc::hardware) && ((t.c_iflag & IXON) != 0) == (opt.flow == fc::software), "the flow control of the device is wrong");
    MC_CHECK(((t.c_cflag & PARENB) != 0) == (opt.parity != pt::none) && ((t.c_cflag & PARODD) != 0) == (opt.parity == pt::odd), "the parity of the device is wrong");
  }
  // an option is set
  template<typename T, typename F>
  void set(const char * name, T value, T & model, bool valid, F f)
  {
    fault = 0;
    auto r = f(value);
    bool ok = open && valid && !fault;
    MC_CHECK(r.has_value() == ok, "%s: '%s'", name, r.has_error() ? r.error().message().c_str() : "no error");
    if (fault && open && r.has_error())
      MC_CHECK(r.error() == error_code(fault, boost::system::system_category()), "%s: '%s'", name, r.error().message().c_str());
    if (ok)
      model = value;
  }
};

// what to try: options, the state of the port, bytes
enum mode_t {options, bytes_, all};
void run(mode_t mode, int depth)
{
  int fds = open_fds();
  std::optional<fixture> st;
  {mc::quiet q; st.emplace();}
  auto & f = *st;
  active = true;
  shadow.reset();
  breaks = 0;
  mc::set_dev_budget(1);
  f.terminal();
  using fc = asio::serial_port_base::flow_control;
  using pt = asio::serial_port_base::parity;
  // opening
  enum {ctor_device, ctor_handle, opened, assigned, closed};
  auto do_open = [&](int how)
  {
    fault = 0;
    f.opt = {};
    bool ok = false;
    error_code ec;
    auto raw = [&]
    {
      int fd = ::open(f.device.c_str(), O_RDWR | O_NOCTTY | O_NONBLOCK);
      // not touched by the port
      active = false;
      termios t;
      ::tcgetattr(fd, &t);
      active = true;
      shadow = t;
      ::cfsetspeed(&*shadow, B38400);
      return fd;
    };
    int fd = -1;
    switch (how)
    {
      case ctor_device:
        try {shadow.reset(); f.s = std::make_unique<io::serial_port>(f.device); ok = true;}
        catch (boost::system::system_error & e) {ec = e.code(); f.s = std::make_unique<io::serial_port>();}
        break;
      case ctor_handle: f.s = std::make_unique<io::serial_port>(fd = raw()); ok = true; break;
      case opened:
      {
        shadow.reset();
        // the name need not be terminated
        std::string n;
        {mc::quiet q; n = f.device + "0";}
        auto r = f.s->open(std::string_view(n).substr(0, n.size() - 1));
        ok = r.has_value();
        if (!ok) ec = r.error();
        break;
      }
      case assigned: {auto r = f.s->assign(fd = raw()); ok = r.has_value(); if (!ok) ec = r.error(); break;}
      case closed: f.s = std::make_unique<io::serial_port>(); break;
    }
    if (how == closed)
      return;
    MC_CHECK(ok == (fault == 0), "opening: '%s'", ec.message().c_str());
    if (fault && !ok)
      MC_CHECK(ec == error_code(fault, boost::system::system_category()), "opening: '%s'", ec.message().c_str());
    if (ok && fd >= 0)
      MC_CHECK(f.s->native_handle() == fd, "has another descriptor");
    f.open = ok;
    // asio's reading of the default speed of the device
    f.opt.baud = 38400;
  };
  int how = mc::choose(5, "(device, handle, open, assign, closed)");
  if (how == opened || how == assigned)
    f.s = std::make_unique<io::serial_port>();
  do_open(how);
  if (f.open) f.check_options();
  for (int step = 0; step < depth && !mc::failed(); step++)
  {
    enum {baud, size, flow, parity, brk, rd, wr, pw, pr, poll, cancel, kill, close, reopen, assign, move, hup, done};
    std::vector<std::pair<int, int>> menu;
    {
      mc::quiet q;
      menu.push_back({done, 0});
      if (mode != bytes_ && !f.gone)
        for (int x : {baud, size, flow, parity, brk})
          menu.push_back({x, 0});
      if (mode != options)
      {
        if (f.pending(false) < 0) menu.push_back({rd, 0});
        if (f.pending(true) < 0) menu.push_back({wr, 0});
        if (!f.gone && f.open) menu.push_back({pw, 0});
        menu.push_back({poll, 0});
        menu.push_back({cancel, 0});
        for (bool b : {false, true})
          if (int i = f.pending(b); i >= 0 && !f.rs[i].may_abort)
            menu.push_back({kill, i});
        if (!f.gone) menu.push_back({hup, 0});
      }
      menu.push_back({close, 0});
      if (f.pending(false) < 0 && f.pending(true) < 0)
      {
        menu.push_back({move, 0});
        menu.push_back({reopen, 0});
        menu.push_back({assign, 0});
      }
    }
    auto [e, a] = menu[mc::choose((int)menu.size(), "event (done, baud rate, size, flow control, parity, break, read, write, peer writes, poll, cancel, kill, hang up, close, move, open, assign)")];
    {mc::quiet q; f.trail += char('a' + e); menu = {}; menu.shrink_to_fit();}
    if (e == done)
      break;
    static const char * names[] = {"baud", "size", "flow", "parity", "break", "read", "write", "peer writes", "peer reads", "poll", "cancel", "kill", "close", "open", "assign", "move", "hang up"};
    mc::note("%s", names[e]);
    mc::step();
    switch (e)
    {
      case baud:
      {
        static const unsigned v[] = {9600, 115200, 4000000, 1200, 0, 9601};
        unsigned x = v[mc::choose(6, "rate")];
        f.set("set_baud_rate", x, f.opt.baud, x != 9601, [&](unsigned x) {return f.s->set_baud_rate(x);});
        break;
      }
      case size:
      {
        // asio itself throws for these
        unsigned x = 5 + mc::choose(4, "size");
        f.set("set_character_size", x, f.opt.size, true, [&](unsigned x) {return f.s->set_character_size(x);});
        break;
      }
      case flow: f.set("set_flow_control", (fc::type)mc::choose(3, "flow control"), f.opt.flow, true, [&](fc::type x) {return f.s->set_flow_control(x);}); break;
      case parity: f.set("set_parity", (pt::type)mc::choose(3, "parity"), f.opt.parity, true, [&](pt::type x) {return f.s->set_parity(x);}); break;
      case brk:
      {
        int b = breaks;
        fault = 0;
        auto r = f.s->send_break();
        MC_CHECK(r.has_value() == (f.open && !fault), "send_break: '%s'", r.has_error() ? r.error().message().c_str() : "no error");
        MC_CHECK(breaks - b == (f.open && !fault), "send_break: %d breaks", breaks - b);
        break;
      }
      case rd:
      case wr:
      {
        static const int ns[] = {1, 3, 0};
        int n = ns[mc::choose(e == rd ? 3 : 2, "size (1, 3, 0)")];
        request * r;
        {
          mc::quiet q;
          r = &f.rs.emplace_back(f.w);
          r->write = e == wr;
          for (int i = 0; i < n; i++) r->mem += char(e == wr ? f.fresh++ : 0);
          std::size_t cut = n > 1 ? 1 : n;
          r->mb.push_back(asio::buffer(r->mem.data(), cut));
          r->cb.push_back(asio::buffer(r->mem.data(), cut));
          if (n > 1)
          {
            r->mb.push_back(asio::buffer(r->mem.data() + cut, n - cut));
            r->cb.push_back(asio::buffer(r->mem.data() + cut, n - cut));
          }
          r->closed = !f.open;
          if (e == wr && f.open && !f.gone)
            f.out.insert(f.out.end(), r->mem.begin(), r->mem.end());
        }
        if (e == wr) f.write(r->ps, life_guard(f.frames), *r); else f.read(r->ps, life_guard(f.frames), *r);
        MC_CHECK(!r->done, "completed from within the initiation");
        if (r->closed)
          r->could = true;
        f.update();
        break;
      }
      case pw:
      {
        mc::quiet q;
        bytes b;
        for (int i = 0; i < 2; i++) b += char(f.fresh++);
        int had = 0;
        // the kernel moves them in the background
        int fd = f.s->native_handle();
        ::ioctl(fd, FIONREAD, &had);
        if (::write(f.master, b.data(), b.size()) != 2) std::abort();
        for (int i = 0, n = 0; i < 20000; i++)
        {
          ::ioctl(fd, FIONREAD, &n);
          if (n >= had + 2) break;
          ::usleep(50);
        }
        f.in.insert(f.in.end(), b.begin(), b.end());
        f.update();
        break;
      }
      case poll: f.settle(); f.collect(); break;
      case cancel:
      {
        auto r = f.s->cancel();
        MC_CHECK(r.has_value() == f.open, "cancel: '%s'", r.has_error() ? r.error().message().c_str() : "no error");
        for (auto & x : f.rs) f.abort(x);
        break;
      }
      case kill:
        f.rs[a].ps.signal.emit((asio::cancellation_type)(1 << mc::choose(3, "type")));
        f.abort(f.rs[a]);
        break;
      case close:
      {
        auto r = f.s->close();
        MC_CHECK(r.has_value(), "close fails");
        for (auto & x : f.rs) f.abort(x);
        f.w.drain();
        f.look();
        f.collect();
        f.open = false;
        {mc::quiet q; f.in.clear();}
        break;
      }
      case reopen:
      case assign:
        if (!f.open)
        {
          f.terminal();
          do_open(e == reopen ? opened : assigned);
        }
        else
        {
          int old = f.s->native_handle(), fd = -1;
          mc::set_dev_budget(0);
          auto keep = shadow;
          error_code ec;
          if (e == reopen) {auto r = f.s->open(f.device); if (r.has_error()) ec = r.error();}
          else
          {
            fd = ::dup(old);
            auto r = f.s->assign(fd);
            if (r.has_error()) ec = r.error();
            ::close(fd);
          }
          mc::set_dev_budget(1);
          shadow = keep;
          if (e == reopen && f.gone)
            break;
          MC_CHECK(ec == asio::error::already_open, "opening an open port: '%s'", ec.message().c_str());
          MC_CHECK(f.s->native_handle() == old, "the port has another descriptor now");
        }
        break;
      case move:
      {
        f.s = std::make_unique<io::serial_port>(std::move(*f.s));
        break;
      }
      case hup:
        f.settle();
        f.collect();
        ::close(f.master);
        f.master = -1;
        f.gone = true;
        {mc::quiet q; f.in.clear(); f.out.clear();}
        f.update();
        break;
    }
    if (!f.gone)
      f.check_options();
    mc::state(mc::mix(f.open + 2 * f.gone + 4 * f.in.size() + 64 * f.out.size(), mc::mix(f.opt.baud, f.opt.size + 16 * f.opt.flow + 64 * f.opt.parity)));
  }
  if (mc::failed())
    return;
  f.settle();
  f.collect();
  for (auto & x : f.rs) f.abort(x);
  f.s.reset();
  f.w.drain();
  f.look();
  for (auto & x : f.rs)
    MC_CHECK(x.handled && x.ps.destroyed, "does not end");
  MC_CHECK(f.frames == 0, "%d coroutines left", f.frames);
  mc::outcome(f.trail);
  mc::quiet q;
  st.reset();
  active = false;
  shadow.reset();
  MC_CHECK(open_fds() == fds, "descriptors leaked");
}
}

MC_MAIN()
{
  ::signal(SIGHUP, SIG_IGN);
  const bool th = mc::thorough();
  mc::add("options", [=] {run(options, th ? 4 : 3);}, {.leak_check = false});
  mc::add("bytes", [=] {run(bytes_, th ? 6 : 5);}, {.leak_check = false});
  mc::add("all", [=] {run(all, th ? 4 : 3);}, {.leak_check = false});
}
