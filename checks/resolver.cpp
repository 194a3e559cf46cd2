// resolver & lookup with a scripted getaddrinfo
#include "cob.hpp"
#include <boost/cobalt/io/resolver.hpp>

#include <condition_variable>
#include <mutex>
#include <netdb.h>
#include <netinet/in.h>
#include <thread>

using namespace cob;
namespace io = cobalt::io;

// ------------------------------------------------------------------ the system's resolver
namespace
{
struct script_t          // what happens to a query; index = host
{
  int error = 0;
  int n = 0;             // results
  int shape = 0;
  bool slow = false;     // waits for the gate
  // what was asked
  int asked = 0, flags = -1, family = -1, type = -1;
  std::string service;
};
std::mutex mtx;
std::condition_variable cv;
script_t scripts[3];
bool gate = true;
int allocated = 0;

// the addresses of result k
std::string address(int host, int shape, int k, int * fam)
{
  if ((shape + k) % 2)
  {
    sockaddr_in6 a{};
    a.sin6_family = *fam = AF_INET6;
    a.sin6_port = htons(1000 + host * 10 + k);
    a.sin6_addr.s6_addr[0] = 0xfe;
    a.sin6_addr.s6_addr[15] = host * 16 + k;
    a.sin6_scope_id = k;
    return std::string(reinterpret_cast<char*>(&a), sizeof(a));
  }
  sockaddr_in a{};
  a.sin_family = *fam = AF_INET;
  a.sin_port = htons(1000 + host * 10 + k);
  a.sin_addr.s_addr = htonl(0x0a000000 + host * 256 + k);
  return std::string(reinterpret_cast<char*>(&a), sizeof(a));
}
}
extern "C" int getaddrinfo(const char * host, const char * service, const addrinfo * hints, addrinfo ** res)
{
  mc::quiet q;
  std::unique_lock lock(mtx);
  int h = host && host[0] == 'h' && host[1] >= '0' && host[1] <= '2' && !host[2] ? host[1] - '0' : -1;
  if (h < 0)
    return EAI_NONAME;
  auto & s = scripts[h];
  s.asked++;
  s.service = service ? service : "(none)";
  s.flags = hints->ai_flags;
  s.family = hints->ai_family;
  s.type = hints->ai_socktype;
  if (s.slow)
    cv.wait(lock, [] {return gate;});
  if (s.error)
    return s.error;
  *res = nullptr;
  auto tail = res;
  for (int k = 0; k < s.n; k++)
  {
    int fam;
    auto a = address(h, s.shape, k, &fam);
    auto ai = static_cast<addrinfo*>(std::calloc(1, sizeof(addrinfo) + a.size()));
    allocated++;
    ai->ai_family = fam;
    ai->ai_socktype = SOCK_STREAM;
    ai->ai_addrlen = a.size();
    ai->ai_addr = reinterpret_cast<sockaddr*>(ai + 1);
    std::memcpy(ai->ai_addr, a.data(), a.size());
    *tail = ai;
    tail = &ai->ai_next;
  }
  return 0;
}
extern "C" void freeaddrinfo(addrinfo * ai) noexcept
{
  mc::quiet q;
  std::unique_lock lock(mtx);
  while (ai)
  {
    auto n = ai->ai_next;
    std::free(ai);
    allocated--;
    ai = n;
  }
}

namespace
{
using ct_t = asio::cancellation_type;

template<typename F, typename Op = std::invoke_result_t<F>>
struct watched
{
  int & depth;
  Op op;
  decltype(std::declval<Op&>().operator co_await()) a{op.operator co_await()};
  watched(int & d, F f) : depth(d), op(f()) {}
  watched(const watched &) = delete;
  bool await_ready() {return a.await_ready();}
  template<typename P>
  auto await_suspend(std::coroutine_handle<P> h)
  {
    auto & d = depth;
    d++;
    auto r = a.await_suspend(h);
    d--;
    return r;
  }
  auto await_resume()
  {
    MC_CHECK(depth == 0, "completed from within the initiation");
    return a.await_resume(cobalt::as_tuple_tag{});
  }
};

struct query
{
  proc_state ps;
  int host = 0, depth = 0, resumed = 0;
  bool lookup = false, done = false, handled = false, may_abort = false, must_abort = false;
  std::thread::id thread;
  error_code ec;
  io::endpoint_sequence eps;
  query(world & w) : ps(w) {}
};

struct fixture
{
  std::deque<query> qs;
  int frames = 0;
  world w;
  std::optional<io::resolver> r;
  std::string trail;

  template<typename F>
  proc run(proc_state &, life_guard, query & me, F f)
  {
    std::tie(me.ec, me.eps) = co_await watched(me.depth, f);
    me.resumed++;
    me.thread = std::this_thread::get_id();
    me.done = true;
  }
  int pending() const
  {
    int n = 0;
    for (auto & q : qs) n += !q.done;
    return n;
  }
  void look()
  {
    for (auto & q : qs)
    {
      if (!q.done || q.handled)
        continue;
      q.handled = true;
      auto & s = scripts[q.host];
      MC_CHECK(q.resumed == 1, "resumed %d times", q.resumed);
      MC_CHECK(q.thread == std::this_thread::get_id(), "completed on another thread");
      if (q.ec == asio::error::operation_aborted)
      {
        MC_CHECK(q.may_abort, "aborted, although it was not cancelled");
        MC_CHECK(q.eps.empty(), "aborted, but with endpoints");
        continue;
      }
      MC_CHECK(!q.must_abort, "completes although it was cancelled");
      MC_CHECK(s.asked >= 1, "completes without being asked");
      error_code e;
      switch (s.error)
      {
        case 0: break;
        case EAI_NONAME: e = asio::error::host_not_found; break;
        case EAI_AGAIN: e = asio::error::host_not_found_try_again; break;
        case EAI_SERVICE: e = asio::error::service_not_found; break;
        case EAI_MEMORY: e = asio::error::no_memory; break;
      }
      MC_CHECK(q.ec == e, "yields '%s' instead of '%s'", q.ec.message().c_str(), e.message().c_str());
      std::size_t n = s.error ? 0 : s.n;
      MC_CHECK(q.eps.size() == n, "yields %zu endpoints instead of %zu", q.eps.size(), n);
      for (std::size_t k = 0; k < n && k < q.eps.size(); k++)
      {
        int fam;
        mc::quiet qq;
        auto a = address(q.host, s.shape, k, &fam);
        auto & ep = q.eps[k];
        MC_CHECK(ep.size() == a.size() && std::memcmp(ep.data(), a.data(), a.size()) == 0, "endpoint %zu is wrong", k);
        MC_CHECK(ep.protocol().family() == fam && ep.protocol().type() == 0, "the protocol of endpoint %zu is wrong", k);
      }
    }
  }
  // until what can complete has completed
  void settle()
  {
    w.drain();
    auto open = [&]
    {
      for (auto & q : qs)
        if (!q.done && (gate || !blocked))
          return true;
      return false;
    };
    for (int i = 0; open() && i < 2000 && !mc::failed(); i++)
    {
      w.ctx.run_one_for(std::chrono::milliseconds(5));
      w.drain();
    }
    MC_CHECK(!open(), "does not complete");
    look();
  }
  bool blocked = false;       // the background thread is busy with a slow query
};

void run(int depth)
{
  std::optional<fixture> st;
  {
    mc::quiet q;
    for (auto & s : scripts) s = {};
    gate = true;
    st.emplace();
  }
  auto & f = *st;
  {
    mc::quiet q;      // the background thread
    f.r.emplace();
  }
  static constexpr int errors[] = {0, 0, 0, EAI_NONAME, EAI_AGAIN, EAI_SERVICE, EAI_MEMORY};
  bool dirty = false;
  for (int step = 0; step < depth && !mc::failed(); step++)
  {
    mc::step();
    struct event {char what; int a;};
    std::vector<event> menu;
    {
      mc::quiet q;
      if (f.qs.size() < 3)
      {
        if (f.r) menu.push_back({'r', 0});
        menu.push_back({'l', 0});
      }
      if (f.r) {menu.push_back({'c', 0}); menu.push_back({'d', 0});}
      if (dirty || !gate) menu.push_back({'p', 0});
      for (int n = 0; n < (int)f.qs.size(); n++)
        if (!f.qs[n].done)
          menu.push_back({'k', n});
    }
    if (menu.empty()) break;
    auto ev = menu[mc::choose((int)menu.size(), "event (resolve, lookup, cancel, destroy, poll, kill)")];
    {mc::quiet q; f.trail += ev.what; menu = {};}
    if (mc::logging()) mc::note("event %c%d", ev.what, ev.a);
    switch (ev.what)
    {
      case 'r':
      case 'l':
      {
        int h = (int)f.qs.size();
        {
          mc::quiet q;
          f.qs.emplace_back(f.w);
        }
        auto & me = f.qs.back();
        me.host = h;
        me.lookup = ev.what == 'l';
        int o = mc::choose(h == 0 || mc::thorough() ? 7 : 4, "(nothing, one, three, not found, again, service, memory)");
        bool slow = gate && !f.blocked && mc::choose(2, "(at once, slow)");
        {
          std::unique_lock lock(mtx);
          auto & s = scripts[h];
          s.error = errors[o];
          s.n = o == 0 ? 0 : o == 1 ? 1 : 3;
          s.shape = h % 2;
          s.slow = slow;
          if (slow)
          {
            gate = false;
            f.blocked = true;
          }
        }
        static constexpr io::resolver::flags fls[] = {io::resolver::flags{}, io::resolver::flags::passive, io::resolver::flags::numeric_host};
        auto fl = fls[h];
        // the strings don't outlive the initiation
        std::string host, service;
        {mc::quiet q; host = "h" + std::to_string(h); service = "service-" + std::to_string(h);}
        if (me.lookup)
          f.run(me.ps, life_guard(f.frames), me, [&] {return io::lookup(host, service, cobalt::this_thread::get_executor(), fl);});
        else
          f.run(me.ps, life_guard(f.frames), me, [&] {return f.r->resolve(host, service, fl);});
        {
          mc::quiet q;
          std::fill(host.begin(), host.end(), '?');
          std::fill(service.begin(), service.end(), '?');
          host = {};
          service = {};
        }
        MC_CHECK(!me.done, "completes from within the initiation");
        // the background thread takes them in order, one at a time
        if (!f.blocked || slow)
          for (int i = 0; i < 100000; i++)
          {
            {
              std::unique_lock lock(mtx);
              if (scripts[h].asked) break;
            }
            std::this_thread::sleep_for(std::chrono::microseconds(i < 100 ? 10 : 100));
          }
        dirty = true;
        break;
      }
      case 'c':
        f.r->cancel();
        for (auto & q : f.qs)
          if (!q.done && !q.lookup)
          {
            q.may_abort = true;
            // still waits for its turn
            std::unique_lock lock(mtx);
            if (!scripts[q.host].asked)
              q.must_abort = true;
          }
        break;
      case 'd':
        f.r.reset();
        for (auto & q : f.qs)
          if (!q.done && !q.lookup)
          {
            q.may_abort = true;
            // still waits for its turn
            std::unique_lock lock(mtx);
            if (!scripts[q.host].asked)
              q.must_abort = true;
          }
        break;
      case 'k':        // not supported, so it must not do any harm
        f.qs[ev.a].ps.signal.emit((ct_t)(1 << mc::choose(mc::thorough() ? 3 : 1, "type")));
        f.qs[ev.a].may_abort = true;
        break;
      case 'p':
        if (f.blocked && mc::choose(2, "(wait, the slow query is answered)"))
        {
          std::unique_lock lock(mtx);
          gate = true;
          f.blocked = false;
          cv.notify_all();
        }
        f.settle();
        dirty = false;
        break;
    }
    std::uint64_t h = f.blocked * 2 + f.r.has_value();
    for (auto & q : f.qs) h = mc::mix(h, q.lookup * 4 + q.done * 2 + q.may_abort);
    mc::state(h);
  }
  bool end = mc::choose(2, "finally (everything ends, everything is destroyed)");
  {
    std::unique_lock lock(mtx);
    gate = true;
    f.blocked = false;
    cv.notify_all();
  }
  if (!mc::failed() && end == 0)
  {
    f.settle();
    for (auto & q : f.qs)
    {
      MC_CHECK(q.done && q.ps.destroyed, "does not end");
      auto & s = scripts[q.host];
      if (q.must_abort)
        MC_CHECK(!s.asked, "the system is asked although it was cancelled");
      if (!q.may_abort)
      {
        mc::quiet qq;
        MC_CHECK(s.asked == 1, "asked %d times", s.asked);
        MC_CHECK(s.service == "service-" + std::to_string(q.host), "asked for the service '%s'", s.service.c_str());
        static constexpr int fls[] = {0, AI_PASSIVE, AI_NUMERICHOST};
        MC_CHECK(s.flags == fls[q.host], "the flags are %x", s.flags);
        MC_CHECK(s.family == AF_UNSPEC, "the family is %d", s.family);
      }
    }
    MC_CHECK(f.frames == 0, "%d frames alive", f.frames);
  }
  if (mc::failed()) return;
  mc::outcome(f.trail);
  f.r.reset();
  for (auto & q : f.qs) {q.eps.clear(); q.eps.shrink_to_fit();}
  mc::quiet q;
  st.reset();
  MC_CHECK(allocated == 0, "%d results of the system leak", allocated);
}
}

MC_MAIN()
{
  bool th = mc::thorough();
  mc::add("resolver", [=] {run(th ? 5 : 4);}, {.leak_check = true});
}
