// co_main: its result, the signals, and what is left behind.  Compiled with -Dmain=cobalt_main, so that cobalt's
// main() becomes a function the driver can call over and over.
#include <boost/cobalt/main.hpp>
#include "cob.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>

#include <csignal>
#include <dlfcn.h>
#include <poll.h>
#include <sys/epoll.h>

using namespace cob;

namespace
{
using ct_t = asio::cancellation_type;
struct blocks_forever {};
bool in_main = false;
}

// nothing outside of the execution can make a file descriptor ready, thus a wait that doesn't time out and
// isn't over at once lasts forever.
extern "C" int epoll_wait(int fd, epoll_event * ev, int n, int timeout)
{
  static auto real = reinterpret_cast<int(*)(int, epoll_event*, int, int)>(dlsym(RTLD_NEXT, "epoll_wait"));
  int r = real(fd, ev, n, 0);
  if (r == 0 && timeout != 0 && in_main)
  {
    mc::fail("the process waits forever");
    throw blocks_forever{};
  }
  return r;
}

namespace
{
enum nesting {plain, in_promise, in_task};

struct runner
{
  nesting how;
  int steps, events, max_signals;
  ctl_state op;
  asio::io_context * ctx = nullptr;
  int frames = 0;
  int raised[2] = {0, 0};        // SIGINT, SIGTERM
  int age = 1000;                // handlers since the last signal
  int cancels = 0;               // cancellations seen in total
  int int_seen = 0, term_seen = 0;
  int raised_at_suspend = 0, cancelled_at_suspend = 0;
  bool settled_at_suspend = true;
  int events_left = 0;
  bool finished = false, throws = false;
  int code = 0;
  std::string trail;

  int total() {return raised[0] + raised[1];}
  bool settled() {return age > 6 * total() + 2;}

  void drive()
  {
    if (mc::failed() || finished)
      return;
    age++;
    mc::step();
    if (op.pending)
    {
      // what the operation has received
      MC_CHECK(op.n_cancel <= total(), "the operation is cancelled %d times for %d signals", op.n_cancel, total());
      if (settled() && settled_at_suspend)
      {
        MC_CHECK(op.n_cancel == total() - raised_at_suspend,
                 "%d signals were raised but the operation was cancelled %d times", total() - raised_at_suspend, op.n_cancel);
        if (op.n_cancel == 1)
          MC_CHECK(op.last_cancel == last_raised, "the signal cancels with type %d", (int)op.last_cancel);
      }
      // one event: 0 completes, 1 fails, 2/3 signals, 4 nothing happens until everything has settled
      bool can_signal = total() < max_signals;
      int c = events_left <= 0 ? 0 : mc::choose(settled() ? (can_signal ? 4 : 2) : (can_signal ? 5 : 3), "event (completes, fails, [SIGINT, SIGTERM,] time passes)");
      if (!can_signal && c == 2)
        c = 4;
      events_left--;
      if (c == 2 || c == 3)
      {
        age = 0;
        trail += c == 2 ? 'I' : 'T';
        raised[c - 2]++;
        last_raised = c == 2 ? ct_t::total : ct_t::terminal;
        std::raise(c == 2 ? SIGINT : SIGTERM);
      }
      else if (c == 4)
      {
        trail += 'w';
        wait = 6 * total() + 3;
        post_wait();
        return;
      }
      if (c >= 2)
      {
        // how long until the next event
        post();
        return;
      }
      post();
      trail += c ? 'e' : 'c';
      op.complete(c ? err(44) : val(7));
      return;
    }
    post();
  }
  ct_t last_raised = ct_t::none;
  int wait = 0;
  void post_wait()
  {
    asio::post(*ctx, [this]
    {
      age++;
      if (finished || mc::failed())
        return;
      if (--wait > 0)
        post_wait();
      else
        drive();
    });
  }
  void post()
  {
    asio::post(*ctx, [this] {drive();});
  }

  cobalt::promise<int> sub_promise(life_guard) {co_return co_await ctl<int>{&op};}
  cobalt::task<int> sub_task(life_guard) {co_return co_await ctl<int>{&op};}

  cobalt::main body();
  void run();
};
runner * cur = nullptr;
}

cobalt::main co_main(int argc, char * argv[])
{
  auto & r = *cur;
  life_guard lg(r.frames);
  MC_CHECK(argc == 2 && argv[0][0] == 'x', "wrong arguments");
  auto ex = co_await cobalt::this_coro::executor;
  MC_CHECK(ex == cobalt::this_thread::get_executor(), "the executor of main isn't the one of the thread");
  auto * io = ex.template target<asio::io_context::executor_type>();
  MC_CHECK(io != nullptr, "main does not run in an io_context");
  if (mc::failed())
    co_return 0;
  r.ctx = &io->context();
  r.post();
  for (int i = 0; i < r.steps && !mc::failed(); i++)
  {
    int c = mc::choose(4, "main does (await, stop, ignore cancellations, only terminal cancellations)");
    if (c == 1)
      break;
    bool filtered = false;
    if (c == 2)
    {
      r.trail += 'n';
      filtered = true;
      co_await cobalt::this_coro::reset_cancellation_state(asio::disable_cancellation());
    }
    if (c == 3)
    {
      r.trail += 't';
      filtered = true;
      co_await cobalt::this_coro::reset_cancellation_state(asio::enable_terminal_cancellation());
    }
    // an await
    result_t got;
    r.op.n_cancel = 0;
    r.raised_at_suspend = r.total();
    r.settled_at_suspend = r.settled() && !filtered;
    int before = r.op.n_suspend;
    const int raised_before = r.raised[0] + r.raised[1], term_before = r.raised[1];
    bool cancelled = (co_await cobalt::this_coro::cancelled) != ct_t::none;
    try
    {
      if (r.how == in_promise) got = val(co_await r.sub_promise(life_guard(r.frames)));
      else if (r.how == in_task) got = val(co_await r.sub_task(life_guard(r.frames)));
      else got = val(co_await ctl<int>{&r.op});
    }
    catch (...) {got = err(std::current_exception());}
    r.trail += got.str();
    if (cancelled)
    {
      MC_CHECK(got == err(e_aborted), "main is cancelled, but an await yields %s", got.str().c_str());
      MC_CHECK(r.how == in_promise || r.op.n_suspend == before, "main is cancelled, but starts an operation");
    }
    else
    {
      MC_CHECK(got == r.op.result, "the await yields %s instead of %s", got.str().c_str(), r.op.result.str().c_str());
      MC_CHECK(r.op.n_suspend == before + 1, "the operation wasn't started");
    }
    if (c == 2)
      MC_CHECK(r.op.n_cancel == 0, "a disabled cancellation reaches the operation");
    if (c == 3)
      MC_CHECK(r.op.n_cancel == 0 || r.op.last_cancel == ct_t::terminal, "a filtered cancellation reaches the operation");
    auto now = co_await cobalt::this_coro::cancelled;
    if (c == 2)
      MC_CHECK(now == ct_t::none, "a disabled cancellation is recorded");
    if (c == 3)
      MC_CHECK(now == ct_t::none || now == ct_t::terminal, "a filtered cancellation is recorded");
    MC_CHECK(now == ct_t::none || r.total() > 0, "cancelled without a signal");
    (void)raised_before; (void)term_before;
    mc::state(mc::mix(r.total() * 16 + (int)now, i));
    // start afresh
    co_await cobalt::this_coro::reset_cancellation_state(asio::enable_total_cancellation());
  }
  r.code = 3 + mc::choose(2, "exit code");
  r.finished = true;
  co_return r.code;
}

namespace
{
void runner::run()
{
  cur = this;
  char x[] = "x", y[] = "y";
  char * argv[] = {x, y, nullptr};
  events_left = events;
  auto mem = cobalt::this_thread::get_default_resource();
  int res = -99;
  in_main = true;
  try
  {
    res = cobalt::detail::cobalt_main(2, argv);
  }
  catch (blocks_forever &) {}
  catch (...) {mc::fail("main throws %s", what(std::current_exception()).c_str());}
  in_main = false;
  if (mc::failed())
    return;
  MC_CHECK(finished, "the process ends before co_main does");
  MC_CHECK(res == code, "the exit code is %d instead of %d", res, code);
  MC_CHECK(frames == 0, "co_main isn't destroyed");
  MC_CHECK(cobalt::this_thread::get_default_resource() == mem, "the default resource isn't restored");
  // the signals are as they were
  for (int s : {SIGINT, SIGTERM})
  {
    struct sigaction sa{};
    sigaction(s, nullptr, &sa);
    MC_CHECK(sa.sa_handler == SIG_DFL, "signal %d is still handled", s);
  }
  mc::outcome(trail + "=" + std::to_string(res));
}
}

#undef main
MC_MAIN()
{
  const int steps = mc::thorough() ? 4 : 3, events = mc::thorough() ? 9 : 7, sigs = mc::thorough() ? 3 : 2;
  struct {nesting n; const char * name;} ks[] = {{plain, "an operation"}, {in_promise, "a promise"}, {in_task, "a task"}};
  for (auto k : ks)
    mc::add(std::string("main/awaiting ") + k.name + "/awaits<=" + std::to_string(steps) + "/events<=" + std::to_string(events) + "/signals<=" + std::to_string(sigs), [=]
    {
      std::optional<runner> r;
      {mc::quiet q; r.emplace(); r->how = k.n; r->steps = steps; r->events = events; r->max_signals = sigs;}
      r->run();
      {mc::quiet q; r.reset();}
    });
}
