// io::read, write, read_at, write_at: the loops over partial transfers
#include "cob.hpp"
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/io/stream.hpp>
#include <boost/cobalt/io/random_access_device.hpp>
#include <array>

using namespace cob;
namespace io = cobalt::io;

namespace
{
using handler_t = cobalt::completion_handler<error_code, std::size_t>;
using ready_t = cobalt::handler<error_code, std::size_t>;
enum mode {pending, ready, immediate, posted, throws, n_modes};
using ct_t = asio::cancellation_type;

// a device whose every transfer is up to the explorer
struct device
{
  bool write = false, at = false;
  std::uint64_t start = 0;                  // offset of the first transfer
  std::vector<unsigned char> data;          // what is read, or what was written
  std::size_t total = 0;                    // size of the user's buffers
  std::vector<unsigned char*> flat;         // the user's bytes, in order

  std::size_t m = 0;                        // bytes transferred
  bool failed = false, cancelled = false, thrown = false;
  bool resumed = false, suspended = false, has_try = true;
  int steps = 0, zeros = 0;
  error_code ec;
  std::optional<mode> next;
  std::vector<asio::mutable_buffer> bufs;
  std::optional<handler_t> h;
  int cancels = 0;
  ct_t last{};
  std::string trail;

  template<typename Seq>
  void check(const Seq & seq, std::uint64_t offset)
  {
    mc::quiet q;
    MC_CHECK(!h, "two transfers at a time");
    MC_CHECK(!resumed, "a transfer is started after the operation completed");
    MC_CHECK(!failed, "a transfer is started after the previous one failed");
    MC_CHECK(!cancelled, "a transfer is started after the operation was cancelled");
    MC_CHECK(m < total, "a transfer is started although all %zu bytes are transferred", total);
    if (at)
      MC_CHECK(offset == start + m, "the transfer is started at offset %llu instead of %llu", (unsigned long long)offset, (unsigned long long)(start + m));
    bufs.clear();
    std::size_t n = 0;
    visit(seq, [&](const auto & s)
    {
      for (auto itr = asio::buffer_sequence_begin(s); itr != asio::buffer_sequence_end(s); ++itr)
      {
        typename std::iterator_traits<decltype(itr)>::value_type b(*itr);
        auto p = static_cast<unsigned char*>(const_cast<void*>(b.data()));
        for (std::size_t i = 0; i < b.size(); i++, n++)
          MC_CHECK(m + n < total && flat[m + n] == p + i, "byte %zu of the buffer passed on is not byte %zu of the user's", n, m + n);
        bufs.push_back(asio::mutable_buffer(p, b.size()));
      }
    });
    MC_CHECK(n == total - m, "a buffer of %zu bytes is passed on instead of the remaining %zu", n, total - m);
  }
  mode decide()
  {
    if (!next)
    {
      // an exception after the operation was suspended leaves through the event loop, as from any asio handler
      next = (mode)mc::choose(suspended ? n_modes - 1 : n_modes, "the transfer completes (later, ready, immediately, posted, initiation throws)");
      if (*next == ready && !has_try)
        next = immediate;
    }
    return *next;
  }
  // how much is transferred, and if it failed
  std::pair<error_code, std::size_t> transfer(bool abort = false)
  {
    std::size_t rest = total - m;
    // nothing at all at most once, as this would be repeated infinitely
    bool zero = zeros == 0;
    std::size_t n = mc::choose((int)rest + 1, "bytes transferred");
    bool fail = abort || mc::choose(2, "the transfer (succeeds, fails)");
    if (n == 0 && !fail)
    {
      if (zero)
        zeros++;
      else
        n = rest;
    }
    std::size_t k = 0;
    for (auto & b : bufs)
      for (std::size_t i = 0; i < b.size() && k < n; i++, k++)
      {
        auto p = static_cast<unsigned char*>(b.data()) + i;
        if (write)
        {
          mc::quiet q;
          data.push_back(*p);
        }
        else
          *p = (unsigned char)(100 + m + k);
      }
    m += n;
    steps++;
    {mc::quiet q; trail += std::to_string(n) + (fail ? "!" : ",");}
    if (fail)
    {
      failed = true;
      ec = abort ? aborted_code() : user_code(7);
    }
    next.reset();
    return {fail ? ec : error_code{}, n};
  }
  template<typename Seq>
  void try_(const Seq & seq, std::uint64_t offset, ready_t hh)
  {
    if (decide() == ready)
    {
      check(seq, offset);
      auto [e, n] = transfer();
      hh(e, n);
    }
  }
  template<typename Seq>
  void initiate(const Seq & seq, std::uint64_t offset, handler_t hh)
  {
    check(seq, offset);
    switch (decide())
    {
      case throws:
        thrown = true;
        throw my_error(77);
      case immediate:
      {
        auto [e, n] = transfer();
        auto ex = asio::get_associated_immediate_executor(hh, hh.get_executor());
        asio::dispatch(ex, [hh = std::move(hh), e, n]() mutable {std::move(hh)(e, n);});
        return;
      }
      case posted:
      {
        auto [e, n] = transfer();
        suspended = true;
        auto ex = hh.get_executor();
        asio::post(ex, asio::append(std::move(hh), e, n));
        return;
      }
      default:
        break;
    }
    suspended = true;
    {mc::quiet q; h.emplace(std::move(hh));}
    auto slot = h->get_cancellation_slot();
    if (slot.is_connected())
      slot.assign([this](ct_t ct) {cancels++; last = ct;});
  }
  handler_t take()
  {
    auto slot = h->get_cancellation_slot();
    if (slot.is_connected())
      slot.clear();
    auto hh = std::move(*h);
    h.reset();
    return hh;
  }

  static void read_(void * p, io::mutable_buffer_sequence b, handler_t h) {static_cast<device*>(p)->initiate(b, 0, std::move(h));}
  static void try_read_(void * p, io::mutable_buffer_sequence b, ready_t h) {static_cast<device*>(p)->try_(b, 0, std::move(h));}
  static void write_(void * p, io::const_buffer_sequence b, handler_t h) {static_cast<device*>(p)->initiate(b, 0, std::move(h));}
  static void try_write_(void * p, io::const_buffer_sequence b, ready_t h) {static_cast<device*>(p)->try_(b, 0, std::move(h));}
  static void read_at_(void * p, std::uint64_t o, io::mutable_buffer_sequence b, handler_t h) {static_cast<device*>(p)->initiate(b, o, std::move(h));}
  static void try_read_at_(void * p, std::uint64_t o, io::mutable_buffer_sequence b, ready_t h) {static_cast<device*>(p)->try_(b, o, std::move(h));}
  static void write_at_(void * p, std::uint64_t o, io::const_buffer_sequence b, handler_t h) {static_cast<device*>(p)->initiate(b, o, std::move(h));}
  static void try_write_at_(void * p, std::uint64_t o, io::const_buffer_sequence b, ready_t h) {static_cast<device*>(p)->try_(b, o, std::move(h));}
};

struct stream final : io::stream
{
  device * d;
  stream(device & d) : d(&d) {}
  io::read_op read_some(io::mutable_buffer_sequence b) override {return {b, d, device::read_, d->has_try ? device::try_read_ : nullptr};}
  io::write_op write_some(io::const_buffer_sequence b) override {return {b, d, device::write_, d->has_try ? device::try_write_ : nullptr};}
};
struct file final : io::random_access_device
{
  device * d;
  file(device & d) : d(&d) {}
  io::read_at_op read_some_at(std::uint64_t o, io::mutable_buffer_sequence b) override {return {o, b, d, device::read_at_, d->has_try ? device::try_read_at_ : nullptr};}
  io::write_at_op write_some_at(std::uint64_t o, io::const_buffer_sequence b) override {return {o, b, d, device::write_at_, d->has_try ? device::try_write_at_ : nullptr};}
};

struct result
{
  bool finished = false, threw = false;
  int api = 0, error = -1;
  std::size_t n = 0;
};

template<int Kind, typename Buf>
auto make_op(stream & s, file & f, Buf b, std::uint64_t off)
{
  if constexpr (Kind == 0) return io::read(s, b);
  else if constexpr (Kind == 1) return io::write(s, b);
  else if constexpr (Kind == 2) return io::read_at(f, off, b);
  else return io::write_at(f, off, b);
}

#define AWAITER                                                                                   \
  r.api = mc::choose(3, "await (plain, as_result, as_tuple)");                                    \
  try                                                                                             \
  {                                                                                               \
    if (r.api == 0)                                                                               \
      r.n = co_await make_op<Kind>(s, f, b, d.start);                                             \
    else if (r.api == 1)                                                                          \
    {                                                                                             \
      auto x = co_await cobalt::as_result(make_op<Kind>(s, f, b, d.start));                       \
      if (x.has_error()) r.error = error_id(std::make_exception_ptr(boost::system::system_error(x.error()))); \
      else               r.n = *x;                                                                \
    }                                                                                             \
    else                                                                                          \
    {                                                                                             \
      auto [ec, n] = co_await cobalt::as_tuple(make_op<Kind>(s, f, b, d.start));                  \
      if (ec) r.error = error_id(std::make_exception_ptr(boost::system::system_error(ec)));       \
      r.n = n;                                                                                    \
    }                                                                                             \
  }                                                                                               \
  catch (...) {r.threw = true; r.error = error_id(std::current_exception());}                     \
  MC_CHECK(!d.resumed, "resumed again");                                                          \
  MC_CHECK(!d.h, "resumed while a transfer is pending");                                          \
  d.resumed = true;                                                                               \
  r.finished = true;

template<int Kind, typename Buf>
proc as_proc(proc_state &, life_guard, device & d, stream & s, file & f, Buf b, result & r) {AWAITER}
template<int Kind, typename Buf>
cobalt::promise<void> as_promise(life_guard, device & d, stream & s, file & f, Buf b, result & r)
{
  co_await cobalt::this_coro::throw_if_cancelled(false);
  AWAITER
}

template<int Kind>
void run(int coro, std::vector<std::size_t> sizes, int max_cancels)
{
  constexpr bool write = Kind & 1;
  using buffer_t = std::conditional_t<write, asio::const_buffer, asio::mutable_buffer>;
  using seq_t = std::conditional_t<write, io::const_buffer_sequence, io::mutable_buffer_sequence>;
  struct all_t
  {
    device d;
    world w;
    proc_state ps{w};
    std::vector<std::vector<unsigned char>> mem;
    std::vector<buffer_t> bufs;
    result r;
    int frames = 0;
  };
  std::optional<all_t> store;
  {mc::quiet q; store.emplace();}
  auto & [d, w, ps, mem, bufs, r, frames] = *store;
  d.write = write;
  d.at = Kind >= 2;
  d.has_try = mc::choose(2, "the device has a try function (yes, no)") == 0;
  {
    mc::quiet q;
    unsigned char x = 1;
    for (auto s : sizes)
      mem.emplace_back(s + 1, 0xee);      // a guard behind each buffer
    for (std::size_t i = 0; i < sizes.size(); i++)
    {
      for (std::size_t j = 0; j < sizes[i]; j++)
      {
        mem[i][j] = x++;
        d.flat.push_back(&mem[i][j]);
      }
      bufs.push_back(buffer_t(mem[i].data(), sizes[i]));
    }
    d.total = d.flat.size();
    if (d.at)
      d.start = mc::choose(2, "offset (5, beyond 32 bits)") ? (1ull << 32) - 2 : 5;
  }
  stream s(d);
  file f(d);
  std::optional<seq_t> seq;
  if (sizes.size() == 1 && mc::choose(2, "as a single buffer"))
    seq.emplace(bufs[0]);
  else
    seq.emplace(std::span<const buffer_t>(bufs));

  std::optional<cobalt::promise<void>> p;
  if (coro == 0)
    as_proc<Kind>(ps, life_guard(frames), d, s, f, *seq, r);
  else
    p.emplace(as_promise<Kind>(life_guard(frames), d, s, f, *seq, r));
  int cancels = 0, steps = 0;
  bool abandoned = false;
  while (!mc::failed() && !r.finished && !abandoned)
  {
    MC_CHECK(frames == 1, "%d frames alive", frames);
    mc::state(mc::mix(d.m * 256 + d.total, cancels * 16 + d.failed * 2 + d.h.has_value() + 1024 * d.zeros));
    MC_CHECK(++steps < 100, "livelock");
    if (!d.h)
    {
      if (!w.poll_one())
        mc::fail("neither completed, nor is a transfer pending");
      continue;
    }
    mc::step();
    switch (mc::choose(cancels < max_cancels ? 5 : 4, "event (the transfer completes, is aborted, completes through the executor, is abandoned, cancel)"))
    {
      case 0:
      {
        auto h = d.take();
        auto [e, n] = d.transfer();
        std::move(h)(e, n);
        break;
      }
      case 1:
      {
        auto h = d.take();
        auto [e, n] = d.transfer(true);
        std::move(h)(e, n);
        break;
      }
      case 2:
      {
        auto h = d.take();
        auto [e, n] = d.transfer();
        auto ex = h.get_executor();
        asio::post(ex, asio::append(std::move(h), e, n));
        break;
      }
      case 3:
      {
        abandoned = true;
        auto h = d.take();
        (void)h;
        break;
      }
      case 4:
      {
        cancels++;
        auto ct = (ct_t)(1 << mc::choose(3, "type (terminal, partial, total)"));
        {mc::quiet q; d.trail += "c";}
        int before = d.cancels;
        if (coro == 0)
          ps.signal.emit(ct);
        else
          p->cancel(ct);
        MC_CHECK(d.cancels == before + 1 && d.last == ct, "the cancellation did not reach the transfer");
        d.cancelled = true;
      }
    }
  }
  if (mc::failed())
    return;
  w.drain();
  MC_CHECK(frames == 0, "the coroutine is not destroyed");
  if (!abandoned)
  {
    MC_CHECK(d.failed || d.cancelled || d.thrown || d.m == d.total, "completed after %zu of %zu bytes", d.m, d.total);
    if (d.thrown)
      MC_CHECK(r.threw && r.error == 77, "the exception of the initiation is gone");
    else
    {
      if (d.failed)
        MC_CHECK(r.error == (d.ec == aborted_code() ? int(e_aborted) : 7), "completed with error %d instead of the one of the transfer", r.error);
      else if (d.cancelled && d.m < d.total)
        MC_CHECK(r.error == e_aborted, "completed with error %d although cancelled", r.error);
      else if (!d.cancelled)
        MC_CHECK(r.error == -1, "completed with error %d, although no transfer failed", r.error);
      else
        MC_CHECK(r.error == -1 || r.error == e_aborted, "completed with error %d, although no transfer failed", r.error);
      MC_CHECK(r.threw == (r.error != -1 && r.api == 0), "wrong way to report an error");
      if (r.api == 2 || r.error == -1)
        MC_CHECK(r.n == d.m, "reports %zu bytes instead of %zu", r.n, d.m);
    }
  }
  // the bytes are in order, and nothing else was touched
  if (write)
    for (std::size_t i = 0; i < d.data.size(); i++)
      MC_CHECK(d.data[i] == i + 1, "byte %zu written is wrong", i);
  else
    for (std::size_t i = 0; i < d.total; i++)
      MC_CHECK(*d.flat[i] == (i < d.m ? 100 + i : 1 + i), "byte %zu of the buffer is wrong", i);
  for (auto & v : mem)
    MC_CHECK(v.back() == 0xee, "written beyond the buffer");
  p.reset();
  mc::outcome(d.trail + (abandoned ? "#" : "=" + std::to_string(r.error)));
  mc::quiet q;
  store.reset();
}

template<int Kind>
void add_all(const char * name)
{
  std::vector<std::vector<std::size_t>> shapes{{}, {0}, {2}, {1, 1}, {0, 2}, {2, 0}, {1, 0, 1}};
  if (mc::thorough())
    shapes.insert(shapes.end(), {{3}, {1, 2}, {2, 1}, {1, 1, 1}, {0, 3}});
  for (auto & s : shapes)
  {
    std::string n;
    for (auto i : s)
      n += (n.empty() ? "" : "+") + std::to_string(i);
    for (int c = 0; c < 2; c++)
      mc::add(std::string(name) + (c ? "/promise/" : "/foreign coroutine/") + n, [=] {run<Kind>(c, s, 1);});
  }
}
}

MC_MAIN()
{
  add_all<0>("read");
  add_all<1>("write");
  add_all<2>("read_at");
  add_all<3>("write_at");
}
