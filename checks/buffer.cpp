// const_buffer_sequence & mutable_buffer_sequence against the flat list of bytes they denote
#include "cob.hpp"
#include <boost/cobalt/io/buffer.hpp>
#include <array>

using namespace cob;
namespace io = cobalt::io;

namespace
{
template<typename Seq, typename Buf>
struct runner
{
  std::vector<std::vector<unsigned char>> mem;
  std::vector<Buf> bufs;
  std::vector<const unsigned char*> flat;      // what's left

  static const unsigned char * data(const Buf & b) {return static_cast<const unsigned char*>(b.data());}

  void verify(const Seq & s)
  {
    mc::quiet q;
    auto fail_at = [&](const char * how, std::size_t i) {mc::fail("%s: byte %zu is not byte %zu of the buffers", how, i, i);};
    std::vector<const unsigned char*> got;
    auto add = [&](const Buf & b) {for (std::size_t i = 0; i < b.size(); i++) got.push_back(data(b) + i);};
    auto same = [&](const char * how)
    {
      MC_CHECK(got.size() == flat.size(), "%s: %zu bytes instead of %zu", how, got.size(), flat.size());
      for (std::size_t i = 0; i < flat.size(); i++)
        if (got[i] != flat[i])
          return fail_at(how, i);
      got.clear();
    };
    MC_CHECK(asio::buffer_size(s) == flat.size(), "buffer_size is %zu instead of %zu", asio::buffer_size(s), flat.size());
    auto n = (std::ptrdiff_t)s.buffer_count();
    MC_CHECK(n >= 1, "buffer_count is 0");
    MC_CHECK(s.end() - s.begin() == n, "end() - begin() is %td instead of %td", s.end() - s.begin(), n);
    for (const Buf & b : s) add(b);
    same("forward iteration");
    for (auto i = s.begin(); i != s.end(); i++) add(Buf(i->data(), i->size()));
    same("post increment");
    for (auto i = s.end(); i != s.begin();)
    {
      --i;
      for (std::size_t k = i->size(); k > 0; k--) got.push_back(data(*i) + k - 1);
    }
    std::reverse(got.begin(), got.end());
    same("backward iteration");
    for (auto i = s.end(); i != s.begin();)
    {
      auto o = i--;
      MC_CHECK(o - i == 1 && i - o == -1, "post decrement");
      for (std::size_t k = i->size(); k > 0; k--) got.push_back(data(*i) + k - 1);
    }
    std::reverse(got.begin(), got.end());
    same("post decrement");
    for (std::ptrdiff_t i = 0; i < n; i++) add(s.begin()[i]);
    same("operator[]");
    for (std::ptrdiff_t i = 0; i < n; i++) add(s.end()[i - n]);
    same("operator[] of the end");
    for (std::ptrdiff_t i = 0; i < n; i++) add(*(s.begin() + i));
    same("operator+");
    for (std::ptrdiff_t i = n; i > 0; i--) add(*(s.end() - i));
    same("operator-");
    for (std::ptrdiff_t i = 0; i <= n; i++)
      for (std::ptrdiff_t j = 0; j <= n; j++)
      {
        auto a = s.begin(), b = s.end();
        a += i;
        b -= n - j;
        MC_CHECK(a - b == i - j, "distance of %td & %td is %td", i, j, a - b);
        MC_CHECK((a == b) == (i == j) && (a != b) == (i != j), "%td & %td compare wrong", i, j);
        MC_CHECK((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "%td & %td are ordered wrong", i, j);
      }
    // as asio sees it
    visit(s, [&](const auto & v)
    {
      for (auto i = asio::buffer_sequence_begin(v); i != asio::buffer_sequence_end(v); ++i) add(Buf(*i));
    });
    same("visit");
    std::vector<unsigned char> out(flat.size() + 1, 0xee);
    MC_CHECK(asio::buffer_copy(asio::buffer(out.data(), flat.size()), s) == flat.size(), "buffer_copy");
    for (std::size_t i = 0; i < flat.size(); i++)
      MC_CHECK(out[i] == *flat[i], "buffer_copy: byte %zu", i);
    if constexpr (std::is_same_v<Buf, asio::mutable_buffer>)
    {
      std::vector<unsigned char> in(flat.size());
      for (std::size_t i = 0; i < in.size(); i++) in[i] = (unsigned char)(200 - out[i]);
      MC_CHECK(asio::buffer_copy(s, asio::buffer(in.data(), in.size())) == flat.size(), "buffer_copy");
      for (std::size_t i = 0; i < in.size(); i++)
        MC_CHECK(*flat[i] == in[i], "buffer_copy to byte %zu", i);
      asio::buffer_copy(s, asio::buffer(out.data(), flat.size()));
    }
  }

  void run(int max_bufs, int max_size, int ops)
  {
    int n = mc::choose(max_bufs + 1, "number of buffers");
    {
      mc::quiet q;
      unsigned char x = 0;
      for (int i = 0; i < n; i++)
      {
        int s = mc::choose(max_size + 1, "size");
        mem.emplace_back(s);
        for (auto & c : mem.back()) c = ++x;
        bufs.push_back(Buf(mem.back().data(), mem.back().size()));
      }
      for (auto & m : mem)
        for (auto & c : m) flat.push_back(&c);
    }
    std::optional<Seq> s;
    switch (mc::choose(n == 1 ? 4 : n == 0 ? 3 : 2, "constructed from (a span, a container, default/registered, a buffer)"))
    {
      case 0: s.emplace(std::span<const Buf>(bufs)); break;
      case 1: s.emplace(bufs); break;
      case 2: if (n == 0) s.emplace(); else {asio::mutable_buffer b(mem[0].data(), mem[0].size()); s.emplace(b);} break;
      case 3: s.emplace(bufs[0]); break;
    }
    MC_CHECK(!s->is_registered(), "is_registered");
    verify(*s);
    for (int i = 0; i < ops && !mc::failed(); i++)
    {
      mc::step();
      switch (mc::choose(3, "operation (consume, copy, assign)"))
      {
        case 0:
        {
          std::size_t k = mc::choose((int)flat.size() + 2, "bytes to consume");
          auto & r = (*s += k);
          MC_CHECK(&r == &*s, "+= returns something else");
          mc::quiet q;
          flat.erase(flat.begin(), flat.begin() + std::min(k, flat.size()));
          break;
        }
        case 1:
        {
          Seq c(*s);
          c += flat.size() / 2;          // the original isn't affected
          verify(*s);
          Seq d(*s);
          s.emplace(d);
          i = ops;
          break;
        }
        case 2:
        {
          std::array<Buf, 2> other;
          Seq c{std::span<const Buf>(other)};
          c = *s;
          *s += flat.size();
          s.reset();
          s.emplace(other);
          *s = c;
          i = ops;
          break;
        }
      }
      verify(*s);
      mc::state(mc::mix(flat.size() * 16 + s->buffer_count(), i));
    }
    mc::outcome(std::to_string(n) + ":" + std::to_string(flat.size()) + "/" + std::to_string(s->buffer_count()));
  }
};
template<typename Seq, typename Buf>
void add(const char * name, int n, int size, int ops)
{
  mc::add(name, [=]
  {
    std::optional<runner<Seq, Buf>> r;
    {mc::quiet q; r.emplace();}
    r->run(n, size, ops);
    {mc::quiet q; r.reset();}
  });
}
}

MC_MAIN()
{
  bool t = mc::thorough();
  add<io::mutable_buffer_sequence, asio::mutable_buffer>("mutable", 4, t ? 3 : 2, t ? 4 : 3);
  add<io::const_buffer_sequence, asio::const_buffer>("const", 4, t ? 3 : 2, t ? 4 : 3);
}
