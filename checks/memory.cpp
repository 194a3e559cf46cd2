// The memory resources operations & forks take their memory from: every sequence of allocations and deallocations.
#include "mc.hpp"
#include <boost/cobalt/detail/sbo_resource.hpp>
#include <boost/cobalt/detail/monotonic_resource.hpp>
#include <cstring>
#include <map>
#include <memory>
#include <optional>

namespace cobalt = boost::cobalt;

namespace
{
struct allocation
{
  unsigned char * p;
  std::size_t size, align;
  int id;
};

// checks what every resource must guarantee
struct checker
{
  unsigned char * buffer;       // the buffer given to the resource
  std::size_t buffer_size;
  std::vector<allocation> live;
  int ids = 0;

  bool in_buffer(const void * p) const
  {
    return p >= buffer && p < buffer + buffer_size;
  }
  void verify()
  {
    for (auto & a : live)
      for (std::size_t i = 0; i < a.size; i++)
        if (a.p[i] != (unsigned char)(a.id * 17 + i))
        {
          mc::fail("the content of an allocation of %zu bytes got overwritten", a.size);
          return;
        }
  }
  void got(void * p_, std::size_t size, std::size_t align)
  {
    mc::quiet q;
    auto p = static_cast<unsigned char*>(p_);
    if (!p)
      return mc::fail("allocate(%zu, %zu) returns nullptr", size, align);
    if (reinterpret_cast<std::uintptr_t>(p) % align)
      return mc::fail("allocate(%zu, %zu) isn't aligned", size, align);
    if (in_buffer(p) && p + size > buffer + buffer_size)
      return mc::fail("allocate(%zu, %zu) exceeds the buffer", size, align);
    for (auto & a : live)
      if (p < a.p + a.size && a.p < p + size)
        return mc::fail("allocate(%zu, %zu) overlaps a live allocation", size, align);
    allocation a{p, size, align, ++ids};
    for (std::size_t i = 0; i < size; i++)
      p[i] = (unsigned char)(a.id * 17 + i);
    live.push_back(a);
    verify();
  }
};

struct upstream_t final : cobalt::pmr::memory_resource
{
  std::map<void*, std::pair<std::size_t, std::size_t>> live;
  void * do_allocate(std::size_t size, std::size_t align) override
  {
    auto p = ::operator new(size, std::align_val_t(align));
    mc::quiet q;
    live[p] = {size, align};
    return p;
  }
  void do_deallocate(void * p, std::size_t size, std::size_t align) override
  {
    {
      mc::quiet q;
      auto itr = live.find(p);
      if (itr == live.end())
        return mc::fail("memory that isn't from upstream is deallocated there");
      if (itr->second != std::pair(size, align))
        return mc::fail("memory is deallocated upstream with another size or alignment");
      live.erase(itr);
    }
    ::operator delete(p, std::align_val_t(align));
  }
  bool do_is_equal(const memory_resource & r) const noexcept override {return this == &r;}
};

// the buffer, with guards around it
struct guarded
{
  static constexpr std::size_t guard = 64;
  alignas(64) unsigned char mem[guard + 512 + guard];
  unsigned char * begin;
  std::size_t size;
  guarded(std::size_t misalign, std::size_t size) : begin(mem + guard + misalign), size(size)
  {
    std::memset(mem, 0xa5, sizeof(mem));
  }
  void verify()
  {
    for (auto p = mem; p < mem + sizeof(mem); p++)
      if ((p < begin || p >= begin + size) && *p != 0xa5)
        return mc::fail("memory outside of the buffer was written");
  }
};

const std::size_t sizes[] = {0, 1, 8, 16, 24, 40, 72};
const std::size_t aligns[] = {1, 8, 16, 64};

void sbo(std::size_t misalign, std::size_t size, int depth)
{
  mc::add("sbo/buffer=" + std::to_string(size) + "+" + std::to_string(misalign) + "/depth=" + std::to_string(depth), [=]
  {
    guarded g{misalign, size};
    upstream_t up;
    checker c{g.begin, size, {}, 0};
    std::optional<cobalt::detail::sbo_resource> res;
    if (size)
      res.emplace(g.begin, size, &up);
    else
      res.emplace(&up);
    // what fits in any case, when the buffer isn't used.
    const auto al = alignof(std::max_align_t);
    const auto pad = (al - reinterpret_cast<std::uintptr_t>(g.begin) % al) % al;
    const std::size_t capacity = size > pad ? (size - pad) / al * al : 0u;

    auto dealloc = [&](std::size_t i)
    {
      auto a = c.live[i];
      c.verify();
      const bool from_up = !c.in_buffer(a.p);
      auto n = up.live.size();
      {mc::quiet q; c.live.erase(c.live.begin() + i);}
      std::memset(a.p, 0xdd, a.size);
      res->deallocate(a.p, a.size, a.align);
      MC_CHECK(up.live.size() == n - from_up, "memory isn't returned to where it's from");
      c.verify();
    };
    for (int s = 0; s < depth && !mc::failed(); s++)
    {
      mc::step();
      const int n_alloc = (int)(std::size(sizes) * std::size(aligns));
      int w = mc::choose(n_alloc + (int)c.live.size(), "operation");
      if (w < n_alloc)
      {
        auto sz = sizes[w / std::size(aligns)], a = aligns[w % std::size(aligns)];
        bool empty = true;
        for (auto & l : c.live)
          if (c.in_buffer(l.p))
            empty = false;
        auto p = res->allocate(sz, a);
        mc::note("allocate(%zu, %zu)%s", sz, a, c.in_buffer(p) ? "" : " from upstream");
        c.got(p, sz, a);
        MC_CHECK(c.in_buffer(p) || up.live.count(p), "memory neither from the buffer nor upstream");
        MC_CHECK(!(empty && sz > 0 && sz <= capacity && a <= al) || c.in_buffer(p), "allocate(%zu, %zu) fits into the free buffer, but is taken from upstream", sz, a);
      }
      else
      {
        mc::note("deallocate %d", w - n_alloc);
        dealloc(w - n_alloc);
      }
      std::uint64_t h = 1;
      for (auto & l : c.live) h = mc::mix(h, (c.in_buffer(l.p) ? l.p - g.begin : 1000) * 100 + l.size);
      mc::state(h);
    }
    // release in any order
    while (!c.live.empty() && !mc::failed())
      dealloc(mc::choose((int)c.live.size(), "deallocate"));
    MC_CHECK(up.live.empty(), "memory from upstream leaks");
    // all is free again
    if (capacity && !mc::failed())
    {
      auto p = res->allocate(capacity, 1);
      MC_CHECK(c.in_buffer(p), "the buffer isn't usable after everything was deallocated");
      c.got(p, capacity, 1);
      dealloc(0);
    }
    g.verify();
    mc::outcome(std::to_string(c.ids));
    {mc::quiet q; c.live = {}; up.live = {};}
  });
}

void monotonic(std::size_t misalign, std::size_t size, std::size_t chunk, int depth)
{
  mc::add("monotonic/" + (size ? "buffer=" + std::to_string(size) + "+" + std::to_string(misalign) : "chunk=" + std::to_string(chunk)) + "/depth=" + std::to_string(depth), [=]
  {
    guarded g{misalign, size};
    checker c{g.begin, size, {}, 0};
    {
      std::optional<cobalt::detail::monotonic_resource> res;
      if (size)
        res.emplace(g.begin, size);
      else
        res.emplace(chunk);
      for (int s = 0; s < depth && !mc::failed(); s++)
      {
        mc::step();
        const int n_alloc = (int)(std::size(sizes) * std::size(aligns));
        int w = mc::choose(n_alloc + !c.live.empty(), "operation");
        if (w < n_alloc)
        {
          auto sz = sizes[w / std::size(aligns)], a = aligns[w % std::size(aligns)];
          auto p = res->allocate(sz, std::align_val_t(a));
          mc::note("allocate(%zu, %zu)%s", sz, a, c.in_buffer(p) ? "" : " from the heap");
          c.got(p, sz, a);
        }
        else
        {
          mc::note("release");
          c.verify();
          {mc::quiet q; c.live.clear();}
          auto n = mc::live_allocs();
          res->release();
          MC_CHECK(mc::live_allocs() <= n, "release allocates");
        }
        std::uint64_t h = 2;
        for (auto & l : c.live) h = mc::mix(h, (c.in_buffer(l.p) ? l.p - g.begin : 1000) * 100 + l.size);
        mc::state(h);
      }
      c.verify();
      {mc::quiet q; c.live.clear();}
    }
    g.verify();
    mc::outcome(std::to_string(c.ids));
    {mc::quiet q; c.live = {};}
  });
}

// through the allocators
template<typename T>
void allocators(const char * name)
{
  mc::add(std::string("allocator/") + name, []
  {
    guarded g{0, 96};
    cobalt::detail::sbo_resource sr{g.begin, 96u};
    cobalt::detail::monotonic_resource mr{g.begin, 96u};
    const bool mono = mc::choose(2);
    const int n = 1 + mc::choose(4);
    const bool none = mono && mc::choose(2);
    checker c{g.begin, 96, {}, 0};
    auto run = [&](auto alloc)
    {
      T * ps[2];
      for (auto & p : ps)
      {
        p = alloc.allocate(n);
        c.got(p, sizeof(T) * n, alignof(T));
      }
      c.verify();
      for (auto & p : ps)
        alloc.deallocate(p, n);
    };
    if (mono)
    {
      cobalt::detail::monotonic_allocator<void*> m{none ? nullptr : &mr};
      run(cobalt::detail::monotonic_allocator<T>(m));
    }
    else
    {
      cobalt::detail::sbo_allocator<void*> s{&sr};
      run(cobalt::detail::sbo_allocator<T>(s));
      auto p = sr.allocate(96);
      MC_CHECK(c.in_buffer(p), "the memory isn't returned");
      sr.deallocate(p, 96);
    }
    mc::step();
    g.verify();
    mc::state(mono * 8 + n);
    mc::outcome("ok");
    {mc::quiet q; c.live = {};}
  });
}
struct s3 {char c[3];};
struct alignas(32) s32 {char c[32];};
}

MC_MAIN()
{
  const int d = 3 + mc::thorough();
  for (auto [m, s] : {std::pair<std::size_t, std::size_t>{0, 0}, {0, 8}, {0, 16}, {8, 16}, {15, 17}, {1, 40}, {0, 64}, {8, 72}, {0, 128}, {3, 200}})
    sbo(m, s, d);
  for (auto [m, s] : {std::pair<std::size_t, std::size_t>{0, 16}, {1, 16}, {0, 64}, {4, 64}, {0, 128}, {8, 128}, {3, 200}})
    monotonic(m, s, 0, d);
  for (std::size_t chunk : {16, 31, 64, 100, 127, 1024})
    monotonic(0, 0, chunk, d);
  allocators<char>("char");
  allocators<s3>("3 bytes");
  allocators<double>("double");
  allocators<s32>("over-aligned");
}
