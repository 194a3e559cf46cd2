// stream_file & random_access_file against a model of the file, with faults of the system calls
#include "cob.hpp"
#include <boost/cobalt/io/stream_file.hpp>
#include <boost/cobalt/io/random_access_file.hpp>
#include <boost/cobalt/promise.hpp>

#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <set>
#include <sys/epoll.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace cob;
namespace io = cobalt::io;
using flags_t = io::file::flags;

// ------------------------------------------------------------------ the system calls the files use

namespace
{
bool active = false;             // within the code under test?
bool faults = false;             // may they fail?
std::set<int> fds;               // the descriptors of the code under test
int fault = 0;                   // the error injected
long short_n = -1;               // the size of a partial transfer injected

bool ours(int fd) {return active && fds.count(fd);}
bool inject(const char * what, int e)
{
  if (!faults || !mc::dev(2, what))
    return false;
  fault = e;
  errno = e;
  return true;
}
// 0: as usual, 1: fails, 2: partial
int inject_io(const char * what, std::size_t n)
{
  if (!faults)
    return 0;
  int k = mc::dev(n > 1 ? 3 : 2, what);
  if (k == 1)
    errno = fault = EIO;
  return k;
}
long transfer(long nr, const char * what, int fd, const iovec * v, int n, long off)
{
  std::size_t sz = 0;
  for (int i = 0; i < n; i++)
    sz += v[i].iov_len;
  int k = ours(fd) ? inject_io(what, sz) : 0;
  if (k == 1)
    return -1;
  iovec w[16];
  if (k == 2)
  {
    // one byte less
    std::size_t left = sz - 1;
    int m = 0;
    for (; m < n && m < 16 && left; m++)
    {
      w[m] = v[m];
      w[m].iov_len = std::min(w[m].iov_len, left);
      left -= w[m].iov_len;
    }
    v = w;
    n = m;
  }
  long r = off >= 0 ? ::syscall(nr == SYS_readv ? SYS_preadv : SYS_pwritev, fd, v, n, off, 0) : ::syscall(nr, fd, v, n);
  if (k == 2)
    short_n = r;
  return r;
}
}

extern "C"
{
ssize_t readv(int fd, const iovec * v, int n) {return transfer(SYS_readv, "readv (works, fails, is partial)", fd, v, n, -1);}
ssize_t writev(int fd, const iovec * v, int n) {return transfer(SYS_writev, "writev (works, fails, is partial)", fd, v, n, -1);}
ssize_t preadv(int fd, const iovec * v, int n, off_t o) {return transfer(SYS_readv, "preadv (works, fails, is partial)", fd, v, n, o);}
ssize_t pwritev(int fd, const iovec * v, int n, off_t o) {return transfer(SYS_writev, "pwritev (works, fails, is partial)", fd, v, n, o);}
ssize_t preadv64(int fd, const iovec * v, int n, off64_t o) {return preadv(fd, v, n, o);}
ssize_t pwritev64(int fd, const iovec * v, int n, off64_t o) {return pwritev(fd, v, n, o);}
ssize_t read(int fd, void * p, size_t n)
{
  if (!ours(fd)) return ::syscall(SYS_read, fd, p, n);
  iovec v{p, n};
  return transfer(SYS_readv, "read (works, fails, is partial)", fd, &v, 1, -1);
}
ssize_t write(int fd, const void * p, size_t n)
{
  if (!ours(fd)) return ::syscall(SYS_write, fd, p, n);
  iovec v{const_cast<void*>(p), n};
  return transfer(SYS_writev, "write (works, fails, is partial)", fd, &v, 1, -1);
}
ssize_t pread(int fd, void * p, size_t n, off_t o)
{
  if (!ours(fd)) return ::syscall(SYS_pread64, fd, p, n, o);
  iovec v{p, n};
  return transfer(SYS_readv, "pread (works, fails, is partial)", fd, &v, 1, o);
}
ssize_t pwrite(int fd, const void * p, size_t n, off_t o)
{
  if (!ours(fd)) return ::syscall(SYS_pwrite64, fd, p, n, o);
  iovec v{const_cast<void*>(p), n};
  return transfer(SYS_writev, "pwrite (works, fails, is partial)", fd, &v, 1, o);
}
ssize_t pread64(int fd, void * p, size_t n, off64_t o) {return pread(fd, p, n, o);}
ssize_t pwrite64(int fd, const void * p, size_t n, off64_t o) {return pwrite(fd, p, n, o);}
off_t lseek(int fd, off_t o, int w) noexcept
{
  if (ours(fd) && inject("lseek (works, fails)", EIO))
    return -1;
  return ::syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept {return lseek(fd, o, w);}
int ftruncate(int fd, off_t n) noexcept
{
  if (ours(fd) && inject("ftruncate (works, fails)", EIO))
    return -1;
  return ::syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) noexcept {return ftruncate(fd, n);}
int fstat(int fd, struct stat * st) noexcept
{
  if (ours(fd) && inject("fstat (works, fails)", EIO))
    return -1;
  return ::syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 * st) noexcept {return fstat(fd, (struct stat*)st);}
int fsync(int fd)
{
  if (ours(fd))
    return inject("fsync (works, fails)", EIO) ? -1 : 0;
  return ::syscall(SYS_fsync, fd);
}
int fdatasync(int fd)
{
  if (ours(fd))
    return inject("fdatasync (works, fails)", EIO) ? -1 : 0;
  return ::syscall(SYS_fdatasync, fd);
}
int epoll_ctl(int e, int op, int fd, epoll_event * ev) noexcept
{
  if (op == EPOLL_CTL_ADD && ours(fd) && inject("epoll_ctl (works, fails)", ENOSPC))
    return -1;
  return ::syscall(SYS_epoll_ctl, e, op, fd, ev);
}
int close(int fd)
{
  if (active)
  {
    mc::quiet q;
    fds.erase(fd);
  }
  return ::syscall(SYS_close, fd);
}
static int open_(int at, const char * path, int flags, mode_t mode)
{
  if (active && inject("open (works, fails)", EMFILE))
    return -1;
  int r = ::syscall(SYS_openat, at, path, flags, mode);
  if (active && r >= 0)
  {
    mc::quiet q;
    fds.insert(r);
  }
  return r;
}
int open(const char * path, int flags, ...)
{
  va_list l;
  va_start(l, flags);
  mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(l, mode_t) : 0;
  va_end(l);
  return open_(AT_FDCWD, path, flags, mode);
}
int open64(const char * path, int flags, ...)
{
  va_list l;
  va_start(l, flags);
  mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(l, mode_t) : 0;
  va_end(l);
  return open_(AT_FDCWD, path, flags, mode);
}
int openat(int at, const char * path, int flags, ...)
{
  va_list l;
  va_start(l, flags);
  mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(l, mode_t) : 0;
  va_end(l);
  return open_(at, path, flags, mode);
}
}

namespace
{
// the file is in a scratch directory, removed by run_check.py
struct scratch
{
  pid_t pid = 0;
  std::string path;
  void use()
  {
    if (pid == getpid())
      return;
    pid = getpid();
    auto d = getenv("VERIF_SCRATCH");
    path = std::string(d ? d : "/tmp") + "/verif-file-" + std::to_string(pid);
  }
};
scratch scr;

constexpr int menu[] = {O_RDWR, O_RDONLY, O_WRONLY, O_RDWR | O_CREAT, O_RDWR | O_APPEND, O_RDWR | O_CREAT | O_TRUNC,
                        O_WRONLY | O_CREAT | O_APPEND | O_SYNC, O_RDWR | O_CREAT | O_EXCL};
constexpr int n_menu = std::size(menu);

using bytes = std::vector<unsigned char>;

struct model_file
{
  bool exists = false;
  bytes data;
};
struct model_handle
{
  bool open = false;
  int flags = 0;
  std::uint64_t pos = 0;
  bool can_read() const {return open && (flags & O_ACCMODE) != O_WRONLY;}
  bool can_write() const {return open && (flags & O_ACCMODE) != O_RDONLY;}
};

// watches over the suspension of an operation
template<typename Op>
struct watched
{
  struct state {int depth = 0, resumed = 0;} & st;
  decltype(std::declval<Op&>().operator co_await()) a;
  bool await_ready() {return a.await_ready();}
  template<typename P>
  auto await_suspend(std::coroutine_handle<P> h)
  {
    auto & s = st;     // this object may be gone
    s.depth++;
    auto r = a.await_suspend(h);
    s.depth--;
    return r;
  }
  std::tuple<error_code, std::size_t> await_resume()
  {
    st.resumed++;
    MC_CHECK(st.depth == 0, "the operation completed from within its initiation");
    return a.await_resume(cobalt::as_tuple_tag{});
  }
};

struct fixture
{
  world w;
  model_file m;
  model_handle mh[2];
  std::optional<io::stream_file> sf;
  std::optional<io::random_access_file> rf;
  bool first = true, finished = false, pending = false;
  int frames = 0;
  std::string trail;

  io::file & file(int i) {return i == 0 ? static_cast<io::file&>(*sf) : *rf;}

  struct guard
  {
    bool prev = active;
    guard() {active = true; fault = 0; short_n = -1;}
    ~guard() {active = prev;}
  };

  void real_content()
  {
    mc::quiet q;
    int fd = ::syscall(SYS_openat, AT_FDCWD, scr.path.c_str(), O_RDONLY, 0);
    MC_CHECK((fd >= 0) == m.exists, m.exists ? "the file is missing" : "the file was created");
    if (fd < 0)
      return;
    char buf[256];
    auto n = ::syscall(SYS_read, fd, buf, sizeof(buf));
    ::syscall(SYS_close, fd);
    MC_CHECK(n == (long)m.data.size(), "the file has %ld bytes instead of %zu", n, m.data.size());
    for (long i = 0; i < n; i++)
      MC_CHECK((unsigned char)buf[i] == m.data[i], "byte %ld of the file is %d instead of %d", i, buf[i], m.data[i]);
  }

  // was the error (none) reported as it should be?
  void expect(error_code ec, bool must_fail, const char * what)
  {
    if (fault)
    {
      MC_CHECK(ec, "%s: an error of the system is not reported", what);
      MC_CHECK(ec == error_code(fault, boost::system::system_category()), "%s: reports '%s' instead of the error of the system", what, ec.message().c_str());
    }
    else if (must_fail)
      MC_CHECK(ec, "%s: no error", what);
    else
      MC_CHECK(!ec, "%s: fails with '%s'", what, ec.message().c_str());
  }

  // the model of ::open
  bool model_open(int i, int fl)
  {
    if (fault)
      return false;
    if ((fl & O_EXCL) && m.exists)
      return false;
    if (!(fl & O_CREAT) && !m.exists)
      return false;
    m.exists = true;
    if (fl & O_TRUNC)
      m.data.clear();
    mh[i] = {true, fl, 0};
    return true;
  }
  // creates & truncates even if the descriptor cannot be registered
  void open_effects(int fl)
  {
    if (fault != ENOSPC)
      return;
    if ((fl & O_EXCL) && m.exists)
      return;
    if (!(fl & O_CREAT) && !m.exists)
      return;
    m.exists = true;
    if (fl & O_TRUNC)
      m.data.clear();
  }
  void open(int i, int fl)
  {
    guard g;
    boost::system::result<void> r = (first && mc::choose(2, "path (const char*, std::string)"))
      ? file(i).open(scr.path, (flags_t)fl) : file(i).open(scr.path.c_str(), (flags_t)fl);
    if (mh[i].open)
    {
      MC_CHECK(r.has_error() && r.error() == asio::error::already_open, "opening an open file does not fail with already_open");
      return;
    }
    open_effects(fl);
    bool ok = model_open(i, fl);
    expect(r.has_error() ? r.error() : error_code{}, !ok, "open");
  }
  void construct(int i, int fl)
  {
    guard g;
    // replaces the file, i.e. closes it
    mh[i] = {};
    if (i == 0) sf.reset(); else rf.reset();
    error_code ec;
    bool str = (first && mc::choose(2, "path (const char*, std::string)"));
    try
    {
      auto f = (flags_t)fl;
      if (i == 0)
      {
        if (str) sf.emplace(scr.path, f); else sf.emplace(scr.path.c_str(), f);
      }
      else
      {
        if (str) rf.emplace(scr.path, f); else rf.emplace(scr.path.c_str(), f);
      }
    }
    catch (boost::system::system_error & e) {ec = e.code();}
    open_effects(fl);
    bool ok = model_open(i, fl);
    expect(ec, !ok, "the constructor");
    if (!ok)
    {
      if (i == 0) sf.emplace(); else rf.emplace();
    }
  }
  void seek(int k)
  {
    static constexpr struct {std::int64_t off; int whence;} seeks[] =
      {{0, SEEK_SET}, {2, SEEK_SET}, {1, SEEK_CUR}, {-1, SEEK_CUR}, {0, SEEK_END}, {-2, SEEK_END}, {1, SEEK_END}, {-1, SEEK_SET}, {(1ll << 32) + 1, SEEK_SET}};
    auto [off, wh] = seeks[k];
    guard g;
    auto r = sf->seek(off, (io::file::seek_basis)wh);
    auto & h = mh[0];
    std::int64_t np = off + (wh == SEEK_CUR ? h.pos : wh == SEEK_END ? m.data.size() : 0);
    bool ok = h.open && np >= 0;
    expect(r.has_error() ? r.error() : error_code{}, !ok, "seek");
    if (ok && !fault)
    {
      MC_CHECK(*r == (std::uint64_t)np, "seek returns %llu instead of the position %lld", (unsigned long long)*r, (long long)np);
      h.pos = np;
    }
  }
  static constexpr int n_seeks = 9;
  void resize(int i, std::uint64_t n)
  {
    guard g;
    auto r = file(i).resize(n);
    bool ok = mh[i].can_write() && n < (1u << 20);
    expect(r.has_error() ? r.error() : error_code{}, !ok, "resize");
    if (ok && !fault)
      m.data.resize(n);
  }
  void size(int i)
  {
    guard g;
    auto r = file(i).size();
    expect(r.has_error() ? r.error() : error_code{}, !mh[i].open, "size");
    if (r.has_value())
      MC_CHECK(*r == m.data.size(), "size returns %llu instead of %zu", (unsigned long long)*r, m.data.size());
  }
  void sync(int i, bool all)
  {
    guard g;
    auto r = all ? file(i).sync_all() : file(i).sync_data();
    if (mh[i].open)
      expect(r.has_error() ? r.error() : error_code{}, false, "sync");
    else
      MC_CHECK(r.has_error(), "sync of a closed file does not fail");
  }
  void close(int i)
  {
    guard g;
    auto r = file(i).close();
    MC_CHECK(r.has_value(), "close fails");
    mh[i] = {};
  }
  void release(int i)
  {
    guard g;
    auto r = file(i).release();
    if (!mh[i].open)
      return;
    MC_CHECK(r.has_value(), "release fails");
    int fd = *r;
    MC_CHECK(fds.count(fd), "release returns %d", fd);
    MC_CHECK(!file(i).is_open(), "still open after release");
    auto h = mh[i];
    mh[i] = {};
    // give it to the other file, or back
    int t = mc::choose(4, "the released descriptor is (assigned back, assigned to the other file, given to a constructor, closed)");
    if (t == 0 || t == 1)
    {
      int j = t == 0 ? i : 1 - i;
      auto r = file(j).assign(fd);
      if (mh[j].open)
      {
        MC_CHECK(r.has_error(), "assigning to an open file does not fail");
        ::close(fd);
      }
      else
      {
        expect(r.has_error() ? r.error() : error_code{}, false, "assign");
        if (r.has_value())
          mh[j] = h;
        else
          ::close(fd);
      }
    }
    else if (t == 2)
    {
      error_code ec;
      try
      {
        if (i == 0) sf.emplace(fd); else rf.emplace(fd);
      }
      catch (boost::system::system_error & e) {ec = e.code();}
      expect(ec, false, "construction with a descriptor");
      if (!ec)
        mh[i] = h;
      else
      {
        ::close(fd);
        if (i == 0) sf.emplace(); else rf.emplace();
      }
    }
    else
      ::close(fd);
  }
  void move(int i)
  {
    guard g;
    if (i == 0)
    {
      auto f = std::move(*sf);
      MC_CHECK(!sf->is_open(), "open after it was moved from");
      sf.emplace(std::move(f));
    }
    else
    {
      auto f = std::move(*rf);
      MC_CHECK(!rf->is_open(), "open after it was moved from");
      rf.emplace(std::move(f));
    }
  }
  void handles()
  {
    std::size_t n = 0;
    for (int i = 0; i < 2; i++)
    {
      MC_CHECK(file(i).is_open() == mh[i].open, "is_open is %d", !mh[i].open);
      if (mh[i].open)
      {
        n++;
        MC_CHECK(fds.count(file(i).native_handle()), "native_handle is not the descriptor of the file");
      }
      MC_CHECK(file(i).get_executor() == w.ctx.get_executor(), "wrong executor");
    }
    MC_CHECK(fds.size() == n, "%zu descriptors are open instead of %zu", fds.size(), n);
  }
  // the results of a transfer
  void after(int i, bool wr, std::uint64_t off, const bytes & before, bytes now, error_code ec, std::size_t n)
  {
    mc::quiet q;
    auto & h = mh[i];
    auto len = before.size();
    std::uint64_t at = i == 0 ? h.pos : off;
    const char * what = wr ? "write_some" : "read_some";
    if (wr)
      MC_CHECK(now == before, "write_some changes the buffer");
    bool able = wr ? h.can_write() : h.can_read();
    bool valid = able && at < (1ull << 40);
    std::size_t ex = 0;
    if (fault || !able || len == 0 || at >> 63)
    {
      if (len || fault)
        expect(ec, len != 0, what);
      MC_CHECK(n == 0, "%s: %zu bytes although it fails", what, n);
    }
    else if (wr)
    {
      if (!valid && ec)
        return;     // beyond what the file system supports
      if (h.flags & O_APPEND)
        at = m.data.size();
      else if (!valid)
      {
        MC_CHECK(ec, "write_some at %llu does not fail", (unsigned long long)at);
        return;
      }
      if (at > (1ull << 20))
        return mc::fail("the harness would create a huge file");
      expect(ec, false, what);
      ex = short_n >= 0 ? short_n : len;
      MC_CHECK(n == ex, "write_some reports %zu bytes instead of %zu", n, ex);
      if (m.data.size() < at + n)
        m.data.resize(at + n);
      std::copy(before.begin(), before.begin() + n, m.data.begin() + at);
      h.pos = at + n;
    }
    else
    {
      ex = at >= m.data.size() ? 0 : std::min<std::size_t>(len, m.data.size() - at);
      if (short_n >= 0)
        ex = short_n;
      if (!valid)
        MC_CHECK(ec, "read_some at %llu does not fail", (unsigned long long)at);   // beyond what the file system supports
      else if (ex == 0)
        MC_CHECK(ec == asio::error::eof, "read_some at the end reports '%s'", ec.message().c_str());
      else
        expect(ec, false, what);
      MC_CHECK(n == ex, "read_some reports %zu bytes instead of %zu", n, ex);
      for (std::size_t k = 0; k < len; k++)
        if (k < ex)
          MC_CHECK(now[k] == m.data[at + k], "byte %zu read is %d instead of %d", k, now[k], m.data[at + k]);
        else
          MC_CHECK(now[k] == before[k], "byte %zu of the buffer was changed", k);
      h.pos = at + n;
    }
  }
  bool can_seek_huge(int i) {return !(mh[i].can_write());}
};

cobalt::promise<void> driver(fixture & f, life_guard, int depth, int handles)
{
  static const std::vector<std::vector<std::size_t>> shapes{{2}, {1}, {0}, {3, 2}, {1, 0, 1}, {}};
  const int n_shapes = mc::thorough() ? 6 : 4;
  unsigned char fresh = 'A';
  for (int step = 0; step < depth && !mc::failed(); step++)
  {
    int i = handles == 2 ? mc::choose(2, "file (stream_file, random_access_file)") : 0;
    if (handles == 1)
      i = 1;
    else if (handles == 0)
      i = 0;
    mc::step();
    int op = mc::choose(i == 0 ? 12 : 11, "operation (read, write, size, resize, close, open, construct, release, move, sync_all, sync_data, seek)");
    f.first = step == 0;
    {mc::quiet q; f.trail += "rwsRcoCamSd>"[op];}
    switch (op)
    {
      case 0:
      case 1:
      {
        bool wr = op == 1;
        std::uint64_t off = 0;
        if (i == 1)
        {
          static constexpr std::uint64_t offs[] = {0, 1, 4, 9, ~0ull, 1ull << 62};
          int n = wr && f.mh[1].can_write() && !(f.mh[1].flags & O_APPEND) ? 5 : 6;
          off = offs[mc::choose(n, "offset (0, 1, 4, 9, -1, 2^62)")];
        }
        auto & shape = shapes[mc::choose(n_shapes, "buffers (2, 1, 0, 3+2, 1+0+1, none)")];
        struct mem_t
        {
          bytes data, before;
          std::vector<asio::mutable_buffer> mb;
          std::vector<asio::const_buffer> cb;
        };
        std::optional<mem_t> st;
        {
          mc::quiet q;
          auto & [data, before, mb, cb] = st.emplace();
          std::size_t n = 0;
          for (auto s : shape) n += s;
          for (std::size_t k = 0; k < n; k++) data.push_back(fresh++);
          before = data;
          n = 0;
          for (auto s : shape)
          {
            mb.push_back(asio::mutable_buffer(data.data() + n, s));
            cb.push_back(asio::const_buffer(data.data() + n, s));
            n += s;
          }
        }
        bool single = shape.size() == 1;
        error_code ec;
        std::size_t n = 0;
        watched<io::read_op>::state rs;
        watched<io::write_op>::state ws;
        watched<io::read_at_op>::state ras;
        watched<io::write_at_op>::state was;
        f.pending = true;
        {
          fixture::guard g;
          // the completion is delivered by the event loop
          if (i == 0 && !wr)
          {
            auto op = single ? f.sf->read_some(st->mb[0]) : f.sf->read_some(std::span<const asio::mutable_buffer>(st->mb));
            std::tie(ec, n) = co_await watched<io::read_op>{rs, op.operator co_await()};
          }
          else if (i == 0)
          {
            auto op = single ? f.sf->write_some(st->cb[0]) : f.sf->write_some(std::span<const asio::const_buffer>(st->cb));
            std::tie(ec, n) = co_await watched<io::write_op>{ws, op.operator co_await()};
          }
          else if (!wr)
          {
            auto op = single ? f.rf->read_some_at(off, st->mb[0]) : f.rf->read_some_at(off, std::span<const asio::mutable_buffer>(st->mb));
            std::tie(ec, n) = co_await watched<io::read_at_op>{ras, op.operator co_await()};
          }
          else
          {
            auto op = single ? f.rf->write_some_at(off, st->cb[0]) : f.rf->write_some_at(off, std::span<const asio::const_buffer>(st->cb));
            std::tie(ec, n) = co_await watched<io::write_at_op>{was, op.operator co_await()};
          }
        }
        f.pending = false;
        f.after(i, wr, off, st->before, st->data, ec, n);
        mc::quiet q;
        st.reset();
        break;
      }
      case 2: f.size(i); break;
      case 3:
      {
        static constexpr std::uint64_t sizes[] = {0, 3, 8, ~0ull};
        f.resize(i, sizes[mc::choose(mc::thorough() || step == 0 ? 4 : 3, "size (0, 3, 8, -1)")]);
        break;
      }
      case 4: f.close(i); break;
      case 5: f.open(i, menu[mc::choose(mc::thorough() ? n_menu : n_menu - 1, "flags")]); break;
      case 6: f.construct(i, menu[mc::choose(mc::thorough() ? n_menu : n_menu - 1, "flags")]); break;
      case 7: f.release(i); break;
      case 8: f.move(i); break;
      case 9: f.sync(i, true); break;
      case 10: f.sync(i, false); break;
      case 11: f.seek(mc::choose(f.can_seek_huge(0) ? f.n_seeks : f.n_seeks - 1, "seek")); break;
    }
    if (mc::failed())
      break;
    f.real_content();
    f.handles();
    std::uint64_t h = f.m.data.size() * 2 + f.m.exists;
    for (auto & x : f.mh)
      h = mc::mix(h, x.open ? x.flags * 64 + x.pos + 1 : 0);
    mc::state(h);
  }
  f.finished = true;
}

// initial: what's open (-1: nothing)
void run(int s_flags, int r_flags, bool exists, int handles, int depth, bool with_faults)
{
  {
    mc::quiet q;
    scr.use();
    ::unlink(scr.path.c_str());
    if (exists)
    {
      int fd = ::syscall(SYS_openat, AT_FDCWD, scr.path.c_str(), O_RDWR | O_CREAT, 0600);
      [[maybe_unused]] auto n = ::syscall(SYS_write, fd, "abcde", 5);
      ::syscall(SYS_close, fd);
    }
    fds.clear();
  }
  faults = false;
  std::optional<fixture> st;
  {mc::quiet q; st.emplace();}
  auto & f = *st;
  if (exists)
  {
    f.m.exists = true;
    mc::quiet q;
    f.m.data = {'a', 'b', 'c', 'd', 'e'};
  }
  {
    fixture::guard g;
    if (s_flags >= 0)
    {
      f.sf.emplace(scr.path, (flags_t)s_flags);
      f.mh[0] = {true, s_flags, 0};
      if (s_flags & O_TRUNC) f.m.data.clear();
    }
    else
      f.sf.emplace();
    if (r_flags >= 0)
    {
      f.rf.emplace(scr.path, (flags_t)r_flags);
      f.mh[1] = {true, r_flags, 0};
    }
    else
      f.rf.emplace();
  }
  faults = with_faults;
  if (with_faults)
    mc::set_dev_budget(1);
  bool abandoned = false;
  std::optional<cobalt::promise<void>> p = driver(f, life_guard(f.frames), depth, handles);
  int n = 0;
  while (!mc::failed() && !f.finished)
  {
    MC_CHECK(f.pending, "stuck");
    // the completion is queued
    if (with_faults && mc::dev(2, "(go on, destroy everything while the operation is pending)"))
    {
      abandoned = true;
      break;
    }
    if (!f.w.poll_one())
      mc::fail("an operation never completes");
    MC_CHECK(++n < 100, "livelock");
  }
  if (mc::failed())
    return;
  active = false;
  mc::outcome(f.trail + (abandoned ? "#" : ""));
  fixture::guard g;
  p.reset();
  if (!abandoned)
  {
    f.w.drain();
    MC_CHECK(f.frames == 0, "the coroutine is not destroyed");
  }
  f.sf.reset();
  f.rf.reset();
  MC_CHECK(fds.empty(), "%zu descriptors are left open", fds.size());
  mc::quiet q;
  st.reset();
  ::unlink(scr.path.c_str());
}
}

MC_MAIN()
{
  const bool th = mc::thorough();
  struct {const char * name; int s, r; bool ex; int handles;} cfg[] = {
    {"stream, nothing exists", -1, -1, false, 0},
    {"stream, closed", -1, -1, true, 0},
    {"stream, read_write", O_RDWR, -1, true, 0},
    {"stream, read_only", O_RDONLY, -1, true, 0},
    {"stream, write_only", O_WRONLY, -1, true, 0},
    {"stream, append", O_RDWR | O_APPEND, -1, true, 0},
    {"random access, nothing exists", -1, -1, false, 1},
    {"random access, closed", -1, -1, true, 1},
    {"random access, read_write", -1, O_RDWR, true, 1},
    {"random access, read_only", -1, O_RDONLY, true, 1},
    {"random access, write_only", -1, O_WRONLY, true, 1},
    {"random access, append", -1, O_RDWR | O_APPEND, true, 1},
    {"both, read_write", O_RDWR, O_RDWR, true, 2},
    {"both, append & read_write", O_RDWR | O_APPEND, O_RDWR, true, 2},
  };
  for (auto & c : cfg)
  {
    int d = c.handles == 2 ? 2 : 3;
    mc::add(std::string("operations/") + c.name, [=] {run(c.s, c.r, c.ex, c.handles, th ? d + 1 : d, false);});
    mc::add(std::string("faults/") + c.name, [=] {run(c.s, c.r, c.ex, c.handles, th ? d : 2, true);});
  }
}
