#include "mc.hpp"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <unordered_set>

#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ------------------------------------------------------------------------------------------------ allocation counts

namespace
{
std::atomic<long> g_live{0};
std::atomic<long> g_bytes{0};
std::atomic<long> g_fail_after{-1};
thread_local int g_quiet = 0;
constexpr std::uint64_t magic_counted = 0xC0BA17C0BA17C0BAull, magic_quiet = 0x0DDBA11500DDBA11ull;

struct header { std::uint64_t size; std::uint64_t magic; };

void * do_alloc(std::size_t n, std::size_t al)
{
  if (al < sizeof(header))
    al = sizeof(header);
  bool counted = g_quiet == 0;
  if (counted)
  {
    long f = g_fail_after.load(std::memory_order_relaxed);
    if (f >= 0)
    {
      if (f == 0)
      {
        g_fail_after = -1;
        return nullptr;
      }
      g_fail_after = f - 1;
    }
  }
  void * p = nullptr;
  if (al == sizeof(header))
    p = std::malloc(n + sizeof(header));
  else if (posix_memalign(&p, al, n + al) != 0)
    p = nullptr;
  if (!p)
    return nullptr;
  auto * u = static_cast<char*>(p) + al;
  auto * h = reinterpret_cast<header*>(u) - 1;
  h->size = n;
  h->magic = counted ? magic_counted : magic_quiet;
  if (counted)
  {
    g_live.fetch_add(1, std::memory_order_relaxed);
    g_bytes.fetch_add((long)n, std::memory_order_relaxed);
  }
  return u;
}

void do_free(void * p, std::size_t al)
{
  if (!p)
    return;
  if (al < sizeof(header))
    al = sizeof(header);
  auto * h = reinterpret_cast<header*>(p) - 1;
  if (h->magic == magic_counted)
  {
    g_live.fetch_sub(1, std::memory_order_relaxed);
    g_bytes.fetch_sub((long)h->size, std::memory_order_relaxed);
  }
  else if (h->magic != magic_quiet)
  {
    std::fprintf(stderr, "mc: operator delete on a pointer not owned by operator new (double free or bad alignment)\n");
    std::abort();
  }
  h->magic = 0;
  std::free(static_cast<char*>(p) - al);
}
}

void * operator new(std::size_t n) { auto p = do_alloc(n, 0); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](std::size_t n) { auto p = do_alloc(n, 0); if (!p) throw std::bad_alloc(); return p; }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return do_alloc(n, 0); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return do_alloc(n, 0); }
void * operator new(std::size_t n, std::align_val_t a) { auto p = do_alloc(n, (std::size_t)a); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](std::size_t n, std::align_val_t a) { auto p = do_alloc(n, (std::size_t)a); if (!p) throw std::bad_alloc(); return p; }
void * operator new(std::size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return do_alloc(n, (std::size_t)a); }
void operator delete(void * p) noexcept { do_free(p, 0); }
void operator delete[](void * p) noexcept { do_free(p, 0); }
void operator delete(void * p, std::size_t) noexcept { do_free(p, 0); }
void operator delete[](void * p, std::size_t) noexcept { do_free(p, 0); }
void operator delete(void * p, std::align_val_t a) noexcept { do_free(p, (std::size_t)a); }
void operator delete[](void * p, std::align_val_t a) noexcept { do_free(p, (std::size_t)a); }
void operator delete(void * p, std::size_t, std::align_val_t a) noexcept { do_free(p, (std::size_t)a); }
void operator delete[](void * p, std::size_t, std::align_val_t a) noexcept { do_free(p, (std::size_t)a); }
void operator delete(void * p, const std::nothrow_t &) noexcept { do_free(p, 0); }

namespace mc
{
using clock = std::chrono::steady_clock;
quiet::quiet() {g_quiet++;}
quiet::~quiet() {g_quiet--;}
long live_allocs() {return g_live;}
long live_bytes() {return g_bytes;}
void alloc_fail_after(long n) {g_fail_after = n;}
std::function<void()> reset_hook;

namespace
{
constexpr int max_depth = 4000;
constexpr int max_workers = 64;
constexpr int max_tasks = 1 << 16;
constexpr int task_depth = 256;

struct task
{
  int scenario;
  int len;
  std::uint16_t lo, hi;           // range at level len (0,0: open end)
  std::uint8_t prefix[task_depth];
};

struct slot
{
  std::atomic<int> busy;          // executing a scenario
  int scenario;
  int base;                       // levels below base are fixed
  std::atomic<int> depth;
  std::uint8_t choice[max_depth];
  std::uint8_t limit[max_depth];
  std::atomic<std::uint64_t> exec_start_ms;
  char fail_msg[600];
};

struct shared
{
  pthread_mutex_t mtx;
  std::atomic<int> stop;
  std::atomic<int> waiting;       // idle workers
  std::atomic<int> ntasks;
  std::atomic<int> outstanding;   // tasks queued or being executed
  std::atomic<std::uint64_t> executions, transitions, choices, max_depth_seen, diverged, truncated;
  slot slots[max_workers];
  task tasks[max_tasks];
};

struct scen
{
  std::string name;
  std::function<void()> fn;
  options opt;
};

std::vector<scen> scenarios;
std::string prop;
bool is_thorough = false;
shared * sh = nullptr;
slot * me = nullptr;
bool replaying = false;
bool log_on = false;
std::vector<int> replay_trace;

// current execution
int pos = 0;               // next choice index
bool is_failed = false;
bool diverged = false;
char fail_msg[2048];
int dev_left = -1;
std::uint64_t steps = 0;
std::vector<std::string> log_lines;
std::string what_failed_choices;

struct stats
{
  std::unordered_set<std::uint64_t> states;
  struct seen {long count = 0; std::string trace;};
  std::map<std::string, seen> outcomes;
  long executions = 0;
};
std::map<int, stats> per_scenario;
stats * cur_stats = nullptr;

std::string current_trace()
{
  std::string r;
  for (int i = 0; me && i < pos && i < max_depth; i++)
    r += (i ? "," : "") + std::to_string(me->choice[i]);
  return r;
}

std::uint64_t now_ms()
{
  return std::chrono::duration_cast<std::chrono::milliseconds>(clock::now().time_since_epoch()).count();
}
}

const std::string & property() {return prop;}
bool thorough() {return is_thorough;}
void add(std::string name, std::function<void()> fn, options o) { scenarios.push_back({std::move(name), std::move(fn), o}); }
bool failed() {return is_failed;}
bool logging() {return log_on;}

void note(const char * fmt, ...)
{
  if (!log_on)
    return;
  quiet q;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (log_lines.size() < 2000)
    log_lines.push_back(buf);
  std::fprintf(stdout, "  | %s\n", buf);
  std::fflush(stdout);
}

void fail(const char * fmt, ...)
{
  if (is_failed)
    return;
  is_failed = true;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(fail_msg, sizeof fail_msg, fmt, ap);
  va_end(ap);
  for (char * p = fail_msg; *p; p++)
    if (*p == '\n' || *p == '\t') *p = ' ';
  if (me)
    snprintf(me->fail_msg, sizeof me->fail_msg, "%s", fail_msg);
  note("FAIL: %s", fail_msg);
}

void step(int n)
{
  steps += n;
}
void state(std::uint64_t h)
{
  if (cur_stats)
  {
    quiet q;
    if (cur_stats->states.size() < 4000000)
      cur_stats->states.insert(h);
  }
}
void outcome(const std::string & s)
{
  if (cur_stats)
  {
    quiet q;
    if (cur_stats->outcomes.size() < 4000 || cur_stats->outcomes.count(s))
    {
      auto & o = cur_stats->outcomes[s];
      if (o.count++ == 0)
        o.trace = current_trace();
    }
  }
  if (log_on)
    note("outcome: %s", s.c_str());
}

int choose(int n, const char * what)
{
  if (n <= 1 || is_failed)
    return 0;
  int r;
  if (replaying)
  {
    r = pos < (int)replay_trace.size() ? replay_trace[pos] : 0;
    if (r >= n)
    {
      diverged = true;
      r = 0;
    }
    if (me && pos < max_depth)
    {
      me->choice[pos] = r;
      me->limit[pos] = n;
      me->depth.store(pos + 1, std::memory_order_relaxed);
    }
    pos++;
    note("choice[%d] %s = %d of %d", pos - 1, what, r, n);
    return r;
  }
  if (pos >= max_depth)
  {
    fail("mc: execution exceeds %d choices (livelock?)", max_depth);
    return 0;
  }
  if (n > 250)
    n = 250;
  int d = me->depth.load(std::memory_order_relaxed);
  if (pos < d)
  {
    r = me->choice[pos];
    if (r >= n)
    {
      diverged = true;
      r = 0;
    }
  }
  else
  {
    me->choice[pos] = 0;
    me->limit[pos] = n;
    me->depth.store(pos + 1, std::memory_order_relaxed);
    r = 0;
  }
  pos++;
  return r;
}

void set_dev_budget(int n) {dev_left = n;}

int dev(int n, const char * what)
{
  if (dev_left == 0)
    return 0;
  int r = choose(n, what);
  if (r != 0 && dev_left > 0)
    dev_left--;
  return r;
}

namespace
{
struct violation
{
  int scenario;
  std::vector<int> trace;
  std::string message;
};

void lock() {pthread_mutex_lock(&sh->mtx);}
void unlock() {pthread_mutex_unlock(&sh->mtx);}

void push_task_locked(const task & t)
{
  int n = sh->ntasks.load();
  if (n < max_tasks)
  {
    sh->tasks[n] = t;
    sh->ntasks = n + 1;
    sh->outstanding++;
  }
  else
    sh->truncated++;
}

void maybe_donate()
{
  if (sh->waiting.load(std::memory_order_relaxed) == 0 || sh->ntasks.load(std::memory_order_relaxed) > 0)
    return;
  int d = me->depth;
  for (int i = me->base; i < d && i < task_depth; i++)
    if (me->choice[i] + 1 < me->limit[i])
    {
      task t{};
      t.scenario = me->scenario;
      t.len = i;
      for (int k = 0; k < i; k++)
        t.prefix[k] = me->choice[k];
      t.lo = me->choice[i] + 1;
      t.hi = me->limit[i];
      lock();
      push_task_locked(t);
      unlock();
      me->limit[i] = me->choice[i] + 1;
      return;
    }
}

// run one execution
void execute_once(scen & s)
{
  pos = 0;
  is_failed = false;
  diverged = false;
  fail_msg[0] = 0;
  if (me)
    me->fail_msg[0] = 0;
  dev_left = s.opt.dev_bound;
  if (reset_hook)
    reset_hook();
  long before = live_allocs();
  try
  {
    s.fn();
  }
  catch (std::exception & e)
  {
    fail("mc: exception escaped the scenario: %s", e.what());
  }
  catch (...)
  {
    fail("mc: unknown exception escaped the scenario");
  }
  alloc_fail_after(-1);
  long after = live_allocs();
  if (s.opt.leak_check && after != before && !is_failed)
    fail("leak: %ld allocation(s) still alive after everything was destroyed", after - before);
}

bool backtrack(int base)
{
  int d = me->depth;
  while (d > base)
  {
    if (me->choice[d - 1] + 1 < me->limit[d - 1])
    {
      me->choice[d - 1]++;
      me->depth = d;
      return true;
    }
    d--;
  }
  me->depth = d;
  return false;
}

void report_violation(int fd, int scenario, const std::string & msg)
{
  std::ostringstream os;
  os << "V\t" << scenario << "\t";
  int d = std::min<int>(pos, me->depth);
  for (int i = 0; i < d; i++)
    os << (i ? "," : "") << (int)me->choice[i];
  os << "\t" << msg << "\n";
  auto s = os.str();
  if (::write(fd, s.data(), s.size()) < 0) {}
}

void worker_loop(int fd)
{
  // warm up: things allocated once per process must not count as leaks.
  std::set<int> warmed;
  std::map<int, std::map<std::string, int>> vcount;
  while (!sh->stop)
  {
    task t;
    bool got = false;
    lock();
    int n = sh->ntasks;
    if (n > 0)
    {
      t = sh->tasks[n - 1];
      sh->ntasks = n - 1;
      got = true;
    }
    unlock();
    if (!got)
    {
      if (sh->outstanding == 0)
        break;
      sh->waiting++;
      usleep(500);
      sh->waiting--;
      continue;
    }
    me->scenario = t.scenario;
    auto & s = scenarios[t.scenario];
    cur_stats = &per_scenario[t.scenario];
    if (t.hi > t.lo)
    {
      me->base = t.len;
      for (int i = 0; i < t.len; i++)
      {
        me->choice[i] = t.prefix[i];
        me->limit[i] = t.prefix[i] + 1;
      }
      me->choice[t.len] = t.lo;
      me->limit[t.len] = t.hi;
      me->depth = t.len + 1;
    }
    else
    {
      me->base = 0;
      me->depth = 0;
    }
    if (!warmed.count(t.scenario))
    {
      warmed.insert(t.scenario);
      // two unrecorded runs of the first execution
      int d = me->depth;
      me->exec_start_ms = now_ms();
      me->busy = 1;
      auto st = cur_stats;
      cur_stats = nullptr;
      auto lim = s.opt.leak_check;
      s.opt.leak_check = false;
      execute_once(s);
      s.opt.leak_check = lim;
      cur_stats = st;
      me->depth = d;
      steps = 0;
    }
    me->busy = 1;
    do
    {
      me->exec_start_ms = now_ms();
      execute_once(s);
      sh->executions.fetch_add(1, std::memory_order_relaxed);
      cur_stats->executions++;
      sh->transitions.fetch_add(steps, std::memory_order_relaxed);
      steps = 0;
      sh->choices.fetch_add(pos, std::memory_order_relaxed);
      if ((std::uint64_t)pos > sh->max_depth_seen)
        sh->max_depth_seen = pos;
      if (diverged)
        sh->diverged++;
      else if (is_failed)
      {
        auto key = std::string(fail_msg).substr(0, 60);
        if (vcount[t.scenario][key]++ < 2)
          report_violation(fd, t.scenario, fail_msg);
      }
      maybe_donate();
      if (sh->stop)
        break;
    }
    while (backtrack(me->base));
    me->busy = 0;
    if (!sh->stop)
      sh->outstanding--;
  }
  // dump the statistics
  std::ostringstream os;
  for (auto & [i, st] : per_scenario)
  {
    os << "E\t" << i << "\t" << st.executions << "\n";
    for (auto & [o, c] : st.outcomes)
      os << "O\t" << i << "\t" << c.count << "\t" << c.trace << "\t" << o << "\n";
    os << "S\t" << i << "\t" << st.states.size();
    for (auto h : st.states)
    {
      char buf[20];
      snprintf(buf, sizeof buf, "\t%llx", (unsigned long long)h);
      os << buf;
    }
    os << "\n";
  }
  auto s = os.str();
  std::size_t off = 0;
  while (off < s.size())
  {
    auto r = ::write(fd, s.data() + off, s.size() - off);
    if (r <= 0)
      break;
    off += r;
  }
}

std::string trace_str(const std::vector<int> & t)
{
  std::ostringstream os;
  for (std::size_t i = 0; i < t.size(); i++)
    os << (i ? "," : "") << t[i];
  return os.str();
}

std::string json_escape(const std::string & s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else if (c >= 0x7f) r += '?';
    else r += c;
  }
  return r;
}

std::string slurp(const std::string & path, std::size_t max = 1 << 20)
{
  std::ifstream f(path);
  std::string s((std::istreambuf_iterator<char>(f)), {});
  if (s.size() > max)
    s.resize(max);
  return s;
}

// reduce sanitizer/assert output to one line that identifies the crash
std::string crash_summary(int status, const std::string & err)
{
  std::string what;
  std::istringstream is(err);
  std::string line, frame;
  while (std::getline(is, line))
  {
    auto p = line.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos && what.empty())
    {
      what = line.substr(p + 7);
      auto q = what.find(" on ");
      if (q != std::string::npos)
        what.resize(q);
      q = what.find(" (pc");
      if (q != std::string::npos)
        what.resize(q);
      auto r = what.find("0x");
      if (r != std::string::npos)
        what.resize(r);
    }
    if (what.empty() && line.find("WARNING: ThreadSanitizer: ") != std::string::npos)
    {
      what = line.substr(line.find("ThreadSanitizer: "));
      if (auto q = what.find(" (pid="); q != std::string::npos)
        what.resize(q);
    }
    if (what.empty() && line.find("runtime error:") != std::string::npos)
    {
      what = line;
      for (auto x = what.find("0x"); x != std::string::npos; x = what.find("0x"))
      {
        auto e = x + 2;
        while (e < what.size() && isxdigit((unsigned char)what[e])) e++;
        what.replace(x, e - x, "ADDR");
      }
    }
    if (what.empty() && (line.find("Assertion") != std::string::npos || line.find("mc:") != std::string::npos ||
                         line.find("terminate called") != std::string::npos || line.find("std::terminate") != std::string::npos))
    {
      what = line;
    }
    if (!what.empty() && line.find("  what():") != std::string::npos)
      what += line;
    if (frame.empty() && line.find("    #") != std::string::npos && line.find("/cobalt/") != std::string::npos)
    {
      auto q = line.find("/cobalt/");
      frame = line.substr(q + 1);
    }
  }
  if (what.empty())
  {
    if (WIFSIGNALED(status))
      what = std::string("killed by signal ") + std::to_string(WTERMSIG(status));
    else
      what = "exit status " + std::to_string(WEXITSTATUS(status));
  }
  if (!frame.empty())
    what += " @" + frame;
  if (what.size() > 400)
    what.resize(400);
  for (auto & c : what)
    if (c == '\n' || c == '\t') c = ' ';
  return "crash: " + what;
}

struct replay_result
{
  bool violated = false;
  std::string message;
  std::string log;
};

std::string tmpdir;

replay_result replay(int scenario, const std::vector<int> & trace, bool symbolize = true)
{
  std::string out = tmpdir + "/replay.out", err = tmpdir + "/replay.err", res = tmpdir + "/replay.res";
  ::unlink(res.c_str());
  fflush(stdout);
  pid_t p = fork();
  if (p == 0)
  {
    setpgid(0, 0);
    int fo = ::open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    int fe = ::open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fo, 1);
    dup2(fe, 2);
    replaying = true;
    replay_trace = trace;
    me = &sh->slots[max_workers - 1];
    cur_stats = nullptr;
    // warm up
    auto & s = scenarios[scenario];
    bool lc = s.opt.leak_check;
    (void)symbolize;
    log_on = true;
    // Leak detection needs a warm process; the warm up run uses the all-default schedule.
    if (lc)
    {
      log_on = false;
      replay_trace.clear();
      s.opt.leak_check = false;
      pid_t t = fork();
      if (t == 0)
      {
        execute_once(s);
        _exit(0);
      }
      int st = 0;
      waitpid(t, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        execute_once(s);
      s.opt.leak_check = true;
      replay_trace = trace;
      log_on = true;
    }
    execute_once(s);
    std::ofstream f(res);
    if (is_failed)
      f << "F" << fail_msg << "\n";
    else
      f << "OK\n";
    f.close();
    fflush(stdout);
    _exit(0);
  }
  replay_result r;
  int st = 0;
  auto t0 = now_ms();
  bool hung = false;
  auto lim = scenarios[scenario].opt.max_seconds * 1000ull;
  while (true)
  {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p)
      break;
    if (now_ms() - t0 > lim)
    {
      kill(-p, SIGKILL);
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      hung = true;
      break;
    }
    usleep(2000);
  }
  r.log = slurp(out, 200000);
  if (hung)
  {
    r.violated = true;
    r.message = "hang: the execution did not finish";
  }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
  {
    auto s = slurp(res);
    if (!s.empty() && s[0] == 'F')
    {
      r.violated = true;
      r.message = s.substr(1, s.find('\n') - 1);
    }
  }
  else
  {
    r.violated = true;
    auto e = slurp(err);
    r.message = crash_summary(st, e);
    auto & fm = sh->slots[max_workers - 1].fail_msg;
    if (fm[0])
      r.message = std::string(fm) + " [then " + r.message + "]";
    r.log += "\n--- stderr ---\n" + e.substr(0, 20000);
  }
  return r;
}

struct known_entry { std::string scenario, message; };
}

int main_(int argc, char ** argv, std::function<void()> register_scenarios)
{
  quiet q;
  int jobs = 8;
  int seconds = 600;
  std::string out = "/dev/stdout", filter, known_file, replay_spec;
  bool all = false, list = false;
  int max_viol = 1;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto next = [&]{return std::string(i + 1 < argc ? argv[++i] : "");};
    if (a == "--property") prop = next();
    else if (a == "--thorough") is_thorough = true;
    else if (a == "--jobs") jobs = std::atoi(next().c_str());
    else if (a == "--seconds") seconds = std::atoi(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--filter") filter = next();
    else if (a == "--known") known_file = next();
    else if (a == "--all") all = true;
    else if (a == "--max") max_viol = std::atoi(next().c_str());
    else if (a == "--list") list = true;
    else if (a == "--replay") replay_spec = next();     // scenario:c,c,c
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  if (jobs > max_workers - 1)
    jobs = max_workers - 1;
  register_scenarios();
  if (!filter.empty())
  {
    std::vector<scen> f;
    for (auto & s : scenarios)
      if (s.name.find(filter) != std::string::npos)
        f.push_back(s);
    scenarios = f;
  }
  if (list)
  {
    for (auto & s : scenarios)
      printf("%s\n", s.name.c_str());
    return 0;
  }
  char tmpl[] = "/tmp/mcXXXXXX";
  tmpdir = mkdtemp(tmpl);
  sh = static_cast<shared*>(mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  pthread_mutexattr_t ma;
  pthread_mutexattr_init(&ma);
  pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&sh->mtx, &ma);

  auto cleanup = [&]
  {
    for (auto n : {"/replay.out", "/replay.err", "/replay.res"})
      ::unlink((tmpdir + n).c_str());
    for (int i = 0; i < max_workers; i++)
    {
      ::unlink((tmpdir + "/w" + std::to_string(i) + ".err").c_str());
      ::unlink((tmpdir + "/w" + std::to_string(i) + ".out").c_str());
    }
    ::rmdir(tmpdir.c_str());
  };

  if (!replay_spec.empty())
  {
    auto p = replay_spec.rfind('@');
    auto name = replay_spec.substr(0, p);
    std::vector<int> tr;
    std::istringstream is(p == std::string::npos ? std::string() : replay_spec.substr(p + 1));
    std::string tok;
    while (std::getline(is, tok, ','))
      if (!tok.empty())
        tr.push_back(std::atoi(tok.c_str()));
    for (std::size_t i = 0; i < scenarios.size(); i++)
      if (scenarios[i].name == name)
      {
        auto r = replay((int)i, tr);
        printf("%s\n%s\n", r.log.c_str(), r.violated ? ("VIOLATED: " + r.message).c_str() : "held");
        cleanup();
        return r.violated ? 1 : 0;
      }
    fprintf(stderr, "no scenario %s\n", name.c_str());
    cleanup();
    return 2;
  }

  std::vector<known_entry> known;
  if (!known_file.empty())
  {
    std::ifstream f(known_file);
    std::string l;
    while (std::getline(f, l))
    {
      auto p = l.find('\t');
      if (p != std::string::npos)
        known.push_back({l.substr(0, p), l.substr(p + 1)});
    }
  }
  auto is_known = [&](const std::string & scenario, const std::string & msg) -> int
  {
    for (std::size_t i = 0; i < known.size(); i++)
      if (scenario == known[i].scenario && msg.find(known[i].message) != std::string::npos)
        return (int)i;
    return -1;
  };

  // initial tasks, last registered first on the stack => pushed in reverse
  for (int i = (int)scenarios.size() - 1; i >= 0; i--)
  {
    task t{};
    t.scenario = i;
    push_task_locked(t);
  }

  struct worker { pid_t pid; int fd; std::string buf; int idx; bool reaped = false; };
  std::vector<worker> ws;
  std::vector<violation> viols;
  auto start = clock::now();
  auto spawn = [&](int idx)
  {
    auto path = tmpdir + "/w" + std::to_string(idx) + ".out";
    int fd = ::open(path.c_str(), O_CREAT | O_RDWR | O_APPEND, 0600);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
      setpgid(0, 0);
      me = &sh->slots[idx];
      me->busy = 0;
      int fe = ::open((tmpdir + "/w" + std::to_string(idx) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fe, 2);
      dup2(fe, 1);
      g_quiet = 0;
      worker_loop(fd);
      _exit(0);
    }
    ::close(fd);
    ws.push_back({p, -1, "", idx});
  };
  jobs = std::min<int>(jobs, max_workers - 2);
  for (int i = 0; i < jobs; i++)
    spawn(i);

  struct found { int scenario; std::vector<int> trace; std::string message, log; int known; };
  std::vector<found> confirmed;
  std::set<std::string> seen_sig;
  long unconfirmed = 0, crashes = 0;
  std::map<int, int> crash_count;
  bool timed_out = false;
  std::vector<std::size_t> offs(max_workers, 0);
  std::vector<violation> raw;
  std::set<int> abandoned;

  auto consider = [&](const violation & v0)
  {
    violation v = v0;
    auto sig = scenarios[v.scenario].name + "|" + v.message.substr(0, 80);
    if (!v.message.empty() && seen_sig.count(sig))
      return;
    auto unlisted = [&]{int n = 0; for (auto & c : confirmed) n += c.known < 0; return n;};
    if (!all && unlisted() >= max_viol)
      return;
    replay_result r;
    for (int k = 0; k < 3 && !r.violated; k++)
      r = replay(v.scenario, v.trace);
    if (!r.violated)
    {
      unconfirmed++;
      fprintf(stderr, "mc: unconfirmed: %s [%s] %s\n", scenarios[v.scenario].name.c_str(), trace_str(v.trace).c_str(), v.message.c_str());
      return;
    }
    seen_sig.insert(sig);
    sig = scenarios[v.scenario].name + "|" + r.message.substr(0, 80);
    if (seen_sig.count(sig) && v.message.empty())
      return;
    seen_sig.insert(sig);
    int kn = is_known(scenarios[v.scenario].name, r.message);
    // shrink: drop the tail, then lower single choices (bounded effort)
    auto tr = v.trace;
    if (kn < 0)
    {
      int budget = 60;
      auto t0 = clock::now();
      auto cls = r.message.substr(0, 12);
      auto try_trace = [&](std::vector<int> t)
      {
        if (budget-- <= 0 || clock::now() - t0 > std::chrono::seconds(10))
          return false;
        auto rr = replay(v.scenario, t);
        if (rr.violated && rr.message.substr(0, 12) == cls && is_known(scenarios[v.scenario].name, rr.message) < 0)
        {
          r = rr;
          tr = t;
          return true;
        }
        return false;
      };
      while (!tr.empty() && tr.back() == 0) tr.pop_back();
      for (std::size_t cut = tr.size() / 2; cut >= 1 && budget > 0; cut /= 2)
      {
        while (tr.size() >= cut)
        {
          auto t = tr;
          t.resize(t.size() - cut);
          if (!try_trace(t))
            break;
        }
      }
      for (std::size_t i = 0; i < tr.size() && budget > 0; i++)
        if (tr[i] != 0)
        {
          auto t = tr;
          t[i] = 0;
          try_trace(t);
        }
      while (!tr.empty() && tr.back() == 0) tr.pop_back();
    }
    confirmed.push_back({v.scenario, tr, r.message, r.log, kn});
    if (!all && unlisted() >= max_viol)
      sh->stop = 1;
  };

  std::vector<int> hang_pid;
  while (true)
  {
    bool alive = false;
    for (std::size_t i = 0; i < ws.size(); i++)
    {
      auto & w = ws[i];
      if (w.reaped)
        continue;
      int st;
      pid_t r = waitpid(w.pid, &st, WNOHANG);
      auto & sl = sh->slots[w.idx];
      bool hang = false;
      if (r == 0)
      {
        alive = true;
        if (sl.busy && sl.exec_start_ms && now_ms() > sl.exec_start_ms + scenarios[sl.scenario].opt.max_seconds * 1000ull)
        {
          kill(-w.pid, SIGKILL);
          kill(w.pid, SIGKILL);
          waitpid(w.pid, &st, 0);
          hang = true;
        }
        else
          continue;
      }
      w.reaped = true;
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0)
        continue;
      // crashed (or hung) in the middle of an execution
      crashes++;
      violation v;
      v.scenario = sl.scenario;
      int d = sl.depth;
      for (int k = 0; k < d; k++)
        v.trace.push_back(sl.choice[k]);
      std::string em = slurp(tmpdir + "/w" + std::to_string(w.idx) + ".err");
      v.message = hang ? "" : "";
      if (!hang && getenv("MC_VERBOSE"))
        fprintf(stderr, "worker %d crashed: %s\n", w.idx, crash_summary(st, em).c_str());
      bool was_busy = sl.busy;
      if (was_busy)
      {
        // continue after this execution
        if (++crash_count[sl.scenario] <= (all ? 40 : 12) && !sh->stop)
        {
          lock();
          for (int k = sl.base; k < d && k < task_depth; k++)
            if (sl.choice[k] + 1 < sl.limit[k])
            {
              task t{};
              t.scenario = sl.scenario;
              t.len = k;
              for (int m = 0; m < k; m++)
                t.prefix[m] = sl.choice[m];
              t.lo = sl.choice[k] + 1;
              t.hi = sl.limit[k];
              push_task_locked(t);
            }
          sh->outstanding--;
          unlock();
        }
        else
        {
          abandoned.insert(sl.scenario);
          sh->outstanding--;
        }
        consider(v);
      }
      else if (r != 0)
      {
        // died outside of an execution: cannot attribute
        fprintf(stderr, "mc: worker died outside of an execution: %s\n", crash_summary(st, em).c_str());
      }
      if (!sh->stop)
      {
        spawn(w.idx);
        alive = true;
      }
    }
    // read violations reported by workers
    for (int i = 0; i < jobs; i++)
    {
      auto path = tmpdir + "/w" + std::to_string(i) + ".out";
      std::ifstream f(path);
      if (!f)
        continue;
      f.seekg((std::streamoff)offs[i]);
      std::string line;
      while (f.peek() == 'V' && std::getline(f, line))
      {
        if (f.eof())
          break;
        offs[i] += line.size() + 1;
        std::istringstream is(line);
        std::string tag, sc, tr, msg;
        std::getline(is, tag, '\t');
        std::getline(is, sc, '\t');
        std::getline(is, tr, '\t');
        std::getline(is, msg);
        violation v;
        v.scenario = std::atoi(sc.c_str());
        std::istringstream ts(tr);
        std::string tok;
        while (std::getline(ts, tok, ','))
          v.trace.push_back(std::atoi(tok.c_str()));
        v.message = msg;
        consider(v);
      }
      // skip non violation lines (statistics of a predecessor)
      if (f.peek() != 'V' && f.peek() != EOF)
      {
        while (f.peek() != 'V' && std::getline(f, line))
        {
          if (f.eof())
            break;
          offs[i] += line.size() + 1;
        }
      }
    }
    if (!alive)
      break;
    if (clock::now() - start > std::chrono::seconds(seconds))
    {
      if (!sh->stop)
        timed_out = true;
      sh->stop = 1;
    }
    usleep(3000);
  }

  // gather the statistics
  std::map<int, std::set<std::uint64_t>> states;
  std::map<int, std::map<std::string, stats::seen>> outcomes;
  std::map<int, long> execs;
  std::uint64_t nstates = 0;
  for (int i = 0; i < jobs; i++)
  {
    std::ifstream f(tmpdir + "/w" + std::to_string(i) + ".out");
    std::string line;
    while (std::getline(f, line))
    {
      if (line.empty())
        continue;
      std::istringstream is(line);
      std::string tag, sc, x;
      std::getline(is, tag, '\t');
      std::getline(is, sc, '\t');
      int s = std::atoi(sc.c_str());
      if (tag == "O")
      {
        std::string c, t, o;
        std::getline(is, c, '\t');
        std::getline(is, t, '\t');
        std::getline(is, o);
        auto & e = outcomes[s][o];
        e.count += std::atol(c.c_str());
        e.trace = t;
      }
      else if (tag == "E")
      {
        std::getline(is, x, '\t');
        execs[s] += std::atol(x.c_str());
      }
      else if (tag == "S")
      {
        std::getline(is, x, '\t');
        while (std::getline(is, x, '\t'))
          states[s].insert(std::strtoull(x.c_str(), nullptr, 16));
      }
    }
  }
  long n_outcomes = 0;
  for (auto & [s, v] : states)
    nstates += v.size();
  for (auto & [s, v] : outcomes)
    n_outcomes += (long)v.size();
  std::uint64_t complete = 0;
  (void)complete;
  std::ostringstream js;
  js << "{\n";
  js << " \"scenarios\": " << scenarios.size() << ",\n";
  js << " \"executions\": " << sh->executions << ",\n";
  js << " \"transitions\": " << sh->transitions << ",\n";
  js << " \"choices\": " << sh->choices << ",\n";
  js << " \"longest_execution_choices\": " << sh->max_depth_seen << ",\n";
  js << " \"states\": " << nstates << ",\n";
  js << " \"distinct_outcomes\": " << n_outcomes << ",\n";
  js << " \"diverged\": " << sh->diverged << ",\n";
  js << " \"crashes\": " << crashes << ",\n";
  js << " \"unconfirmed\": " << unconfirmed << ",\n";
  js << " \"truncated_tasks\": " << sh->truncated << ",\n";
  js << " \"abandoned_scenarios\": " << abandoned.size() << ",\n";
  js << " \"timed_out\": " << (timed_out ? "true" : "false") << ",\n";
  js << " \"exhaustive\": " << ((!timed_out && !sh->stop && sh->truncated == 0 && abandoned.empty()) ? "true" : "false") << ",\n";
  js << " \"wall_s\": " << std::chrono::duration<double>(clock::now() - start).count() << ",\n";
  js << " \"per_scenario\": [";
  bool first = true;
  for (std::size_t i = 0; i < scenarios.size(); i++)
  {
    js << (first ? "\n  " : ",\n  ");
    first = false;
    js << "{\"name\": \"" << json_escape(scenarios[i].name) << "\", \"executions\": " << execs[(int)i] << ", \"states\": " << states[(int)i].size()
       << ", \"outcomes\": " << outcomes[(int)i].size() << ", \"top_outcomes\": [";
    std::vector<std::tuple<long, std::string, std::string>> o;
    for (auto & [k, c] : outcomes[(int)i])
      o.push_back({c.count, k, c.trace});
    std::sort(o.rbegin(), o.rend());
    for (std::size_t k = 0; k < o.size() && k < 6; k++)
      js << (k ? ", " : "") << "[\"" << json_escape(std::get<1>(o[k])) << "\", " << std::get<0>(o[k]) << ", \"" << std::get<2>(o[k]) << "\"]";
    js << "]}";
  }
  js << "],\n \"violations\": [";
  first = true;
  for (auto & c : confirmed)
  {
    js << (first ? "\n  " : ",\n  ");
    first = false;
    js << "{\"scenario\": \"" << json_escape(scenarios[c.scenario].name) << "\", \"trace\": \"" << trace_str(c.trace) << "\", \"known\": " << c.known
       << ", \"message\": \"" << json_escape(c.message) << "\", \"log\": \"" << json_escape(c.log.substr(0, 60000)) << "\"}";
  }
  js << "]\n}\n";
  std::ofstream of(out);
  of << js.str();
  of.close();
  cleanup();
  int rc = 0;
  for (auto & c : confirmed)
    if (c.known < 0)
      rc = 1;
  return rc;
}
}
