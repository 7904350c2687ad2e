// Small property-based testing engine.
//
// A case is a sequence of integers ("choices") drawn by the generators of a test.  Random cases draw
// them from a generator seeded from (VERIF_SEED, test name, case number); shrinking edits the
// sequence and re-runs the test; a replay file is the sequence itself.  All cases run in forked
// workers, so that a crash, a sanitizer report or a hang of the code under test is an observation
// like any other.  A failure is confirmed three times before it is reported.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt
{
using Choices = std::vector<uint64_t>;

struct Failure
{
  std::string sig, msg;
};
struct Discard
{
};

inline uint64_t splitmix(uint64_t & s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void * p, size_t n, uint64_t h = 1469598103934665603ULL)
{
  auto b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t hash_str(const std::string & s, uint64_t h = 1469598103934665603ULL)
{
  return hash_bytes(s.data(), s.size(), h);
}

constexpr size_t MAX_CHOICES = 1 << 16;
// shared between a worker and its parent
struct Shared
{
  std::atomic<uint64_t> case_no;
  std::atomic<uint64_t> evaluations;
  std::atomic<uint64_t> discards;
  std::atomic<uint32_t> status;  // 0 running, 1 finished ok, 2 failure recorded
  std::atomic<uint32_t> n_choices;
  std::atomic<uint32_t> test_index;
  char sig[512];
  char msg[8192];
  uint64_t choices[MAX_CHOICES];
};

inline std::string fmt_printf(const char * f, va_list ap)
{
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
inline std::string strf(const char * f, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  auto s = fmt_printf(f, ap);
  va_end(ap);
  return s;
}
inline std::string num(double v)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

class Case
{
public:
  Case(uint64_t seed, const Choices * replay, Shared * sh, bool verbose)
  : rng_(seed), replay_(replay), sh_(sh), verbose_(verbose)
  {
    if (sh_) sh_->n_choices = 0;
  }

  // ---- primitive draw: uniform in [0, max]; 0 is the simplest choice
  uint64_t draw(uint64_t max)
  {
    uint64_t v;
    if (replay_)
    {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
    }
    else
    {
      uint64_t r = splitmix(rng_);
      v = max == UINT64_MAX ? r : static_cast<uint64_t>((static_cast<unsigned __int128>(r) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
    }
    if (pos_ >= MAX_CHOICES) throw Discard{};
    if (sh_)
    {
      sh_->choices[pos_] = v;
      sh_->n_choices.store(static_cast<uint32_t>(pos_ + 1), std::memory_order_relaxed);
    }
    ++pos_;
    digest_ = hash_bytes(&v, sizeof v, digest_);
    return v;
  }
  size_t below(size_t n) { return n <= 1 ? 0 : static_cast<size_t>(draw(n - 1)); }
  int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo))); }
  bool coin() { return draw(1) == 1; }
  // true with `percent` probability; 0 (the simplest choice) is false
  bool chance(unsigned percent) { return draw(99) >= 100 - percent; }
  // continue flag for sequences: average length `avg`; 0 stops
  bool more(unsigned avg) { return draw(avg) != 0; }
  template <class T>
  const T & pick(const std::vector<T> & v)
  {
    return v[below(v.size())];
  }
  template <class T>
  T pick(std::initializer_list<T> v)
  {
    return *(v.begin() + below(v.size()));
  }
  // index by integer weights; put the simplest alternative first
  size_t weighted(std::initializer_list<unsigned> w)
  {
    unsigned tot = 0;
    for (auto x : w) tot += x;
    uint64_t r = draw(tot - 1);
    size_t i = 0;
    for (auto x : w)
    {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  // "nice" finite number in [lo,hi]: mixes simple, grid and full-resolution values
  double real(double lo, double hi)
  {
    switch (weighted({4, 3, 2}))
    {
      case 0:
      {  // grid of 40 points
        uint64_t k = draw(40);
        return lo + (hi - lo) * (static_cast<double>(k) / 40.0);
      }
      case 1:
      {
        uint64_t k = draw(100000);
        return lo + (hi - lo) * (static_cast<double>(k) / 100000.0);
      }
      default:
      {
        uint64_t k = draw((1ULL << 53) - 1);
        return lo + (hi - lo) * (static_cast<double>(k) / 9007199254740991.0);
      }
    }
  }
  // any double: bit patterns, specials, decimals
  double any_double()
  {
    switch (weighted({3, 3, 2, 2}))
    {
      case 0: return static_cast<double>(range(-100, 100));
      case 1:
        return pick<double>(
          {0.0, -0.0, 1.0, -1.0, 0.5, std::numeric_limits<double>::quiet_NaN(),
           std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
           std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(),
           std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(),
           std::numeric_limits<double>::epsilon(), 1e300, -1e-300, 9007199254740993.0});
      case 2: return real(-10, 10);
      default:
      {
        uint64_t b = draw(UINT64_MAX);
        double d;
        memcpy(&d, &b, sizeof d);
        return d;
      }
    }
  }
  template <class T>
  void shuffle(std::vector<T> & v)
  {
    for (size_t i = v.size(); i > 1; --i)
    {
      size_t j = i - 1 - below(i);
      std::swap(v[i - 1], v[j]);
    }
  }

  // ---- bookkeeping
  void label(const std::string & l) { labels_.insert(l); }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void note(const char * f, ...) __attribute__((format(printf, 2, 3)))
  {
    va_list ap;
    va_start(ap, f);
    auto s = fmt_printf(f, ap);
    va_end(ap);
    notes(s);
  }
  void notes(const std::string & s)
  {
    if (verbose_) fprintf(stderr, "    | %s\n", s.c_str());
    if (log_.size() < 20000)
    {
      log_ += s;
      log_ += '\n';
    }
  }
  [[noreturn]] void fail(const std::string & sig, const std::string & msg)
  {
    throw Failure{sig, msg};
  }
  void check(bool ok, const std::string & sig, const std::string & msg)
  {
    if (!ok) fail(sig, msg);
  }
  void checkf(bool ok, const char * sig, const char * f, ...) __attribute__((format(printf, 4, 5)))
  {
    if (ok) return;
    va_list ap;
    va_start(ap, f);
    auto s = fmt_printf(f, ap);
    va_end(ap);
    fail(sig, s);
  }
  [[noreturn]] void discard() { throw Discard{}; }

  uint64_t digest() const { return digest_; }
  size_t used() const { return pos_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::set<std::string> & labels() const { return labels_; }
  const std::string & log() const { return log_; }

private:
  uint64_t rng_;
  const Choices * replay_;
  Shared * sh_;
  bool verbose_;
  size_t pos_ = 0;
  uint64_t digest_ = 1469598103934665603ULL;
  bool nontrivial_ = false;
  std::set<std::string> labels_;
  std::string log_;
};

struct Test
{
  std::string name;
  unsigned weight;
  std::function<void(Case &)> fn;
};
struct Options
{
  std::string property;
  std::string rule;
  uint64_t quick_cases = 20000;
  uint64_t thorough_cases = 1000000;
  unsigned quick_cap_s = 150;      // hard cap, the case budget is meant to end first
  unsigned thorough_cap_s = 1500;
  unsigned case_timeout_s = 60;
  unsigned workers = 8;
  std::vector<std::string> assumptions;
  std::function<void()> worker_init;  // run once in each worker / isolated child
  // evidence only: what a crash/hang means
};

namespace detail
{
inline Shared * new_shared()
{
  void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
  {
    perror("mmap");
    exit(2);
  }
  return new (p) Shared();
}
inline void put(char * dst, size_t n, const std::string & s)
{
  size_t k = std::min(n - 1, s.size());
  memcpy(dst, s.data(), k);
  dst[k] = 0;
}
inline std::string json_str(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += static_cast<char>(c);
    }
    else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c >= 0x7f)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += static_cast<char>(c);
  }
  return o + "\"";
}
// runs the test body; returns true when passed/discarded, false and fills f on failure
inline bool run_body(const Test & t, Case & c, Failure & f, bool & discarded)
{
  discarded = false;
  try
  {
    t.fn(c);
    return true;
  }
  catch (const Discard &)
  {
    discarded = true;
    return true;
  }
  catch (const Failure & e)
  {
    f = e;
  }
  catch (const std::exception & e)
  {
    f.sig = "uncaught-exception";
    f.msg = std::string("uncaught exception: ") + e.what();
  }
  catch (...)
  {
    f.sig = "uncaught-exception";
    f.msg = "uncaught exception of unknown type";
  }
  return false;
}
struct Outcome
{
  bool failed = false;
  std::string sig, msg;
  Choices used;
};
inline double now_s()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline void silence(const std::string & file)
{
  int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0)
  {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}
// Signature of a sanitizer report / crash, from its stderr
inline std::string crash_sig(int status, const std::string & errfile)
{
  std::ifstream in(errfile);
  std::string line, first;
  while (std::getline(in, line))
  {
    auto p = line.find("runtime error: ");
    if (p != std::string::npos)
    {
      first = "ubsan:" + line.substr(p + 15, 60);
      break;
    }
    p = line.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos)
    {
      first = "asan:" + line.substr(p + 25, line.substr(p + 25).find(' '));
      break;
    }
    p = line.find("terminate called");
    if (p != std::string::npos) first = "terminate";
  }
  for (auto & ch : first)
    if (ch == ' ' || ch == '\t') ch = '_';
  if (WIFSIGNALED(status))
  {
    if (WTERMSIG(status) == SIGALRM) return "hang";
    if (first.empty()) first = strf("signal%d", WTERMSIG(status));
  }
  else if (first.empty())
    first = strf("exit%d", WEXITSTATUS(status));
  return "crash:" + first;
}
}  // namespace detail

inline int run(int argc, char ** argv, const Options & opt, const std::vector<Test> & tests)
{
  using namespace detail;
  const char * tier_env = getenv("VERIF_TIER");
  std::string tier = tier_env ? tier_env : "quick";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
  std::string outdir = getenv("PBT_OUT") ? getenv("PBT_OUT") : ".";
  std::string known_file = getenv("PBT_KNOWN") ? getenv("PBT_KNOWN") : "";
  std::string evidence = getenv("PBT_EVIDENCE") ? getenv("PBT_EVIDENCE") : "";
  std::string only = getenv("PBT_TEST") ? getenv("PBT_TEST") : "";
  double scale = getenv("PBT_SCALE") ? atof(getenv("PBT_SCALE")) : 1.0;
  unsigned nworkers = getenv("PBT_WORKERS") ? atoi(getenv("PBT_WORKERS")) : opt.workers;
  double t0 = now_s();

  // known findings: "KNOWN property=<id> sig=<sig> <what fails>"
  std::map<std::string, std::string> known;
  {
    std::ifstream in(known_file);
    std::string line;
    std::string want = "KNOWN property=" + opt.property + " sig=";
    while (std::getline(in, line))
      if (line.rfind(want, 0) == 0)
      {
        auto rest = line.substr(want.size());
        auto sp = rest.find(' ');
        known[rest.substr(0, sp)] = sp == std::string::npos ? "" : rest.substr(sp + 1);
      }
  }
  auto test_index = [&](const std::string & n) -> int
  {
    for (size_t i = 0; i < tests.size(); ++i)
      if (tests[i].name == n) return static_cast<int>(i);
    return -1;
  };
  Shared * iso = new_shared();
  std::string iso_err = outdir + "/isolated.stderr";

  // run one case (by choices) in a child
  auto isolated = [&](size_t ti, const Choices & ch, bool verbose, unsigned timeout) -> Outcome
  {
    Outcome o;
    iso->status = 0;
    iso->n_choices = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
      if (!verbose) silence(iso_err);
      struct rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      alarm(timeout);
      if (opt.worker_init) opt.worker_init();
      Case c(0, &ch, iso, verbose);
      Failure f;
      bool d;
      if (run_body(tests[ti], c, f, d))
        iso->status = 1;
      else
      {
        put(iso->sig, sizeof iso->sig, f.sig);
        put(iso->msg, sizeof iso->msg, f.msg);
        iso->status = 2;
      }
      fflush(nullptr);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    {
    }
    o.used.assign(iso->choices, iso->choices + iso->n_choices.load());
    if (iso->status == 1) return o;
    o.failed = true;
    if (iso->status == 2)
    {
      o.sig = iso->sig;
      o.msg = iso->msg;
    }
    else
    {
      o.sig = crash_sig(st, iso_err);
      o.msg = "the code under test did not return normally: " + o.sig;
      if (!verbose)
      {
        std::ifstream in(iso_err);
        std::string line;
        int n = 0;
        while (std::getline(in, line) && n < 40)
          if (line.find("runtime error") != std::string::npos || line.find("ERROR: Addr") != std::string::npos ||
              line.find("    #") == 0 || line.find("what()") != std::string::npos)
          {
            o.msg += "\n" + line;
            ++n;
          }
      }
    }
    return o;
  };

  // ---------------------------------------------------------------- replay
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == "--replay")
    {
      std::ifstream in(argv[i + 1]);
      std::string word, tname;
      Choices ch;
      std::string line;
      while (std::getline(in, line))
      {
        std::istringstream ls(line);
        ls >> word;
        if (word == "test") ls >> tname;
        if (word == "choices")
        {
          uint64_t v;
          while (ls >> v) ch.push_back(v);
        }
      }
      int ti = test_index(tname);
      if (ti < 0)
      {
        fprintf(stderr, "unknown test %s\n", tname.c_str());
        return 2;
      }
      auto o = isolated(ti, ch, true, opt.case_timeout_s);
      if (!o.failed)
      {
        printf("replay passes\n");
        return 0;
      }
      printf("replay fails: [%s] %s\n", o.sig.c_str(), o.msg.c_str());
      printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), argv[i + 1]);
      return 1;
    }

  // ---------------------------------------------------------------- schedule of tests
  std::vector<size_t> sched;
  for (size_t i = 0; i < tests.size(); ++i)
    if (only.empty() || only == tests[i].name)
      for (unsigned k = 0; k < tests[i].weight; ++k) sched.push_back(i);
  if (sched.empty())
  {
    fprintf(stderr, "no tests\n");
    return 2;
  }
  const uint64_t total = static_cast<uint64_t>(
    scale * static_cast<double>(tier == "thorough" ? opt.thorough_cases : opt.quick_cases));
  const double cap = tier == "thorough" ? opt.thorough_cap_s : opt.quick_cap_s;
  auto case_seed = [&](uint64_t n, size_t ti)
  {
    uint64_t s = seed * 0x9e3779b97f4a7c15ULL ^ hash_str(opt.property + "/" + tests[ti].name);
    s += n * 0xd1342543de82ef95ULL;
    splitmix(s);
    return splitmix(s);
  };

  struct Worker
  {
    pid_t pid = -1;
    Shared * sh = nullptr;
    bool done = false;
    uint64_t next = 0;
    std::string stat;
    std::string err;
    int generation = 0;
  };
  std::vector<Worker> ws(nworkers);
  auto start = [&](unsigned w)
  {
    Worker & W = ws[w];
    W.sh->status = 0;
    W.stat = outdir + strf("/worker%u.%d.stat", w, W.generation);
    W.err = outdir + strf("/worker%u.stderr", w);
    ++W.generation;
    fflush(nullptr);
    W.pid = fork();
    if (W.pid != 0) return;
    // ---- worker
    silence(W.err);
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (opt.worker_init) opt.worker_init();
    std::map<std::string, uint64_t> labels, known_hits;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    auto dump = [&]
    {
      std::ofstream o(W.stat);
      for (auto & l : labels) o << "L " << l.second << " " << l.first << "\n";
      for (auto & l : known_hits) o << "K " << l.second << " " << l.first << "\n";
      for (auto d : distinct) o << "D " << d << "\n";
      for (auto & s : samples) o << "S " << json_str(s) << "\n";
    };
    uint64_t n = W.next;
    bool stop = false;
    double last_dump = now_s();
    for (; n < total && !stop; n += nworkers)
    {
      size_t ti = sched[(n / nworkers) % sched.size()];
      W.sh->case_no = n;
      W.sh->test_index = static_cast<uint32_t>(ti);
      alarm(opt.case_timeout_s);
      Case c(case_seed(n, ti), nullptr, W.sh, false);
      Failure f;
      bool d;
      bool ok = run_body(tests[ti], c, f, d);
      alarm(0);
      W.sh->evaluations++;
      if (d) W.sh->discards++;
      if (!ok && known.count(f.sig))
      {
        known_hits[f.sig]++;
        ok = true;
      }
      if (!ok)
      {
        put(W.sh->sig, sizeof W.sh->sig, f.sig);
        put(W.sh->msg, sizeof W.sh->msg, f.msg);
        dump();
        W.sh->status = 2;
        _exit(0);
      }
      if (!d)
      {
        labels["test:" + tests[ti].name]++;
        for (auto & l : c.labels()) labels[l]++;
        if (c.is_nontrivial())
        {
          labels["nontrivial:" + tests[ti].name]++;
          if (distinct.insert(c.digest() ^ ti).second && samples.size() < 3 &&
              (samples.empty() || (distinct.size() & (distinct.size() - 1)) == 0))
            samples.push_back("[" + tests[ti].name + "] " + c.log().substr(0, 1500));
        }
      }
      double t = now_s();
      if (t - t0 > cap) stop = true;
      if (t - last_dump > 5)
      {
        dump();
        last_dump = t;
      }
    }
    dump();
    W.sh->status = 1;
    fflush(nullptr);
    _exit(0);
  };
  for (unsigned w = 0; w < nworkers; ++w)
  {
    ws[w].sh = new_shared();
    ws[w].next = w;
    start(w);
  }

  struct Found
  {
    size_t ti;
    Choices ch;
    std::string sig, msg;
  };
  std::vector<Found> found;
  unsigned live = nworkers, unconfirmed = 0;
  std::map<std::string, uint64_t> extra_known;
  while (live)
  {
    int st = 0;
    pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0)
    {
      if (errno == EINTR) continue;
      break;
    }
    for (unsigned w = 0; w < nworkers; ++w)
      if (ws[w].pid == pid)
      {
        Worker & W = ws[w];
        --live;
        W.pid = -1;
        if (W.sh->status == 1) break;
        size_t ti = W.sh->test_index;
        Choices ch(W.sh->choices, W.sh->choices + W.sh->n_choices.load());
        std::string sig, msg;
        if (W.sh->status == 2)
        {
          sig = W.sh->sig;
          msg = W.sh->msg;
        }
        else
        {
          sig = crash_sig(st, W.err);
          msg = sig;
        }
        // a worker that ran out of memory or was stopped from outside is not an observation
        if (getenv("PBT_KEEP_STDERR")) rename(W.err.c_str(), (outdir + strf("/crash%u.stderr", unconfirmed)).c_str());
        int same = 0;
        Outcome o;
        for (int k = 0; k < 3; ++k)
        {
          o = isolated(ti, ch, false, opt.case_timeout_s);
          if (o.failed) ++same;
        }
        if (same == 3)
        {
          if (known.count(o.sig))
          {
            extra_known[o.sig]++;
          }
          else
            found.push_back({ti, ch, o.sig, o.msg});
        }
        else
        {
          ++unconfirmed;
          fprintf(stderr, "note: failure of case %llu (%s: %s) did not reproduce (%d of 3); not reported\n",
                  static_cast<unsigned long long>(W.sh->case_no.load()), sig.c_str(), msg.c_str(), same);
        }
        if (found.empty() && W.generation < 200)
        {
          W.next = W.sh->case_no + nworkers;
          start(w);
          ++live;
        }
        break;
      }
    if (!found.empty())
    {
      for (auto & W : ws)
        if (W.pid > 0) kill(W.pid, SIGKILL);
      for (auto & W : ws)
        if (W.pid > 0)
        {
          waitpid(W.pid, &st, 0);
          W.pid = -1;
        }
      live = 0;
    }
  }

  // ---------------------------------------------------------------- shrink and report
  int rc = 0;
  std::string replay_path;
  if (!found.empty())
  {
    Found F = found[0];
    double deadline = now_s() + 60;
    unsigned tries = 0;
    auto still = [&](const Choices & cand) -> bool
    {
      ++tries;
      auto o = isolated(F.ti, cand, false, opt.case_timeout_s);
      if (o.failed && o.sig == F.sig)
      {
        // keep what was really consumed
        Choices u = o.used;
        if (u.size() <= F.ch.size())
        {
          F.ch = u;
          F.msg = o.msg;
          return true;
        }
      }
      return false;
    };
    still(F.ch);
    bool improved = F.sig != "hang";
    while (improved && now_s() < deadline)
    {
      improved = false;
      for (size_t k : {64u, 32u, 16u, 8u, 4u, 2u, 1u})
        for (size_t i = F.ch.size(); i-- > 0 && now_s() < deadline;)
        {
          if (i + k > F.ch.size()) continue;
          Choices cand = F.ch;
          cand.erase(cand.begin() + i, cand.begin() + i + k);
          size_t before = F.ch.size();
          if (still(cand) && F.ch.size() < before) improved = true;
        }
      for (size_t i = 0; i < F.ch.size() && now_s() < deadline; ++i)
      {
        if (F.ch[i] == 0) continue;
        Choices cand = F.ch;
        cand[i] = 0;
        if (still(cand))
        {
          improved = true;
          continue;
        }
        uint64_t lo = 0;
        while (i < F.ch.size() && F.ch[i] > lo + 1 && now_s() < deadline)
        {
          uint64_t mid = lo + (F.ch[i] - lo) / 2;
          cand = F.ch;
          cand[i] = mid;
          if (still(cand))
            improved = true;
          else
            lo = mid;
        }
      }
    }
    // final confirmation
    int same = 0;
    Outcome o;
    for (int k = 0; k < 3; ++k)
    {
      o = isolated(F.ti, F.ch, false, opt.case_timeout_s);
      if (o.failed) ++same;
    }
    std::string sigfile;
    for (char ch : F.sig) sigfile += isalnum(static_cast<unsigned char>(ch)) ? ch : '_';
    replay_path = outdir + "/replay-" + sigfile.substr(0, 60) + ".txt";
    std::ofstream r(replay_path);
    r << "property " << opt.property << "\ntest " << tests[F.ti].name << "\nsig " << F.sig << "\nchoices";
    for (auto v : F.ch) r << " " << v;
    r << "\nmessage " << F.msg << "\n";
    r.close();
    printf("FAIL [%s] %s\n", F.sig.c_str(), F.msg.c_str());
    printf("shrunk to %zu choices in %u attempts\n", F.ch.size(), tries);
    fflush(nullptr);
    {
      // print the history of the minimal case
      dup2(1, 2);
      isolated(F.ti, F.ch, true, opt.case_timeout_s);
    }
    rc = 1;
  }

  // ---------------------------------------------------------------- evidence
  std::map<std::string, uint64_t> labels, known_hits = extra_known;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t evals = 0, disc = 0;
  for (auto & W : ws)
  {
    evals += W.sh->evaluations;
    disc += W.sh->discards;
    for (int g = 0; g < W.generation; ++g)
    {
      std::string fn = outdir + strf("/worker%u.%d.stat", static_cast<unsigned>(&W - ws.data()), g);
      std::ifstream in(fn);
      std::string line;
      while (std::getline(in, line))
      {
        if (line.size() < 3) continue;
        if (line[0] == 'D')
          distinct.insert(strtoull(line.c_str() + 2, nullptr, 10));
        else if (line[0] == 'S')
          samples.push_back(line.substr(2));
        else
        {
          char * e;
          uint64_t n = strtoull(line.c_str() + 2, &e, 10);
          (line[0] == 'L' ? labels : known_hits)[e + 1] += n;
        }
      }
      in.close();
      unlink(fn.c_str());
    }
  }
  for (auto & k : known)
    if (known_hits.count(k.first))
      printf("KNOWN-FINDING: property=%s %s (%llu cases)\n", opt.property.c_str(), k.second.c_str(),
             static_cast<unsigned long long>(known_hits[k.first]));
  double wall = now_s() - t0;
  if (!evidence.empty())
  {
    std::ofstream e(evidence);
    e << "{\"property\":" << json_str(opt.property) << ",\"tier\":" << json_str(tier) << ",\"seed\":" << seed
      << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << evals
      << ",\"distinct_nontrivial\":" << distinct.size() << ",\"discarded\":" << disc
      << ",\"unconfirmed_failures\":" << unconfirmed << ",\"rule\":" << json_str(opt.rule) << ",\"labels\":{";
    bool first = true;
    for (auto & l : labels)
    {
      e << (first ? "" : ",") << json_str(l.first) << ":" << l.second;
      first = false;
    }
    e << "},\"samples\":[";
    // one sample per test first, at most 8
    std::vector<std::string> pick;
    std::set<std::string> seen;
    for (auto & s : samples)
      if (seen.insert(s.substr(0, s.find(']'))).second) pick.push_back(s);
    for (auto & s : samples)
      if (pick.size() < 4) pick.push_back(s);
    for (size_t i = 0; i < std::min<size_t>(8, pick.size()); ++i) e << (i ? "," : "") << pick[i];
    e << "]},\"assumptions\":[";
    for (size_t i = 0; i < opt.assumptions.size(); ++i) e << (i ? "," : "") << json_str(opt.assumptions[i]);
    e << "],\"wall_s\":" << wall << ",\"violations\":" << (rc ? 1 : 0) << "}\n";
  }
  printf("%s: %llu cases (%llu discarded), %zu distinct non-trivial, %.1f s, seed %llu\n", opt.property.c_str(),
         static_cast<unsigned long long>(evals), static_cast<unsigned long long>(disc), distinct.size(), wall,
         static_cast<unsigned long long>(seed));
  if (getenv("PBT_LABELS"))
    for (auto & l : labels) printf("   %8llu %s\n", static_cast<unsigned long long>(l.second), l.first.c_str());
  if (rc) printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), replay_path.c_str());
  fflush(nullptr);
  return rc;
}
}  // namespace pbt
