// pbt.h - a small property-based testing engine (choice-sequence based generation, forked
// workers, integrated shrinking, replay files).  One binary per property; the Python driver
// (/verif/check.py) builds the binary against /repo's current tree and turns its result file
// into an evidence file and VIOLATION / KNOWN-FINDING lines.
//
// A property is a function void f(pbt::Source& s).  Every random decision is drawn from s, so
// a case is a pure function of the recorded choice sequence: shrinking and replay operate on
// that sequence only.  Failures are reported with pbt::fail(kind, message); a crash, a
// sanitizer report, an uncaught exception or an exhausted CPU budget are failures too.
#ifndef PBT_H
#define PBT_H

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_set_report_fd(void *fd);
#endif

namespace pbt {

struct Failure { std::string kind, msg; };
struct Discard { };

[[noreturn]] inline void fail(const std::string& kind, const std::string& msg) { throw Failure{kind, msg}; }
[[noreturn]] inline void discard() { throw Discard(); }

inline uint64_t mix(uint64_t x)
{
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL)
{
  const unsigned char *s = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i)
    h = (h ^ s[i]) * 0x100000001b3ULL;
  return mix(h);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 0xcbf29ce484222325ULL) { return hash_bytes(s.data(), s.size(), h); }

// printable rendering of a byte string
inline std::string show(const std::string& s, size_t max = 400)
{
  std::string r = "\"";
  char b[8];
  for (size_t i = 0; i < s.size(); ++i)
  {
    if (i >= max)
    {
      char t[48];
      snprintf(t, sizeof(t), "\"...(%zu bytes)", s.size());
      return r + t;
    }
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c == '\\' || c == '"') { r += '\\'; r += static_cast<char>(c); }
    else if (c >= 32 && c < 127) r += static_cast<char>(c);
    else { snprintf(b, sizeof(b), "\\x%02x", c); r += b; }
  }
  return r + "\"";
}
inline std::string str(long long v) { return std::to_string(v); }
inline std::string fmt(const char *f, ...)
{
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof(b), f, ap);
  va_end(ap);
  return b;
}

static const size_t MAXCHOICE = 1 << 17;
static const size_t MAXNOTE = 1 << 16;
static const size_t MAXLABEL = 160;
static const size_t MAXCASES = 1 << 21;

// shared between a worker and the parent
struct Slot {
  volatile uint32_t nchoice;
  uint32_t choice[MAXCHOICE];
  volatile uint32_t notelen;
  char note[MAXNOTE];
  volatile int state;          // 0 idle, 1 running, 2 failed (recorded), 3 done
  volatile int part;
  volatile uint64_t index;     // current case index
  volatile uint64_t evals, discards, skipped;
  char kind[256];
  char msg[8192];
  struct { char name[48]; volatile uint64_t n; } label[MAXLABEL];
  volatile uint32_t nsample;
  char sample[6][3000];
  volatile uint64_t nhash;
  uint64_t hash[MAXCASES];
};

class Source {
 public:
  Source(Slot *slot, uint64_t seed) : slot_(slot), replay_(NULL), state_(seed) { reset(); }
  Source(Slot *slot, const std::vector<uint32_t> *replay) : slot_(slot), replay_(replay), state_(0) { reset(); }
  // uniform in [0,n), 0 is the simplest value
  uint32_t below(uint32_t n)
  {
    if (n <= 1)
      return 0;
    uint32_t k = slot_->nchoice;
    if (k >= MAXCHOICE)
      throw Discard();
    uint32_t v;
    if (replay_)
      v = k < replay_->size() ? ((*replay_)[k] < n ? (*replay_)[k] : (*replay_)[k] % n) : 0;
    else
      v = static_cast<uint32_t>((static_cast<unsigned __int128>(next()) * n) >> 64);
    slot_->choice[k] = v;
    slot_->nchoice = k + 1;
    return v;
  }
  // value of the case index modulo n: enumerates 0..n-1 over consecutive cases (recorded, shrunk and replayed as any choice)
  uint32_t cycle(uint32_t n)
  {
    uint32_t k = slot_->nchoice;
    uint32_t v = replay_ ? (k < replay_->size() ? (*replay_)[k] % n : 0) : static_cast<uint32_t>(slot_->index % n);
    slot_->choice[k] = v;
    slot_->nchoice = k + 1;
    return v;
  }
  // [lo,hi] inclusive, lo is simplest
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint32_t>(hi - lo + 1))); }
  // true with probability num/den; false is simplest
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
  bool flip() { return below(2) != 0; }
  // list continuation flag: keep going with average length avg; 0 = stop
  bool more(uint32_t avg) { return below(avg + 1) != 0; }
  // weighted choice: index 0 is simplest
  size_t weighted(std::initializer_list<uint32_t> w)
  {
    uint32_t t = 0;
    for (uint32_t x : w) t += x;
    uint32_t v = below(t);
    size_t i = 0;
    for (uint32_t x : w)
    {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return 0;
  }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(static_cast<uint32_t>(v.size()))]; }
  char pickc(const std::string& v) { return v[below(static_cast<uint32_t>(v.size()))]; }
  // description of the case, written into shared memory so that it survives a crash
  void note(const std::string& key, const std::string& val)
  {
    std::string t = key + ": " + val + "\n";
    uint32_t n = slot_->notelen;
    size_t k = t.size();
    if (n + k >= MAXNOTE)
      k = n < MAXNOTE - 1 ? MAXNOTE - 1 - n : 0;
    memcpy(slot_->note + n, t.data(), k);
    slot_->note[n + k] = '\0';
    slot_->notelen = static_cast<uint32_t>(n + k);
  }
  void label(const char *name)
  {
    for (size_t i = 0; i < MAXLABEL; ++i)
    {
      if (slot_->label[i].name[0] == '\0')
      {
        snprintf(slot_->label[i].name, sizeof(slot_->label[i].name), "%s", name);
        slot_->label[i].n = 1;
        return;
      }
      if (strncmp(slot_->label[i].name, name, sizeof(slot_->label[i].name) - 1) == 0)
      {
        ++slot_->label[i].n;
        return;
      }
    }
  }
  // mark this case as non-trivial, identified by h for distinctness
  void nontrivial(uint64_t h) { nontrivial_ = true; hash_ = h ? h : 1; }
  bool is_nontrivial() const { return nontrivial_; }
  uint64_t hash() const { return hash_; }
  bool replaying() const { return replay_ != NULL; }
 private:
  void reset() { slot_->nchoice = 0; slot_->notelen = 0; slot_->note[0] = '\0'; nontrivial_ = false; hash_ = 0; }
  uint64_t next() { state_ += 0x9E3779B97F4A7C15ULL; return mix(state_); }
  Slot *slot_;
  const std::vector<uint32_t> *replay_;
  uint64_t state_;
  bool nontrivial_;
  uint64_t hash_;
};

typedef void (*Prop)(Source&);

struct Part {
  const char *name;
  Prop fn;
  uint64_t quick, thorough; // number of cases per tier
  unsigned cpu;             // CPU seconds per case before it counts as a hang
};

struct Config {
  uint64_t seed;
  bool thorough;
  double wall;    // stop starting new cases after this many seconds
  unsigned jobs;
  std::string out, replay_file, workdir, only;
  double scale;
  long one;
};

extern std::vector<Part> parts(); // defined by the harness

// scratch directory of this run (exists), removed by the driver
inline std::string& workdir() { static std::string w; return w; }
inline bool& thorough() { static bool t = false; return t; }

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// what the case is doing, reported when it is killed for using too much CPU time
inline std::string& doing() { static std::string d; return d; }

inline void on_prof(int)
{
  (void)!write(2, doing().data(), doing().size());
  signal(SIGPROF, SIG_DFL);
  raise(SIGPROF);
}

inline void set_cpu_timer(unsigned sec)
{
  struct itimerval it;
  signal(SIGPROF, on_prof);
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, NULL);
}

inline Slot *new_slot()
{
  void *p = mmap(NULL, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return static_cast<Slot*>(p);
}

// run one case in this process; returns true when it did not fail
inline bool run_case(const Part& part, Source& s, Slot *slot)
{
  try
  {
    part.fn(s);
    return true;
  }
  catch (const Discard&)
  {
    ++slot->discards;
    return true;
  }
  catch (const Failure& f)
  {
    snprintf(slot->kind, sizeof(slot->kind), "%s", f.kind.c_str());
    snprintf(slot->msg, sizeof(slot->msg), "%s", f.msg.c_str());
  }
  catch (const std::exception& e)
  {
    snprintf(slot->kind, sizeof(slot->kind), "exception");
    snprintf(slot->msg, sizeof(slot->msg), "uncaught exception: %s", e.what());
  }
  catch (...)
  {
    snprintf(slot->kind, sizeof(slot->kind), "exception");
    snprintf(slot->msg, sizeof(slot->msg), "uncaught exception");
  }
  return false;
}

inline std::string describe_status(int st, const std::string& errfile)
{
  std::string r;
  if (WIFSIGNALED(st))
    r = fmt("process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else
    r = fmt("process exited with status %d", WEXITSTATUS(st));
  FILE *f = fopen(errfile.c_str(), "r");
  if (f)
  {
    char b[3000];
    size_t n = fread(b, 1, sizeof(b) - 1, f);
    b[n] = '\0';
    fclose(f);
    r += "\n";
    r += b;
  }
  return r;
}

inline std::string crash_kind(int st, const std::string& desc)
{
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
    return "hang";
  size_t p = desc.find("AddressSanitizer:");
  if (p != std::string::npos)
  {
    size_t e = desc.find_first_of(" \n", p + 18);
    return "asan:" + desc.substr(p + 18, e - p - 18);
  }
  if (desc.find("runtime error:") != std::string::npos)
    return "ubsan";
  return "crash";
}

struct Outcome { bool failed; std::string kind, msg, note; std::vector<uint32_t> choice; };

// run one choice sequence in a forked child
inline Outcome run_forked(const Part& part, const std::vector<uint32_t>& choice, Slot *slot, unsigned cpu, const std::string& tag)
{
  Outcome o;
  std::string err = workdir() + "/err." + tag;
  slot->state = 1;
  slot->nchoice = 0;
  slot->notelen = 0;
  slot->note[0] = '\0';
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0)
  {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    dup2(fd, 2);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    set_cpu_timer(cpu);
    bool ok;
    {
      Source s(slot, &choice);
      ok = run_case(part, s, slot);
    }
    slot->state = ok ? 3 : 2;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    continue;
  o.failed = slot->state != 3;
  if (slot->state == 2)
  {
    o.kind = slot->kind;
    o.msg = slot->msg;
  }
  else if (o.failed)
  {
    o.msg = describe_status(st, err);
    o.kind = crash_kind(st, o.msg);
  }
  o.note = std::string(slot->note, slot->notelen);
  o.choice.assign(slot->choice, slot->choice + slot->nchoice);
  unlink(err.c_str());
  return o;
}

inline std::string json_escape(const std::string& s)
{
  std::string r;
  char b[8];
  for (size_t i = 0; i < s.size(); ++i)
  {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r;
}

// shrink a failing choice sequence, keeping the failure kind
inline Outcome shrink(const Part& part, Outcome best, Slot *slot, double budget, unsigned cpu)
{
  double t0 = now();
  int tries = 0;
  std::string kind = best.kind;
  std::set<std::string> seen;
  auto attempt = [&](const std::vector<uint32_t>& c) -> bool
  {
    if (now() - t0 > budget || tries > 4000)
      return false;
    std::string key(reinterpret_cast<const char*>(c.data()), c.size() * 4);
    if (!seen.insert(key).second)
      return false;
    ++tries;
    Outcome o = run_forked(part, c, slot, cpu, "shrink");
    if (!o.failed || o.kind != kind)
      return false;
    // prefer shorter, then lexicographically smaller
    if (o.choice.size() > best.choice.size())
      return false;
    if (o.choice.size() == best.choice.size() && !(o.choice < best.choice))
      return false;
    best = o;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget)
  {
    progress = false;
    for (size_t len = 64; len >= 1; len /= 2)
      for (size_t i = 0; i < best.choice.size();)
      {
        std::vector<uint32_t> c(best.choice);
        size_t e = std::min(c.size(), i + len);
        c.erase(c.begin() + i, c.begin() + e);
        if (attempt(c)) progress = true; else i += len;
        if (now() - t0 > budget) break;
      }
    for (size_t len = 16; len >= 1; len /= 2)
      for (size_t i = 0; i + len <= best.choice.size(); i += len)
      {
        std::vector<uint32_t> c(best.choice);
        bool nz = false;
        for (size_t k = i; k < i + len; ++k) { if (c[k]) nz = true; c[k] = 0; }
        if (nz && attempt(c)) progress = true;
        if (now() - t0 > budget) break;
      }
    for (size_t i = 0; i < best.choice.size(); ++i)
    {
      uint32_t lo = 0, hi = best.choice[i];
      while (lo < hi && i < best.choice.size() && now() - t0 < budget)
      {
        uint32_t mid = lo + (hi - lo) / 2;
        std::vector<uint32_t> c(best.choice);
        c[i] = mid;
        if (attempt(c)) { progress = true; if (i >= best.choice.size()) break; hi = std::min(mid, best.choice[i]); }
        else lo = mid + 1;
      }
    }
    // lower a count and delete what it governed
    for (size_t i = 0; i < best.choice.size() && now() - t0 < budget; ++i)
      if (best.choice[i] > 0)
        for (size_t len = 1; len <= 4; ++len)
        {
          std::vector<uint32_t> c(best.choice);
          if (i + 1 + len > c.size())
            break;
          --c[i];
          c.erase(c.begin() + i + 1, c.begin() + i + 1 + len);
          if (attempt(c)) { progress = true; break; }
        }
  }
  return best;
}

inline int main_(int argc, char **argv)
{
  Config cfg;
  cfg.seed = 1;
  cfg.thorough = false;
  cfg.wall = 400;
  cfg.jobs = 8;
  cfg.scale = 1;
  cfg.one = -1;
  std::string replay_out = "replay.txt";
  double shrink_budget = 60;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") cfg.seed = strtoull(val().c_str(), NULL, 10);
    else if (a == "--thorough") cfg.thorough = true;
    else if (a == "--wall") cfg.wall = atof(val().c_str());
    else if (a == "--jobs") cfg.jobs = atoi(val().c_str());
    else if (a == "--scale") cfg.scale = atof(val().c_str());
    else if (a == "--out") cfg.out = val();
    else if (a == "--work") workdir() = val();
    else if (a == "--replay") cfg.replay_file = val();
    else if (a == "--replay-out") replay_out = val();
    else if (a == "--part") cfg.only = val();
    else if (a == "--shrink") shrink_budget = atof(val().c_str());
  }
  thorough() = cfg.thorough;
  signal(SIGPIPE, SIG_IGN);
  if (workdir().empty())
  {
    char t[] = "/tmp/pbt.XXXXXX";
    workdir() = mkdtemp(t);
  }
  std::vector<Part> ps = parts();
  Slot *probe = new_slot();

  if (!cfg.replay_file.empty())
  {
    FILE *f = fopen(cfg.replay_file.c_str(), "r");
    if (!f) { perror(cfg.replay_file.c_str()); return 3; }
    char *line = NULL;
    size_t cap = 0;
    std::string part;
    std::vector<uint32_t> choice;
    while (getline(&line, &cap, f) > 0)
    {
      if (strncmp(line, "part: ", 6) == 0) part = std::string(line + 6, strcspn(line + 6, "\n"));
      else if (strncmp(line, "choices:", 8) == 0)
      {
        char *p = line + 8;
        char *e;
        while (true)
        {
          unsigned long v = strtoul(p, &e, 10);
          if (e == p) break;
          choice.push_back(static_cast<uint32_t>(v));
          p = e;
        }
      }
    }
    fclose(f);
    free(line);
    for (const Part& p : ps)
      if (part == p.name)
      {
        Outcome o = run_forked(p, choice, probe, p.cpu * 3, "replay");
        printf("%s", o.note.c_str());
        if (o.failed)
          printf("REPLAY-FAILS kind=%s\n%s\n", o.kind.c_str(), o.msg.c_str());
        else
          printf("REPLAY-PASSES\n");
        return o.failed ? 1 : 0;
      }
    fprintf(stderr, "no part %s\n", part.c_str());
    return 3;
  }

  double t0 = now();
  uint64_t evals = 0, discards = 0, crashes_unrepro = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string,uint64_t> labels;
  std::vector<std::string> samples;
  bool incomplete = false;
  bool failed = false;
  Outcome best;
  std::string failpart;
  std::vector<std::string> partinfo;
  std::vector<std::string> unrepro;

  double total_weight = 0;
  for (const Part& p : ps) total_weight += 1;

  for (size_t pi = 0; pi < ps.size() && !failed; ++pi)
  {
    const Part& part = ps[pi];
    if (!cfg.only.empty() && cfg.only != part.name)
      continue;
    uint64_t total = static_cast<uint64_t>((cfg.thorough ? part.thorough : part.quick) * cfg.scale + 0.5);
    if (total == 0)
      continue;
    double p0 = now();
    // each part may use an equal share of what remains of the wall budget
    double deadline = p0 + std::max(5.0, (cfg.wall - (p0 - t0)) / static_cast<double>(ps.size() - pi));
    unsigned jobs = cfg.jobs;
    if (jobs > total) jobs = static_cast<unsigned>(total);
    std::vector<Slot*> slots(jobs);
    std::vector<pid_t> pids(jobs, -1);
    std::vector<uint64_t> nexts(jobs);
    static volatile int *stop = NULL;
    if (!stop)
      stop = static_cast<volatile int*>(mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *stop = 0;
    for (unsigned w = 0; w < jobs; ++w)
    {
      slots[w] = new_slot();
      nexts[w] = w;
    }
    auto spawn = [&](unsigned w)
    {
      std::string err = workdir() + fmt("/err.%zu.%u", pi, w);
      slots[w]->state = 1;
      slots[w]->nchoice = 0;
      slots[w]->index = nexts[w];
      fflush(NULL);
      pid_t pid = fork();
      if (pid == 0)
      {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
        dup2(fd, 2);
        int nul = open("/dev/null", O_RDWR);
        dup2(nul, 0);
        dup2(nul, 1);
        struct rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        Slot *slot = slots[w];
        for (uint64_t k = nexts[w]; k < total; k += jobs)
        {
          if (*stop || now() > deadline)
          {
            slot->skipped += (total - k + jobs - 1) / jobs;
            break;
          }
          slot->index = k;
          set_cpu_timer(part.cpu);
          Source s(slot, mix(mix(cfg.seed * 1000003ULL + pi) ^ mix(k + 0x5bd1e995ULL)));
          bool ok = run_case(part, s, slot);
          ++slot->evals;
          if (!ok)
          {
            slot->state = 2;
            *stop = 1;
            _exit(0);
          }
          if (s.is_nontrivial())
          {
            if (slot->nhash < MAXCASES)
              slot->hash[slot->nhash++] = s.hash();
            if (slot->nsample < 6 && slot->evals > slot->nsample * 37)
            {
              snprintf(slot->sample[slot->nsample], sizeof(slot->sample[0]), "%s", slot->note);
              ++slot->nsample;
            }
          }
        }
        slot->state = 3;
        _exit(0);
      }
      pids[w] = pid;
    };
    for (unsigned w = 0; w < jobs; ++w)
      spawn(w);
    unsigned live = jobs;
    std::vector<std::pair<uint64_t,Outcome> > fails;
    while (live > 0)
    {
      int st = 0;
      pid_t pid = wait(&st);
      if (pid < 0)
      {
        if (errno == EINTR) continue;
        break;
      }
      for (unsigned w = 0; w < jobs; ++w)
      {
        if (pids[w] != pid)
          continue;
        pids[w] = -1;
        --live;
        Slot *slot = slots[w];
        if (slot->state == 3)
          break;
        Outcome o;
        o.failed = true;
        o.choice.assign(slot->choice, slot->choice + slot->nchoice);
        o.note = std::string(slot->note, slot->notelen);
        if (slot->state == 2)
        {
          o.kind = slot->kind;
          o.msg = slot->msg;
        }
        else
        {
          ++slot->evals;
          o.msg = describe_status(st, workdir() + fmt("/err.%zu.%u", pi, w));
          o.kind = crash_kind(st, o.msg);
        }
        // confirm: the failure must reproduce 3 times from the choice sequence alone
        bool repro = true;
        for (int r = 0; r < (o.kind == "hang" ? 1 : 3) && repro; ++r)
        {
          Outcome q = run_forked(part, o.choice, probe, part.cpu * 2, "confirm");
          if (!q.failed)
            repro = false;
          else
          {
            o.kind = q.kind;
            o.msg = q.msg;
            o.note = q.note;
          }
        }
        if (repro)
        {
          fails.push_back(std::make_pair(slot->index, o));
          *stop = 1;
        }
        else
        {
          ++crashes_unrepro;
          if (unrepro.size() < 5)
            unrepro.push_back(o.kind + ": " + o.msg.substr(0, 600));
          *stop = 0;
          nexts[w] = slot->index + jobs;
          if (nexts[w] < total && crashes_unrepro < 200)
          {
            spawn(w);
            ++live;
          }
        }
        break;
      }
    }
    uint64_t pe = 0;
    for (unsigned w = 0; w < jobs; ++w)
    {
      Slot *slot = slots[w];
      pe += slot->evals;
      discards += slot->discards;
      if (slot->skipped)
        incomplete = true;
      for (uint64_t k = 0; k < slot->nhash; ++k)
        distinct.insert(mix(slot->hash[k] + pi));
      for (size_t k = 0; k < MAXLABEL && slot->label[k].name[0]; ++k)
        labels[std::string(part.name) + "/" + slot->label[k].name] += slot->label[k].n;
      if (w < 2)
        for (uint32_t k = 0; k < slot->nsample && k < 2; ++k)
          samples.push_back(std::string("[") + part.name + "] " + slot->sample[k]);
      munmap(slot, sizeof(Slot));
    }
    evals += pe;
    partinfo.push_back(fmt("\"%s\": {\"cases\": %llu, \"planned\": %llu, \"wall_s\": %.2f}", part.name, (unsigned long long)pe, (unsigned long long)total, now() - p0));
    if (!fails.empty())
    {
      failed = true;
      size_t b = 0;
      for (size_t i = 1; i < fails.size(); ++i)
        if (fails[i].second.choice.size() < fails[b].second.choice.size())
          b = i;
      best = shrink(part, fails[b].second, probe, shrink_budget, part.cpu + (fails[b].second.kind == "hang" ? 0 : part.cpu));
      failpart = part.name;
    }
  }

  if (failed)
  {
    FILE *f = fopen(replay_out.c_str(), "w");
    if (f)
    {
      fprintf(f, "part: %s\nkind: %s\n", failpart.c_str(), best.kind.c_str());
      fprintf(f, "choices:");
      for (uint32_t c : best.choice)
        fprintf(f, " %u", c);
      fprintf(f, "\n--- minimal case ---\n%s--- failure ---\n%s\n", best.note.c_str(), best.msg.c_str());
      fclose(f);
    }
    printf("FAILURE part=%s kind=%s\n%s%s\n", failpart.c_str(), best.kind.c_str(), best.note.c_str(), best.msg.c_str());
  }
  if (!cfg.out.empty())
  {
    FILE *f = fopen(cfg.out.c_str(), "w");
    if (!f) { perror(cfg.out.c_str()); return 3; }
    fprintf(f, "{\"evaluations\": %llu, \"discards\": %llu, \"distinct_nontrivial\": %llu, \"incomplete\": %s, \"unreproduced\": %llu, \"wall_s\": %.2f,\n",
        (unsigned long long)evals, (unsigned long long)discards, (unsigned long long)distinct.size(), incomplete ? "true" : "false", (unsigned long long)crashes_unrepro, now() - t0);
    fprintf(f, "\"parts\": {");
    for (size_t i = 0; i < partinfo.size(); ++i)
      fprintf(f, "%s%s", i ? ", " : "", partinfo[i].c_str());
    fprintf(f, "},\n\"labels\": {");
    bool first = true;
    for (auto& l : labels)
    {
      fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", json_escape(l.first).c_str(), (unsigned long long)l.second);
      first = false;
    }
    fprintf(f, "},\n\"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i)
      fprintf(f, "%s\"%s\"", i ? ",\n" : "", json_escape(samples[i].substr(0, 1500)).c_str());
    fprintf(f, "],\n\"unreproduced_detail\": [");
    for (size_t i = 0; i < unrepro.size(); ++i)
      fprintf(f, "%s\"%s\"", i ? ",\n" : "", json_escape(unrepro[i]).c_str());
    fprintf(f, "],\n\"failed\": %s", failed ? "true" : "false");
    if (failed)
      fprintf(f, ", \"part\": \"%s\", \"kind\": \"%s\", \"msg\": \"%s\", \"note\": \"%s\"", failpart.c_str(), json_escape(best.kind).c_str(), json_escape(best.msg).c_str(), json_escape(best.note).c_str());
    fprintf(f, "}\n");
    fclose(f);
  }
  return failed ? 1 : 0;
}

} // namespace pbt

#define PBT_MAIN int main(int argc, char **argv) { return pbt::main_(argc, argv); }

#endif
