// Runner shared by all harnesses: deterministic case seeds, forked workers, crash/hang capture,
// counters and evidence. A harness supplies one function that runs case number i.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vr {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t Hash(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return Mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(Mix(seed)) {}
  uint64_t Next() { return Mix(s += 0x9e3779b97f4a7c15ULL); }
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : Next() % n; }
  int64_t Range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(Below(static_cast<uint64_t>(hi - lo + 1))); }
  bool P(double p) { return (Next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class V>
  const typename V::value_type& Pick(const V& v) {
    return v[Below(v.size())];
  }
};

inline double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Failed {};  // thrown by Ctx::Fail

struct Shared {  // one per worker, in shared memory: survives the worker's death
  volatile uint64_t cur_case;
  volatile double case_start;
  volatile uint64_t done;
  volatile uint32_t in_case;
  char desc[1 << 18];
};

struct Ctx {
  Rng rng;
  uint64_t idx = 0;
  bool thorough = false, replay = false;
  Shared* sh = nullptr;
  std::map<std::string, uint64_t> counts;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<std::string> fails;  // "key\tmessage\tcase"
  std::string cur_desc;

  // What this case does, in replayable words; survives a crash.
  void Desc(const std::string& d) {
    cur_desc = d;
    size_t n = std::min(d.size(), sizeof(sh->desc) - 1);
    memcpy(sh->desc, d.data(), n);
    sh->desc[n] = 0;
  }
  void AddDesc(const std::string& d) { Desc(cur_desc + d); }
  void Count(const std::string& k, uint64_t n = 1) { counts[k] += n; }
  void Nontrivial(uint64_t h) { distinct.insert(h); }
  void Sample(const std::string& s) {
    if (samples.size() < 3) samples.push_back(s.size() > 1500 ? s.substr(0, 1500) + "..." : s);
  }
  [[noreturn]] void Fail(const std::string& key, const std::string& msg) {
    Report(key, msg);
    throw Failed();
  }
  void Report(const std::string& key, const std::string& msg) {
    fails.push_back(key + "\x1f" + msg + "\x1f" + std::to_string(idx) + "\x1f" + cur_desc);
  }
};

struct Plan {
  std::string id;
  uint64_t quick_cases, thorough_cases;
  double quick_secs = 20, thorough_secs = 400;
  double hang_secs = 120;
  int workers = 8;
  std::string rule;
  uint64_t batch = 1;
  std::function<void()> worker_init = nullptr;
  std::function<void(Ctx&)> worker_done = nullptr;
  bool no_fork = false;  // for TSan
};

inline std::string Esc(const std::string& s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

inline void WriteFile(const std::string& p, const std::string& s) {
  std::ofstream f(p, std::ios::binary);
  f << s;
}
inline std::string ReadFile(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

inline int RunOne(Ctx& c, const Plan& p, uint64_t seed, uint64_t i, const std::function<void(Ctx&)>& fn) {
  c.idx = i;
  c.rng = Rng(Mix(seed * 1000003 + Hash(p.id)) ^ Mix(i * 7919 + 13));
  c.Desc("");
  c.sh->cur_case = i;
  c.sh->case_start = Now();
  c.sh->in_case = 1;
  int r = 0;
  try {
    fn(c);
  } catch (const Failed&) {
    r = 1;
  } catch (const std::exception& e) {
    c.Report("exception", std::string("an exception escaped: ") + e.what());
    r = 1;
  } catch (...) {
    c.Report("exception", "an exception of unknown type escaped");
    r = 1;
  }
  c.sh->in_case = 0;
  c.sh->done = c.sh->done + 1;
  return r;
}

// argv: --seed N --tier quick|thorough --out result.json --scratch DIR [--case N] [--known FILE]
inline int Main(int argc, char** argv, const Plan& p, const std::function<void(Ctx&)>& fn) {
  uint64_t seed = 1;
  bool thorough = false;
  std::string out, scratch = "/tmp";
  int64_t one = -1;
  double scale = 1.0;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--tier") thorough = v == "thorough";
    else if (a == "--out") out = v;
    else if (a == "--scratch") scratch = v;
    else if (a == "--case") one = strtoll(v.c_str(), nullptr, 10);
    else if (a == "--scale") scale = atof(v.c_str());
  }
  double t0 = Now();
  uint64_t ncases = thorough ? p.thorough_cases : p.quick_cases;
  double secs = (thorough ? p.thorough_secs : p.quick_secs) * scale;
  auto* shm = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared) * (p.workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (one >= 0 || p.no_fork) {
    Ctx c;
    c.thorough = thorough;
    c.replay = one >= 0;
    c.sh = &shm[0];
    if (p.worker_init) p.worker_init();
    uint64_t n = 0;
    if (one >= 0) {
      RunOne(c, p, seed, one, fn);
      n = 1;
      printf("case %lld:\n%s\n", static_cast<long long>(one), c.cur_desc.c_str());
    } else {
      for (; n < ncases && Now() - t0 < secs && c.fails.size() < 5; ++n) RunOne(c, p, seed, n, fn);
    }
    if (p.worker_done) p.worker_done(c);
    std::string j = "{\"evaluations\":" + std::to_string(n) + ",\"distinct\":" + std::to_string(c.distinct.size());
    j += ",\"rule\":\"" + Esc(p.rule) + "\",\"counts\":{";
    bool f = true;
    for (auto& [k, v] : c.counts) {
      j += (f ? "\"" : ",\"") + Esc(k) + "\":" + std::to_string(v);
      f = false;
    }
    j += "},\"samples\":[";
    for (size_t i = 0; i < c.samples.size(); ++i) j += (i ? ",\"" : "\"") + Esc(c.samples[i]) + "\"";
    j += "],\"fails\":[";
    for (size_t i = 0; i < c.fails.size(); ++i) j += (i ? ",\"" : "\"") + Esc(c.fails[i]) + "\"";
    j += "]}";
    if (!out.empty()) WriteFile(out, j);
    for (auto& m : c.fails) fprintf(stdout, "FAIL %s\n", m.c_str());
    return c.fails.empty() ? 0 : 1;
  }
  // forked workers
  struct W {
    pid_t pid = -1;
    uint64_t next = 0;
    int gen = 0;
    bool over = false;
  };
  std::vector<W> ws(p.workers);
  std::vector<std::string> fails, files;
  int crashes = 0;
  auto spawn = [&](int w) {
    W& x = ws[w];
    std::string base = scratch + "/w" + std::to_string(w) + "." + std::to_string(x.gen);
    files.push_back(base);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open((base + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
      dup2(fd, 2);
      int fo = open((base + ".stdout").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
      dup2(fo, 1);
      Ctx c;
      c.thorough = thorough;
      c.sh = &shm[w];
      if (p.worker_init) p.worker_init();
      uint64_t n = 0;
      for (uint64_t i = x.next; i < ncases; i += p.workers) {
        if (Now() - t0 > secs || c.fails.size() >= 3) break;
        RunOne(c, p, seed, i, fn);
        ++n;
      }
      if (p.worker_done) p.worker_done(c);
      std::string o = "n " + std::to_string(n) + "\n";
      for (auto& [k, v] : c.counts) o += "c " + std::to_string(v) + " " + k + "\n";
      for (auto& s : c.samples) o += "s " + Esc(s) + "\n";
      for (auto& s : c.fails) o += "f " + Esc(s) + "\n";
      WriteFile(base + ".res", o);
      std::string d(reinterpret_cast<const char*>(""), 0);
      for (uint64_t h : c.distinct) d.append(reinterpret_cast<const char*>(&h), 8);
      WriteFile(base + ".dis", d);
      _exit(0);
    }
    x.pid = pid;
  };
  for (int w = 0; w < p.workers; ++w) {
    ws[w].next = w;
    spawn(w);
  }
  int live = p.workers;
  while (live > 0) {
    int st;
    pid_t pid = waitpid(-1, &st, WNOHANG);
    if (pid <= 0) {
      usleep(20000);
      for (int w = 0; w < p.workers; ++w) {
        if (!ws[w].over && shm[w].in_case && Now() - shm[w].case_start > p.hang_secs) {
          shm[w].in_case = 2;
          kill(ws[w].pid, SIGKILL);
        }
      }
      continue;
    }
    for (int w = 0; w < p.workers; ++w) {
      if (ws[w].pid != pid) continue;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        ws[w].over = true;
        --live;
        break;
      }
      // died: a sanitizer report, a signal, or a hang
      ++crashes;
      std::string base = scratch + "/w" + std::to_string(w) + "." + std::to_string(ws[w].gen);
      std::string err = ReadFile(base + ".err");
      if (err.size() > 6000) err = err.substr(0, 6000);
      std::string what = shm[w].in_case == 2 ? "hang" : "crash";
      std::string key = what;
      fails.push_back(Esc(key + "\x1f" + what + ": the process " +
                          (WIFSIGNALED(st) ? "was killed by signal " + std::to_string(WTERMSIG(st))
                                           : "exited with status " + std::to_string(WEXITSTATUS(st))) +
                          (shm[w].in_case ? "" : " (outside a case)") + "\n" + err + "\x1f" +
                          std::to_string(shm[w].cur_case) + "\x1f" + shm[w].desc));
      if (crashes < 4) {
        ws[w].next = shm[w].cur_case + p.workers;
        ws[w].gen++;
        shm[w].in_case = 0;
        spawn(w);
      } else {
        ws[w].over = true;
        --live;
      }
      break;
    }
  }
  uint64_t n = 0;
  std::map<std::string, uint64_t> counts;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> dis;
  for (auto& b : files) {
    std::istringstream f(ReadFile(b + ".res"));
    std::string line;
    while (std::getline(f, line)) {
      if (line[0] == 'n') n += strtoull(line.c_str() + 2, nullptr, 10);
      if (line[0] == 'c') {
        char* e;
        uint64_t v = strtoull(line.c_str() + 2, &e, 10);
        counts[e + 1] += v;
      }
      if (line[0] == 's' && samples.size() < 5) samples.push_back(line.substr(2));
      if (line[0] == 'f') fails.push_back(line.substr(2));
    }
    std::string d = ReadFile(b + ".dis");
    for (size_t i = 0; i + 8 <= d.size(); i += 8) {
      uint64_t h;
      memcpy(&h, d.data() + i, 8);
      dis.insert(h);
    }
  }
  if (crashes) {  // cases run by workers that died are not in their .res files
    n = 0;
    for (int w = 0; w < p.workers; ++w) n += shm[w].done;
  }
  std::string j = "{\"evaluations\":" + std::to_string(n) + ",\"distinct\":" + std::to_string(dis.size());
  j += ",\"rule\":\"" + Esc(p.rule) + "\",\"counts\":{";
  bool f = true;
  for (auto& [k, v] : counts) {
    j += (f ? "\"" : ",\"") + Esc(k) + "\":" + std::to_string(v);
    f = false;
  }
  j += "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) j += (i ? ",\"" : "\"") + samples[i] + "\"";
  j += "],\"fails\":[";
  for (size_t i = 0; i < fails.size(); ++i) j += (i ? ",\"" : "\"") + fails[i] + "\"";
  j += "]}";
  if (!out.empty()) WriteFile(out, j);
  return fails.empty() ? 0 : 1;
}

}  // namespace vr
