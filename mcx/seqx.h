// seqx: exhaustive exploration of sequential code.
//
// A scenario is a function that builds the real object, applies operations to it and to a reference model, and
// takes every decision (which operation, which argument, which input element) with Ctx::choose.  The explorer
// runs the scenario once per path of the choice tree, depth first, until the tree is exhausted.  Ctx::seen()
// cuts paths that reach an already explored (model) state, which turns the tree into explicit-state search.
// Every scenario runs in forked processes: a sanitizer report or a crash is a failure of that path only.
#ifndef SEQX_H_
#define SEQX_H_
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace seqx {

struct CheckFailed {  // thrown by the glog stand-in
  std::string what;
};
struct Failure {
  std::string key, msg;
};
struct Pruned {};

inline std::string fmt(const char* f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

struct Shared {  // survives a crash of the exploring process
  uint32_t depth;
  uint32_t choice[4096];
  uint32_t width[4096];
  uint64_t paths, nodes, states, pruned, checks, steps;
  uint32_t capped, done;
  char label[1 << 16];
  uint32_t label_len;
};

class Ctx {
 public:
  // ---- decisions
  int choose(int n, const char* label) {
    if (n <= 0) { fprintf(stderr, "choose(%d) %s\n", n, label); _exit(6); }
    uint32_t d = pos_++;
    if (d >= 4096) { fprintf(stderr, "choice depth\n"); _exit(6); }
    if (d < sh_->depth) {
      if (sh_->width[d] != (uint32_t)n && !replay_) { fprintf(stderr, "nondeterministic scenario at %s\n", label); _exit(6); }
      sh_->width[d] = n;
      if ((int)sh_->choice[d] >= n) { fprintf(stderr, "replay: choice out of range\n"); _exit(6); }
    } else {
      sh_->depth = d + 1;
      sh_->width[d] = n;
      sh_->choice[d] = d == 0 ? first_ : 0;
      ++sh_->nodes;
      if (d == 0 && first_ >= n) throw Pruned();
    }
    ++sh_->steps;
    int c = sh_->choice[d];
    note("%s=%d", label, c);
    return c;
  }
  bool flag(const char* label) { return choose(2, label) != 0; }
  template <class T> T pick(const std::vector<T>& v, const char* label) { return v[choose((int)v.size(), label)]; }
  template <class T> T pick(std::initializer_list<T> v, const char* label) {
    return v.begin()[choose((int)v.size(), label)];
  }
  int range(int lo, int hi, const char* label) { return lo + choose(hi - lo + 1, label); }
  // ---- state matching: cuts this path if the state was seen before at this or a smaller depth bound
  void seen(const std::string& key) {
    if (pos_ < sh_->depth) return;  // still replaying the prefix
    if (!visited_->insert(key).second) throw Pruned();
    ++sh_->states;
  }
  // True while repeating the prefix this path shares with an earlier one, whose checks have passed already.
  bool replaying() const { return pos_ < sh_->depth; }
  // Counts a distinct state without cutting.
  void count_state(const std::string& key) { if (visited_->insert(key).second) ++sh_->states; }
  // ---- oracle
  [[noreturn]] void fail(const std::string& key, const char* f, ...) __attribute__((format(printf, 3, 4))) {
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    throw Failure{key, buf};
  }
  void check(bool ok, const std::string& key, const char* f, ...) __attribute__((format(printf, 4, 5))) {
    ++sh_->checks;
    if (ok) return;
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    throw Failure{key, buf};
  }
  // True if f() ends in a failed CHECK (the documented way this code base rejects misuse).
  template <class F> bool aborts(F f) {
    try { f(); } catch (const CheckFailed&) { return true; }
    return false;
  }
  void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    char buf[256];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    size_t n = strlen(buf);
    if (sh_->label_len + n + 2 < sizeof sh_->label) {
      memcpy(sh_->label + sh_->label_len, buf, n);
      sh_->label_len += n;
      sh_->label[sh_->label_len++] = ' ';
      sh_->label[sh_->label_len] = 0;
    }
  }
  bool thorough = false;

  uint32_t pos_ = 0;
  int first_ = 0;
  bool replay_ = false;
  Shared* sh_ = nullptr;
  std::unordered_set<std::string>* visited_ = nullptr;
};

struct Scenario {
  std::string name, what;
  std::function<void(Ctx&)> body;
  int shards;       // processes; the first choice's value is taken modulo shards
  bool thorough_only;
  Scenario(const std::string& n, const std::string& w, std::function<void(Ctx&)> b, int s = 1, bool t = false)
      : name(n), what(w), body(b), shards(s), thorough_only(t) {}
};

inline double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}

// Advances to the next path; false when the tree (of this shard) is exhausted.
inline bool advance(Shared* sh, int shards) {
  while (sh->depth > 0) {
    uint32_t d = sh->depth - 1;
    uint32_t step = d == 0 ? shards : 1;
    if (sh->choice[d] + step < sh->width[d]) { sh->choice[d] += step; ++sh->nodes; return true; }
    --sh->depth;
  }
  return false;
}

struct Fail { std::string key, msg, labels; std::vector<int> choices; };

inline std::string choices_text(const std::vector<int>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); ++i) s += fmt(i ? ",%d" : "%d", v[i]);
  return s;
}

inline int run_main(int argc, char** argv, const char* property, std::vector<Scenario> scenarios) {
  std::string tier = "quick", out, dir = "/tmp", only, choices, known_file;
  int jobs = 8;
  double cap = 600;
  bool replay = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") tier = next();
    else if (a == "--out") out = next();
    else if (a == "--dir") dir = next();
    else if (a == "--only") only = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--cap") cap = atof(next().c_str());
    else if (a == "--known") known_file = next();
    else if (a == "--choices") { choices = next(); replay = true; }
    else if (a == "--list") { for (auto& s : scenarios) printf("%s: %s\n", s.name.c_str(), s.what.c_str()); return 0; }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  std::set<std::string> known;  // "scenario key"
  if (!known_file.empty()) {
    FILE* f = fopen(known_file.c_str(), "r");
    char line[4096];
    while (f && fgets(line, sizeof line, f)) {
      std::string l = line;
      while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
      if (!l.empty()) known.insert(l);
    }
    if (f) fclose(f);
  }
  auto map_shared = [] {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return (Shared*)p;
  };
  // one path; returns "" or fills f
  auto run_path = [](Scenario& sc, Ctx& c, Fail* f) -> int {
    try {
      sc.body(c);
      return 0;
    } catch (const Pruned&) {
      return 2;
    } catch (const Failure& x) {
      f->key = x.key; f->msg = x.msg;
    } catch (const CheckFailed& x) {
      f->key = "check-failed"; f->msg = x.what;
      size_t p = x.what.find(' ');
      if (p != std::string::npos) f->key += ":" + x.what.substr(p + 1);
    } catch (const std::exception& x) {
      f->key = "exception"; f->msg = x.what();
    }
    return 1;
  };
  if (replay) {
    for (auto& sc : scenarios) if (sc.name == only) {
      Shared* sh = map_shared();
      const char* p = choices.c_str();
      while (*p) {
        char* e;
        long v = strtol(p, &e, 10);
        if (e == p) break;
        sh->choice[sh->depth++] = v;
        p = e;
        while (*p == ',' || *p == ' ') ++p;
      }
      std::unordered_set<std::string> vis;
      Ctx c;
      c.sh_ = sh; c.visited_ = &vis; c.replay_ = true; c.thorough = tier != "quick";
      Fail f;
      int r = run_path(sc, c, &f);
      printf("path: %s\n", sh->label);
      if (r == 1) { printf("REPLAY %s: [%s] %s\n", sc.name.c_str(), f.key.c_str(), f.msg.c_str()); return 1; }
      printf("REPLAY %s: no violation\n", sc.name.c_str());
      return 0;
    }
    fprintf(stderr, "no such scenario\n");
    return 3;
  }
  struct Job { size_t sc; int shard; Shared* sh; pid_t pid; std::string base; double t0; int crashes; };
  struct Result { uint64_t paths = 0, nodes = 0, states = 0, pruned = 0, checks = 0, steps = 0; bool capped = false, error = false; double wall = 0;
                  std::vector<Fail> fails, knowns; std::vector<std::string> samples; std::string err; bool ran = false; };
  std::vector<Result> res(scenarios.size());
  std::vector<Job> todo, running;
  for (size_t i = 0; i < scenarios.size(); ++i) {
    if (!only.empty() && scenarios[i].name != only) continue;
    if (scenarios[i].thorough_only && tier == "quick" && only.empty()) continue;
    res[i].ran = true;
    for (int s = 0; s < scenarios[i].shards; ++s)
      todo.push_back({i, s, map_shared(), 0, fmt("%s/%s-%s-%d", dir.c_str(), property, scenarios[i].name.c_str(), s), 0, 0});
  }
  fflush(stdout);
  const double start = now_s();
  auto launch = [&](Job j) {
    Scenario& sc = scenarios[j.sc];
    j.t0 = j.t0 ? j.t0 : now_s();
    pid_t p = fork();
    if (p == 0) {
      std::string ep = j.base + ".err";
      int fd = open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
      FILE* rf = fopen((j.base + ".res").c_str(), "a");
      if (chdir(dir.c_str()) != 0) _exit(6);  // scenarios write files to the current directory only
      std::unordered_set<std::string> vis;
      Shared* sh = j.sh;
      std::set<std::string> known_seen;
      int nsamples = 0;
      uint64_t next_sample = 1;
      for (;;) {
        Ctx c;
        c.sh_ = sh; c.visited_ = &vis; c.first_ = j.shard; c.thorough = tier != "quick";
        sh->label_len = 0; sh->label[0] = 0;
        // Watchdog: one path takes milliseconds; an endless loop or a deadlock ends in SIGPROF or SIGALRM.
        struct itimerval iv = {{0, 0}, {40, 0}};
        setitimer(ITIMER_PROF, &iv, nullptr);
        alarm(200);
        Fail f;
        int r = run_path(sc, c, &f);
        ++sh->paths;
        if (r == 2) ++sh->pruned;
        if (r == 0 && sh->paths >= next_sample && nsamples < 6) {
          ++nsamples;
          next_sample = sh->paths * 7;
          fprintf(rf, "S %s\n", std::string(sh->label, std::min<size_t>(sh->label_len, 600)).c_str());
        }
        if (r == 1) {
          std::string m = f.msg;
          for (auto& ch : m) if (ch == '\n') ch = ' ';
          bool k = known.count(sc.name + " " + f.key) > 0;
          if (!k || known_seen.insert(f.key).second) {
            std::string ch;
            for (uint32_t i = 0; i < sh->depth; ++i) ch += fmt(i ? ",%u" : "%u", sh->choice[i]);
            fprintf(rf, "%c %s\n%s\n%s\n%s\n", k ? 'K' : 'F', f.key.c_str(), m.c_str(), ch.c_str(), sh->label);
            fflush(rf);
          }
          if (!k) { fclose(rf); _exit(0); }
        }
        // everything after the last choice made belongs to the shorter path
        sh->depth = std::min<uint32_t>(sh->depth, c.pos_);
        if (!advance(sh, sc.shards)) break;
        if ((sh->paths & 63) == 0 && now_s() - j.t0 > cap) { sh->capped = 1; break; }
      }
      sh->done = 1;
      fclose(rf);
      _exit(0);
    }
    j.pid = p;
    running.push_back(j);
  };
  size_t nt = 0;
  for (auto& j : todo) { unlink((j.base + ".res").c_str()); unlink((j.base + ".err").c_str()); }
  while (nt < todo.size() || !running.empty()) {
    while ((int)running.size() < jobs && nt < todo.size()) launch(todo[nt++]);
    int st;
    pid_t p = waitpid(-1, &st, 0);
    for (size_t k = 0; k < running.size(); ++k) if (running[k].pid == p) {
      Job j = running[k];
      running.erase(running.begin() + k);
      Result& R = res[j.sc];
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 6) {
          R.error = true;
          FILE* ef = fopen((j.base + ".err").c_str(), "r");
          char b[512] = "";
          if (ef) { if (!fgets(b, sizeof b, ef)) b[0] = 0; fclose(ef); }
          R.err = b;
          break;
        }
        // a crash or a sanitizer report on the current path
        Fail f;
        std::string text;
        FILE* ef = fopen((j.base + ".err").c_str(), "r");
        char b[4096];
        if (ef) { while (fgets(b, sizeof b, ef)) { if (text.size() < 20000) text += b; } fclose(ef); }
        std::string sum;
        size_t q = text.find("SUMMARY: ");
        size_t ru = text.find("runtime error: ");
        if (ru != std::string::npos) sum = text.substr(ru, text.find('\n', ru) - ru);
        else if (q != std::string::npos) sum = text.substr(q, text.find('\n', q) - q);
        else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) sum = "hang: the path does not end";
        else if (WIFSIGNALED(st)) sum = fmt("signal %d", WTERMSIG(st));
        else sum = fmt("exit status %d", WEXITSTATUS(st));
        f.key = "crash";
        f.msg = sum + " || " + text.substr(0, 3000);
        for (uint32_t i = 0; i < j.sh->depth; ++i) f.choices.push_back(j.sh->choice[i]);
        f.labels = j.sh->label;
        bool kn = known.count(scenarios[j.sc].name + " crash") > 0;
        (kn ? R.knowns : R.fails).push_back(f);
        ++j.sh->paths;
        if (kn && ++j.crashes < 200 && advance(j.sh, scenarios[j.sc].shards)) { launch(j); break; }
      }
      FILE* rf = fopen((j.base + ".res").c_str(), "r");
      auto line = [&](std::string* s) {
        s->clear();
        int ch;
        while (rf && (ch = fgetc(rf)) != EOF && ch != '\n') *s += (char)ch;
        return !s->empty() || (rf && !feof(rf));
      };
      std::string l;
      while (rf && line(&l)) {
        if (l.empty()) continue;
        if (l[0] == 'S') { if (R.samples.size() < 8) R.samples.push_back(l.substr(2)); continue; }
        Fail f;
        f.key = l.size() > 2 ? l.substr(2) : "";
        std::string ch;
        line(&f.msg); line(&ch); line(&f.labels);
        const char* cp = ch.c_str();
        while (*cp) { char* e; long v = strtol(cp, &e, 10); if (e == cp) break; f.choices.push_back(v); cp = *e ? e + 1 : e; }
        (l[0] == 'K' ? R.knowns : R.fails).push_back(f);
      }
      if (rf) fclose(rf);
      R.paths += j.sh->paths; R.nodes += j.sh->nodes; R.states += j.sh->states; R.pruned += j.sh->pruned;
      R.checks += j.sh->checks; R.steps += j.sh->steps;
      R.capped |= j.sh->capped;
      R.wall += now_s() - j.t0;
      unlink((j.base + ".res").c_str());
      unlink((j.base + ".err").c_str());
      munmap(j.sh, sizeof(Shared));
      break;
    }
  }
  (void)start;
  std::string all = fmt("{\"property\":\"%s\",\"tier\":\"%s\",\"scenarios\":[\n", property, tier.c_str());
  bool first = true, bad = false;
  for (size_t i = 0; i < scenarios.size(); ++i) {
    Result& R = res[i];
    if (!R.ran) continue;
    if (!first) all += ",\n";
    first = false;
    bad |= R.error;
    const char* status = R.error ? "error" : !R.fails.empty() ? "violation" : R.capped ? "capped" : "ok";
    all += fmt("{\"scenario\":\"%s\",\"status\":\"%s\",\"what\":\"%s\",\"err\":\"%s\",", esc(scenarios[i].name).c_str(), status,
               esc(scenarios[i].what).c_str(), esc(R.err).c_str());
    all += fmt("\"paths\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,\"checks\":%llu,\"wall_s\":%.3f,\"shards\":%d,",
               (unsigned long long)R.paths, (unsigned long long)R.steps,
               (unsigned long long)(R.states ? R.states : R.nodes + 1), (unsigned long long)R.pruned,
               (unsigned long long)R.checks, R.wall, scenarios[i].shards);
    auto list = [&](const char* n, std::vector<Fail>& v) {
      all += fmt("\"%s\":[", n);
      for (size_t k = 0; k < v.size() && k < 10; ++k) {
        all += std::string(k ? "," : "") + "{\"key\":\"" + esc(v[k].key) + "\",\"msg\":\"" + esc(v[k].msg) + "\",\"choices\":[" +
               choices_text(v[k].choices) + "],\"labels\":\"" + esc(v[k].labels) + "\"}";
      }
      all += "],";
    };
    list("fails", R.fails);
    list("knowns", R.knowns);
    all += "\"samples\":[";
    for (size_t k = 0; k < R.samples.size(); ++k) all += (k ? ",\"" : "\"") + esc(R.samples[k]) + "\"";
    all += "]}";
  }
  all += "\n]}\n";
  if (out.empty()) printf("%s", all.c_str());
  else { FILE* f = fopen(out.c_str(), "w"); if (!f) return 3; fwrite(all.data(), 1, all.size(), f); fclose(f); }
  return bad ? 3 : 0;
}
}  // namespace seqx

#ifdef SEQX_MAIN
extern "C" [[noreturn]] void mcx_check_failed(const char* file, int line, const char* what) {
  (void)line;
  const char* b = strrchr(file, '/');
  throw seqx::CheckFailed{seqx::fmt("%s: %s", b ? b + 1 : file, what)};
}
#endif
#endif
