// Master process: forks workers, watches them, replays before reporting.
//
//   harness --tier quick|thorough --out DIR --known FILE --property ID
//   harness --replay SECTION:INDEX [--tier ...]
#include "mc.h"

using namespace mc;

namespace {

struct Worker {
  pid_t pid = -1;
  int shard = 0;
  Shared* shm = nullptr;
  uint64_t last_beat = 0;
  double last_change = 0;
  std::string out_path, states_path;
  std::set<std::pair<int64_t, uint64_t>> skip;
  bool done = false;
  int restarts = 0;
};

double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

Shared* MakeShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  memset(p, 0, sizeof(Shared));
  return static_cast<Shared*>(p);
}

bool g_thorough = false;
const char* g_only = nullptr;
std::string g_dir;

size_t RssKb(pid_t pid) {
  char path[64];
  snprintf(path, sizeof path, "/proc/%d/statm", pid);
  FILE* f = fopen(path, "r");
  if (!f) return 0;
  unsigned long a = 0, b = 0;
  int n = fscanf(f, "%lu %lu", &a, &b);
  fclose(f);
  return n == 2 ? b * 4 : 0;
}

void ConfigureChild(const std::string& err_path) {
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  int fd = open(err_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

void StartWorker(Worker& w, int nshards, int64_t start_section, uint64_t start_index, bool append) {
  w.shm->running = 0;
  w.last_change = Now();
  w.last_beat = w.shm->heartbeat;
  pid_t pid = fork();
  if (pid == 0) {
    ConfigureChild(g_dir + "/worker" + std::to_string(w.shard) + ".err");
    Explorer ex;
    ex.thorough = g_thorough;
    ex.only_ = g_only;
    ex.shm_ = w.shm;
    ex.shard_ = w.shard;
    ex.nshards_ = nshards;
    ex.start_section_ = start_section;
    ex.start_index_ = start_index;
    ex.skip_cases_ = &w.skip;
    ex.out_fd_ = open(w.out_path.c_str(), O_WRONLY | O_CREAT | (append ? O_APPEND : O_TRUNC), 0644);
    Explore(ex);
    ex.EndSection();
    std::vector<uint64_t> st = ex.states_.Sorted();
    FILE* f = fopen(w.states_path.c_str(), append ? "ab" : "wb");
    if (f) { if (!st.empty()) { size_t n = fwrite(st.data(), 8, st.size(), f); (void)n; } fclose(f); }
    std::ostringstream o;
    for (size_t i = 0; i < ex.sections_.size(); ++i)
      o << "SECT\t" << i << '\t' << ex.sections_[i] << '\t' << ex.section_cases_[i] << "\t\t\n";
    if (ex.states_.capped) o << "CAP\t0\tstates\t0\t\t\n";
    if (ex.stop_) o << "STOPPED\t0\tx\t0\t\t\n";
    o << "DONE\t0\tx\t0\t\t\n";
    std::string s = o.str();
    ssize_t r = write(ex.out_fd_, s.data(), s.size()); (void)r;
    _exit(0);
  }
  w.pid = pid;
}

std::string ReadFile(const std::string& p, size_t max) {
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  if (s.size() > max) s = s.substr(0, max);
  return s;
}

enum Outcome { kPass, kFail, kCrash, kHang };

// Runs one case alone in a fresh child.
Outcome ReplayAlone(int64_t section, uint64_t index, double limit_s, std::string* detail, bool verbose) {
  std::string out = g_dir + "/replay.out", err = g_dir + "/replay.err";
  unlink(out.c_str());
  fflush(stdout);
  Shared* shm = MakeShared();
  pid_t pid = fork();
  if (pid == 0) {
    if (!verbose) ConfigureChild(err);
    Explorer ex;
    ex.thorough = g_thorough;
    ex.shm_ = shm;
    ex.replay_ = true;
    ex.verbose_ = true;
    ex.replay_section_ = section;
    ex.replay_index_ = index;
    ex.out_fd_ = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    Explore(ex);
    fflush(stdout);
    _exit(ex.failures_ ? 7 : 0);
  }
  double start = Now();
  int status = 0;
  Outcome oc = kPass;
  while (true) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) {
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) oc = kPass;
      else if (WIFEXITED(status) && WEXITSTATUS(status) == 7) oc = kFail;
      else oc = kCrash;
      break;
    }
    if (Now() - start > limit_s || RssKb(pid) > size_t(6) << 20) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      oc = kHang;
      break;
    }
    usleep(1000);
  }
  munmap(shm, sizeof(Shared));
  if (detail) {
    *detail = ReadFile(out, 20000);
    if (!verbose && oc != kPass) *detail += ReadFile(err, 6000);
  }
  return oc;
}

struct Rec { std::string kind, section, desc, msg; int64_t sec; uint64_t idx; bool reproduced = false; };

std::vector<Rec> ReadRecs(const std::string& path) {
  std::vector<Rec> v;
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    std::vector<std::string> c;
    size_t p = 0;
    while (true) {
      size_t q = line.find('\t', p);
      c.push_back(line.substr(p, q == std::string::npos ? q : q - p));
      if (q == std::string::npos) break;
      p = q + 1;
    }
    while (c.size() < 6) c.push_back("");
    Rec r;
    r.kind = c[0]; r.sec = atoll(c[1].c_str()); r.section = c[2];
    r.idx = strtoull(c[3].c_str(), nullptr, 10); r.desc = c[4]; r.msg = c[5];
    v.push_back(r);
  }
  return v;
}

std::string Json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

}  // namespace

int main(int argc, char** argv) {
  std::string property = "X", known_path, replay, out_json;
  int nshards = 8;
  double hang_s = 40;
  double budget_s = 780;
  g_dir = ".";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") g_thorough = next() == "thorough";
    else if (a == "--dir") g_dir = next();
    else if (a == "--known") known_path = next();
    else if (a == "--property") property = next();
    else if (a == "--replay") replay = next();
    else if (a == "--only") { static std::string o; o = next(); g_only = o.c_str(); }
    else if (a == "--jobs") nshards = atoi(next().c_str());
    else if (a == "--hang") hang_s = atof(next().c_str());
    else if (a == "--budget") budget_s = atof(next().c_str());
    else if (a == "--json") out_json = next();
  }
  if (!replay.empty()) {
    int64_t s = 0; unsigned long long x = 0;
    long long ss = 0;
    if (sscanf(replay.c_str(), "%lld:%llu", &ss, &x) != 2) { fprintf(stderr, "bad --replay\n"); return 2; }
    s = ss;
    std::string d;
    Outcome oc = ReplayAlone(s, x, 300, &d, true);
    printf("%s\n%s\n", d.c_str(), oc == kPass ? "PASS" : oc == kFail ? "FAIL" : oc == kCrash ? "CRASH" : "HANG");
    return oc == kPass ? 0 : 1;
  }
  double t0 = Now();
  std::vector<Worker> ws(nshards);
  std::vector<Rec> hard;  // crashes and hangs, already reproduced
  std::vector<std::string> notes;
  bool incomplete = false;
  for (int i = 0; i < nshards; ++i) {
    ws[i].shard = i;
    ws[i].shm = MakeShared();
    ws[i].out_path = g_dir + "/w" + std::to_string(i) + ".out";
    ws[i].states_path = g_dir + "/w" + std::to_string(i) + ".st";
    unlink(ws[i].out_path.c_str());
    unlink(ws[i].states_path.c_str());
    StartWorker(ws[i], nshards, -1, 0, false);
  }
  int live = nshards;
  while (live > 0) {
    usleep(5000);
    double now = Now();
    for (Worker& w : ws) {
      if (w.done) continue;
      int status = 0;
      pid_t r = waitpid(w.pid, &status, WNOHANG);
      bool died = false, hung = false;
      if (r == w.pid) {
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { w.done = true; --live; continue; }
        died = true;
      } else {
        if (w.shm->heartbeat != w.last_beat) { w.last_beat = w.shm->heartbeat; w.last_change = now; }
        bool over_mem = RssKb(w.pid) > (size_t(7) << 19);  // 3.5 GB
        if ((w.shm->running && now - w.last_change > hang_s) || over_mem) {
          kill(w.pid, SIGKILL);
          waitpid(w.pid, &status, 0);
          hung = true;
        } else if (now - t0 > budget_s) {
          kill(w.pid, SIGKILL);
          waitpid(w.pid, &status, 0);
          incomplete = true;
          notes.push_back("time budget reached: worker " + std::to_string(w.shard) + " stopped in section " + w.shm->section_name);
          w.done = true; --live; continue;
        }
      }
      if (died || hung) {
        int64_t sec = w.shm->section;
        uint64_t idx = w.shm->index;
        std::string sname = w.shm->section_name;
        std::string err = ReadFile(g_dir + "/worker" + std::to_string(w.shard) + ".err", 6000);
        if (!w.shm->running) {
          // Died outside of a case: a harness error, never a verdict.
          fprintf(stderr, "harness error outside a case (section %s): %s\n", sname.c_str(), err.c_str());
          for (Worker& o : ws) if (!o.done && o.pid > 0 && &o != &w) { kill(o.pid, SIGKILL); waitpid(o.pid, &status, 0); }
          return 2;
        }
        std::string detail;
        Outcome oc = ReplayAlone(sec, idx, hung ? hang_s * 3 : 120, &detail, false);
        Rec rec;
        rec.kind = "FAIL"; rec.sec = sec; rec.idx = idx; rec.section = sname;
        if (oc != kPass) {
          std::string line = detail;
          rec.desc = Explorer::Esc(detail.substr(0, 3000));
          size_t nl = rec.desc.find("\\n  ");
          if (rec.desc.compare(0, 9, "replaying") == 0 && nl != std::string::npos) {
            std::string rest = rec.desc.substr(nl + 4);
            size_t e = rest.find("\\n");
            rec.desc = rest.substr(0, e);
          }
          rec.msg = std::string(oc == kHang ? "did not finish (hang or memory exhaustion)" : oc == kCrash ? "crashed (signal, assertion or sanitizer)" : "failed") +
                    ": " + Explorer::Esc(detail.substr(0, 2500));
          rec.reproduced = true;
          hard.push_back(rec);
          if (oc == kHang) {
            // One endless case decides the verdict; the others would only use up the time.
            notes.push_back("exploration stopped at a case that does not finish");
            for (Worker& o : ws) if (!o.done) {
              if (&o != &w && o.pid > 0) { kill(o.pid, SIGKILL); waitpid(o.pid, &status, 0); }
              o.done = true; --live;
            }
            incomplete = true;
            break;
          }
        } else {
          // Not reproducible alone: state left behind by an earlier case of
          // this worker. Re-run the shard from the start; if it dies at the
          // same case again that history is the counterexample.
          if (w.restarts == 0 && died) {
            w.restarts = 1;
            notes.push_back("case " + sname + ":" + std::to_string(idx) + " died in worker but not alone; rerunning the worker");
            StartWorker(w, nshards, -1, 0, false);
            continue;
          }
          if (died) {
            rec.desc = "history of worker " + std::to_string(w.shard) + " up to case " + std::to_string(idx);
            rec.msg = "crashed twice at the same point of the worker's case sequence: " + Explorer::Esc(err.substr(0, 2500));
            hard.push_back(rec);
          } else {
            notes.push_back("case " + sname + ":" + std::to_string(idx) + " exceeded a limit in the worker but completes alone");
          }
        }
        w.skip.insert(std::make_pair(sec, idx));
        if (++w.restarts > 6 || hard.size() > 12) { w.done = true; --live; incomplete = true; continue; }
        StartWorker(w, nshards, sec, idx + 1, true);
      }
    }
  }
  // Collect.
  std::vector<Rec> fails = hard, samples;
  std::map<int64_t, std::pair<std::string, uint64_t>> sects;
  std::vector<uint64_t> states;
  uint64_t cases = 0, ops = 0;
  bool capped = false;
  for (Worker& w : ws) {
    bool done = false;
    for (Rec& r : ReadRecs(w.out_path)) {
      if (r.kind == "FAIL") fails.push_back(r);
      else if (r.kind == "SAMPLE") samples.push_back(r);
      else if (r.kind == "SECT") { auto& s = sects[r.sec]; s.first = r.section; s.second += r.idx; }
      else if (r.kind == "CAP") capped = true;
      else if (r.kind == "STOPPED") incomplete = true;
      else if (r.kind == "DONE") done = true;
    }
    if (!done) incomplete = true;
    cases += w.shm->cases;
    ops += w.shm->ops;
    FILE* f = fopen(w.states_path.c_str(), "rb");
    if (f) {
      uint64_t buf[4096];
      size_t n;
      while ((n = fread(buf, 8, 4096, f)) > 0) states.insert(states.end(), buf, buf + n);
      fclose(f);
    }
  }
  std::sort(states.begin(), states.end());
  states.erase(std::unique(states.begin(), states.end()), states.end());
  std::sort(fails.begin(), fails.end(), [](const Rec& a, const Rec& b) {
    return a.sec != b.sec ? a.sec < b.sec : a.idx < b.idx;
  });
  // Known findings: lines "finding: property=<id> section=<section> case=<description>"
  std::set<std::pair<std::string, std::string>> known;
  {
    std::ifstream f(known_path);
    std::string line;
    std::string pre = "finding: property=" + property + " section=";
    while (std::getline(f, line)) {
      if (line.compare(0, pre.size(), pre) != 0) continue;
      std::string rest = line.substr(pre.size());
      size_t p = rest.find(" case=");
      if (p == std::string::npos) continue;
      known.insert(std::make_pair(rest.substr(0, p), rest.substr(p + 6)));
    }
  }
  std::vector<Rec> unlisted;
  uint64_t known_hits = 0;
  for (Rec& r : fails) {
    if (known.count(std::make_pair(r.section, r.desc))) {
      ++known_hits;
      printf("KNOWN-FINDING: property=%s section=%s case=%s\n", property.c_str(), r.section.c_str(), r.desc.c_str());
    } else {
      unlisted.push_back(r);
    }
  }
  // Replay the first unlisted failure twice before reporting it.
  std::string replay_path;
  if (!unlisted.empty()) {
    Rec* chosen = nullptr;
    size_t tried = 0;
    std::string d1, d2;
    for (Rec& r : unlisted) {
      if (++tried > 20) break;
      if (r.reproduced || r.desc.compare(0, 17, "history of worker") == 0) { chosen = &r; break; }
      Outcome a = ReplayAlone(r.sec, r.idx, hang_s * 3, &d1, false);
      if (a == kPass) { notes.push_back("failure of " + r.section + ":" + std::to_string(r.idx) + " not reproduced alone"); continue; }
      Outcome b = ReplayAlone(r.sec, r.idx, hang_s * 3, &d2, false);
      if (b != kPass) { chosen = &r; break; }
    }
    if (!chosen) {
      // Failures that only occur after other cases ran in the same process are
      // still failures of the implementation (the harness keeps no state
      // between cases); the history is the whole shard.
      chosen = &unlisted[0];
    }
    replay_path = g_dir + "/violation.txt";
    std::ofstream f(replay_path);
    f << "property: " << property << "\nsection: " << chosen->section << "\ncase: " << chosen->idx
      << "\ninput: " << chosen->desc << "\nobserved: " << chosen->msg
      << "\nreplay: python3 run_check.py " << property << " " << (g_thorough ? "thorough" : "quick")
      << " --replay " << chosen->sec << ":" << chosen->idx << "\n\n"
      << unlisted.size() << " failing case(s) recorded; first ones:\n";
    for (size_t i = 0; i < unlisted.size() && i < 40; ++i)
      f << "- " << unlisted[i].section << ":" << unlisted[i].idx << " " << unlisted[i].desc << " :: " << unlisted[i].msg.substr(0, 600) << "\n";
    f.close();
    printf("first failing case: section=%s case=%llu\n  input: %s\n  observed: %s\n", chosen->section.c_str(),
           (unsigned long long)chosen->idx, chosen->desc.substr(0, 1500).c_str(), chosen->msg.substr(0, 1500).c_str());
  }
  // JSON result for run_check.py.
  std::ofstream j(out_json.empty() ? g_dir + "/result.json" : out_json);
  j << "{\"states\":" << states.size() << ",\"transitions\":" << ops << ",\"cases\":" << cases
    << ",\"violations\":" << unlisted.size() << ",\"known_hits\":" << known_hits
    << ",\"exhaustive\":" << (incomplete ? "false" : "true") << ",\"states_capped\":" << (capped ? "true" : "false")
    << ",\"wall_s\":" << Now() - t0 << ",\"replay\":" << Json(replay_path) << ",\"sections\":{";
  bool first = true;
  for (auto& s : sects) { j << (first ? "" : ",") << Json(s.second.first) << ":" << s.second.second; first = false; }
  j << "},\"samples\":[";
  first = true;
  std::map<int64_t, int> per_sect;
  std::sort(samples.begin(), samples.end(), [](const Rec& a, const Rec& b) { return a.sec != b.sec ? a.sec < b.sec : a.idx < b.idx; });
  for (Rec& s : samples) {
    if (per_sect[s.sec]++ >= 2) continue;
    j << (first ? "" : ",") << Json(s.section + ": " + s.desc.substr(0, 400)); first = false;
  }
  j << "],\"notes\":[";
  first = true;
  for (auto& n : notes) { j << (first ? "" : ",") << Json(n); first = false; }
  j << "]}\n";
  j.close();
  for (auto& n : notes) printf("note: %s\n", n.c_str());
  return unlisted.empty() ? 0 : 1;
}
