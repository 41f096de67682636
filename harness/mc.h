// Bounded exhaustive exploration framework.
//
// A harness is a function `void Explore(mc::Explorer&)` that enumerates, in a
// fixed order, every case (input, program or history) of its bounded spaces.
// The same enumeration runs in every worker process; case number i is executed
// by worker i % N only. Inside a case the real implementation is driven and
// compared with a reference model; MC_CHECK throws on the first disagreement.
//
// Nothing is ever sampled: `exhaustive` is true in the evidence only if every
// case of every section was executed.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Failure {
  std::string msg;
};

struct Shared {
  volatile int64_t section;   // current section ordinal
  volatile uint64_t index;    // current case index in that section
  volatile int running;       // 1 while a case body runs
  volatile uint64_t heartbeat;
  volatile uint64_t cases;
  volatile uint64_t ops;
  volatile uint64_t states_capped;
  char section_name[64];
};

inline uint64_t Mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL;
  x ^= x >> 33;
  return x;
}
inline uint64_t HashAdd(uint64_t h, uint64_t v) { return Mix(h * 0x9E3779B97F4A7C15ULL + v + 0x1234567); }
inline uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return Mix(h);
}

// Open-addressing set of 64 bit hashes with a hard size cap.
class HashSet64 {
 public:
  HashSet64() : slots_(1 << 12, 0) {}
  void Insert(uint64_t h) {
    if (h == 0) h = 1;
    if (count_ * 10 >= slots_.size() * 6) {
      if (slots_.size() >= kMax) { capped = true; return; }
      Grow();
    }
    size_t m = slots_.size() - 1, i = h & m;
    while (slots_[i] != 0) {
      if (slots_[i] == h) return;
      i = (i + 1) & m;
    }
    slots_[i] = h;
    ++count_;
  }
  std::vector<uint64_t> Sorted() const {
    std::vector<uint64_t> v;
    v.reserve(count_);
    for (uint64_t s : slots_) if (s) v.push_back(s);
    std::sort(v.begin(), v.end());
    return v;
  }
  bool capped = false;
 private:
  static constexpr size_t kMax = size_t(1) << 24;
  void Grow() {
    std::vector<uint64_t> old(slots_.size() * 2, 0);
    old.swap(slots_);
    size_t m = slots_.size() - 1;
    for (uint64_t h : old) if (h) {
      size_t i = h & m;
      while (slots_[i]) i = (i + 1) & m;
      slots_[i] = h;
    }
  }
  std::vector<uint64_t> slots_;
  size_t count_ = 0;
};

class Explorer {
 public:
  bool thorough = false;

  // Opens a new enumerated space. Case indices restart from 0.
  void Section(const std::string& name) {
    EndSection();
    section_name_ = name;
    ++section_;
    next_ = 0;
    section_executed_ = 0;
    shm_->section = section_;
    strncpy(shm_->section_name, name.c_str(), sizeof(shm_->section_name) - 1);
    sections_.push_back(name);
    section_cases_.push_back(0);
    skip_section_ = replay_ && section_ != replay_section_;
    if (only_ && *only_ && name.find(only_) == std::string::npos) skip_section_ = true;
  }

  // True if this worker should enumerate this section at all (lets a harness
  // skip an expensive enumeration while replaying another section).
  bool Active() const { return !skip_section_ && !stop_; }

  template <class Desc, class Body>
  void Case(Desc&& desc, Body&& body) {
    uint64_t idx = next_++;
    if (skip_section_ || stop_) return;
    if (replay_) {
      if (idx != replay_index_) return;
    } else if (idx % nshards_ != shard_) {
      return;
    }
    if (!replay_ && skip_cases_ && skip_cases_->count(std::make_pair(section_, idx))) return;
    if (!replay_ && (section_ < start_section_ ||
        (section_ == start_section_ && idx < start_index_))) return;
    shm_->index = idx;
    shm_->heartbeat = shm_->heartbeat + 1;
    shm_->running = 1;
    ++section_executed_;
    shm_->cases = shm_->cases + 1;
    if (replay_ && verbose_) {
      std::cout << "replaying section=" << section_name_ << " case=" << idx << "\n  " << desc() << std::endl;
    }
    bool failed = false;
    std::string msg;
    try {
      body();
    } catch (const Failure& f) {
      failed = true; msg = f.msg;
    } catch (const std::exception& e) {
      failed = true; msg = std::string("exception: ") + e.what();
    }
    shm_->running = 0;
    if (failed) RecordFailure(idx, desc(), msg);
    else if (section_samples_ != section_ && (idx / nshards_) >= 2) {
      // One written-out sample case per section per worker.
      section_samples_ = section_;
      WriteRecord("SAMPLE", idx, desc(), "");
    }
  }

  void Op(uint64_t n = 1) { shm_->ops = shm_->ops + n; }
  void State(uint64_t h) { states_.Insert(HashAdd(h, static_cast<uint64_t>(section_))); }
  // For nested exploration inside one case (BFS) to feed the hang watchdog.
  void Beat() { shm_->heartbeat = shm_->heartbeat + 1; }

  // Internal.
  void EndSection() {
    if (section_ >= 0) section_cases_[section_] += section_executed_;
    section_executed_ = 0;
  }
  void RecordFailure(uint64_t idx, const std::string& desc, const std::string& msg) {
    WriteRecord("FAIL", idx, desc, msg);
    if (++failures_ >= 400) stop_ = true;
  }
  void WriteRecord(const char* kind, uint64_t idx, const std::string& desc, const std::string& msg) {
    std::ostringstream o;
    o << kind << '\t' << section_ << '\t' << section_name_ << '\t' << idx << '\t'
      << Esc(desc) << '\t' << Esc(msg) << '\n';
    std::string s = o.str();
    if (s.size() > 20000) s = s.substr(0, 19990) + "...\n";
    if (out_fd_ >= 0) { ssize_t r = write(out_fd_, s.data(), s.size()); (void)r; }
    else std::cout << s << std::flush;
  }
  static std::string Esc(const std::string& s) {
    std::string r;
    for (char c : s) {
      if (c == '\n') r += "\\n"; else if (c == '\t') r += ' '; else r += c;
    }
    return r;
  }

  Shared* shm_ = nullptr;
  int out_fd_ = -1;
  uint64_t shard_ = 0, nshards_ = 1;
  bool replay_ = false, verbose_ = false;
  int64_t replay_section_ = -1;
  uint64_t replay_index_ = 0;
  int64_t start_section_ = -1;
  uint64_t start_index_ = 0;
  const std::set<std::pair<int64_t, uint64_t>>* skip_cases_ = nullptr;
  const char* only_ = nullptr;
  HashSet64 states_;
  std::vector<std::string> sections_;
  std::vector<uint64_t> section_cases_;
  bool stop_ = false;
  uint64_t failures_ = 0;
 private:
  int64_t section_ = -1;
  int64_t section_samples_ = -1;
  uint64_t next_ = 0;
  uint64_t section_executed_ = 0;
  bool skip_section_ = false;
  std::string section_name_;
};

struct Thrower {
  std::ostringstream o;
  template <class T> Thrower& operator<<(const T& t) { o << t; return *this; }
};
struct ThrowNow {
  [[noreturn]] void operator&(Thrower& t) { throw Failure{t.o.str()}; }
};

}  // namespace mc

#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
// MC_CHECK(cond) << "details";
#define MC_CHECK(cond) \
  if (cond) {} else ::mc::ThrowNow() & (::mc::Thrower() << "check failed: " #cond " [" __FILE__ ":" MC_STR(__LINE__) "] ")
#define MC_FAIL() ::mc::ThrowNow() & (::mc::Thrower() << "[" __FILE__ ":" MC_STR(__LINE__) "] ")

void Explore(mc::Explorer& ex);

#endif  // VERIF_MC_H
