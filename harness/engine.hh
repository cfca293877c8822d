// Choice-sequence property testing engine.
//
// A property is a function of a Source of bounded integer choices.  In a run
// the choices come from a PRNG (pure function of seed, property and case
// number); in a replay they come from a file.  Smaller choices mean simpler
// inputs, so shrinking works on the choice sequence alone.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vt {

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };

inline uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// memory shared with the outside so that the current case survives a crash
struct Journal { uint64_t caseIndex; uint64_t length; uint64_t choices[1 << 16]; };

class Source
{
  std::vector<uint64_t> forced_;
  bool replaying_ = false;
  uint64_t state_ = 0;
  uint64_t index_ = 0;
public:
  std::vector<uint64_t> record;
  Journal* journal = nullptr;
  bool thorough = false;

  void startRun(uint64_t seed, uint64_t index, bool th)
  { replaying_ = false; state_ = mix(mix(seed) ^ mix(index * 2 + 1)); index_ = index; record.clear(); thorough = th; begin(); }
  void startReplay(std::vector<uint64_t> f, bool th)
  { replaying_ = true; forced_ = std::move(f); record.clear(); thorough = th; begin(); }
  void begin() { if (journal) { journal->caseIndex = index_; journal->length = 0; } }

  uint64_t raw() { state_ += 0x9e3779b97f4a7c15ull; return mix(state_); }

  // a choice in [0,n)
  uint64_t choice(uint64_t n)
  {
    if (n == 0) n = 1;
    uint64_t v;
    if (replaying_)
      v = record.size() < forced_.size() ? std::min(forced_[record.size()], n-1) : 0;
    else
      v = (n == 1) ? 0 : raw() % n;
    push(v);
    return v;
  }
  // a choice in [0,n) that is enumerated round-robin over the case numbers:
  // every stratum is visited as soon as there are n cases
  uint64_t stratum(uint64_t n)
  {
    uint64_t v;
    if (replaying_)
      v = record.size() < forced_.size() ? std::min(forced_[record.size()], n-1) : 0;
    else
      v = index_ % n;
    push(v);
    return v;
  }
  uint64_t caseIndex() const { return index_; }
  int range(int lo, int hi) { return lo + int(choice(uint64_t(hi-lo)+1)); }   // inclusive
  bool flag() { return choice(2) != 0; }
  bool oneIn(unsigned n) { return choice(n) == n-1; }                          // shrinks to false
  // real in [lo,hi]; shrinks to the left end of [lo,hi] on a coarse grid
  double real(double lo, double hi)
  {
    switch (choice(4)) {
      case 0 : return lo + (hi-lo) * (double(choice(9))/8);
      case 1 : return lo + (hi-lo) * (double(choice(1025))/1024);
      default : return lo + (hi-lo) * (double(choice((1ull<<52)+1)) / double(1ull<<52));
    }
  }
  // real in [-r,r], shrinking to zero
  double sreal(double r)
  {
    bool neg = false;
    double v;
    switch (choice(4)) {
      case 0 : v = r * (double(choice(5))/4); break;
      case 1 : v = r * (double(choice(1025))/1024); break;
      default : v = r * (double(choice((1ull<<52)+1)) / double(1ull<<52));
    }
    neg = flag();
    return neg ? -v : v;
  }
  template<class T> const T& pick(const std::vector<T>& v) { return v[choice(v.size())]; }

private:
  void push(uint64_t v)
  {
    record.push_back(v);
    if (journal && record.size() <= (1u << 16)) {
      journal->choices[record.size()-1] = v;
      journal->length = record.size();
    }
  }
};

class Ctx
{
public:
  std::ostringstream desc;           // human readable description of the input
  bool nontrivial = false;           // set by the property by its stated rule
  uint64_t comparisons = 0;          // oracle comparisons made
  uint64_t key = 0;                  // semantic fingerprint of the input
  bool keyed = false;
  std::map<std::string, uint64_t>* classes = nullptr;
  std::string where;

  void cls(const std::string& name) { if (classes) ++(*classes)[name]; }
  template<class T> void mixKey(const T& v) { key = mix(key ^ std::hash<T>{}(v)); keyed = true; }

  [[noreturn]] void fail(const std::string& msg) { throw Failure(msg); }
  template<class... A> void check(bool ok, const A&... a)
  {
    ++comparisons;
    if (ok) [[likely]] return;
    std::ostringstream s; s.precision(21);
    (s << ... << a);
    throw Failure(s.str());
  }
  // |a-b| <= tol, and neither is NaN
  template<class X, class Y, class... A> void near(const X& a, const Y& b, long double tol, const A&... w)
  {
    ++comparisons;
    long double d = std::abs((long double)(a) - (long double)(b));
    if (d <= tol) [[likely]] return;
    std::ostringstream s; s.precision(21);
    (s << ... << w);
    s << ": got " << (long double)(a) << " expected " << (long double)(b) << " (diff " << d << ", tol " << tol << ")";
    throw Failure(s.str());
  }
  template<class X, class Y, class... A> void equal(const X& a, const Y& b, const A&... w)
  {
    ++comparisons;
    if (a == b) [[likely]] return;
    std::ostringstream s; s.precision(21);
    (s << ... << w);
    s << ": got " << a << " expected " << b;
    throw Failure(s.str());
  }
};

using PropFn = void (*)(Source&, Ctx&);
struct Property { std::string id; PropFn fn; std::string rule; std::string part; };

std::vector<Property>& registry();
struct Register {
  Register(const char* id, PropFn fn, const char* rule, const char* part = "") { registry().push_back({id, fn, rule, part}); }
};

} // namespace vt

// A property id may have several parts (named sub-properties with their own
// generators); each gets its own share of cases.
#define PROPERTY_PART(ID, PART, RULE) \
  static void prop_##ID##_##PART(vt::Source&, vt::Ctx&); \
  static vt::Register reg_##ID##_##PART(#ID, prop_##ID##_##PART, RULE, #PART); \
  static void prop_##ID##_##PART(vt::Source& s, vt::Ctx& c)
