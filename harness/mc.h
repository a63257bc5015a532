// Small bounded-model-checking runtime shared by all harnesses.
//
// A harness is a set of sections; a section exhaustively enumerates a bounded
// space and is split into shards (deterministic partition). Every enumerated
// configuration calls the real tachyon code and compares it with a reference
// model; the runtime counts distinct states, transitions (checked calls) and
// complete traces, and turns mismatches, crashes, aborts and hangs into
// violation records naming the exact case.
#ifndef MC_MC_H_
#define MC_MC_H_
#include <stddef.h>
#include <stdint.h>

#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

class U64Set {  // open addressing, for state deduplication
 public:
  bool insert(uint64_t k);
  size_t size() const { return n_; }
 private:
  std::vector<uint64_t> t_; size_t n_ = 0; bool zero_ = false;
};

struct Ctx {
  const char* section = ""; int shard = 0, nshards = 1; bool thorough = false;
  uint64_t n_states = 0, n_steps = 0, n_traces = 0, n_fail = 0;
  std::vector<std::string> samples;
  U64Set seen;

  bool mine(uint64_t i) const { return i % (uint64_t)nshards == (uint64_t)shard; }
  // A state identified by hash h; true when not seen before in this shard.
  bool state(uint64_t h) { bool b = seen.insert(h); n_states += b; return b; }
  void states(uint64_t n) { n_states += n; }  // distinct by construction
  void step(uint64_t n = 1) { n_steps += n; }
  void trace(uint64_t n = 1) { n_traces += n; }
  bool want_sample() const { return samples.size() < 3; }
  void sample(std::string s) { if (want_sample()) samples.push_back(std::move(s)); }
  void fail(const std::string& key, const std::string& what);
};

// What is being executed right now, for crash/hang reports. Cheap.
struct Cur { const char* label; uint64_t v[8]; int n; const char* s; char text[160]; };
extern thread_local Cur cur;
template <typename... A>
inline void at(const char* label, A... a) {
  cur.label = label; cur.s = nullptr; cur.n = sizeof...(A);
  uint64_t t[] = {(uint64_t)a..., 0};
  for (int i = 0; i < cur.n && i < 8; ++i) cur.v[i] = t[i];
}
// The text is copied: it may be gone when a signal is reported.
inline void at_s(const char* label, const char* s) { cur.label = label; size_t i = 0; for (; s[i] && i + 1 < sizeof(cur.text); ++i) cur.text[i] = s[i]; cur.text[i] = 0; cur.s = cur.text; cur.n = 0; }

using Fn = void (*)(Ctx&);
struct Reg { Reg(const char* name, int shards, Fn fn, bool thorough_only = false); };

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33);
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234);

// Enumerates all vectors of length n over {0..base-1}; f(vector) false stops.
template <typename F>
void tuples(int n, int base, F f) {
  std::vector<int> v(n, 0);
  for (;;) {
    f(const_cast<const std::vector<int>&>(v));
    int i = n - 1;
    while (i >= 0 && ++v[i] == base) v[i--] = 0;
    if (i < 0) return;
  }
}
int run(int argc, char** argv);

// Runs f in a forked child; returns true if it ended by a signal/abort/exit!=0
// (used where the contract is "reports a fatal error").
bool dies(const std::function<void()>& f);

std::string hex(const void* p, size_t n);
template <typename T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }
template <typename T> std::string vstr(const T& v) {
  std::ostringstream o; o << "["; bool f = true;
  for (const auto& x : v) { if (!f) o << ","; f = false; o << x; }
  o << "]"; return o.str();
}
}  // namespace mc

#define MC_SECTION(name, shards)                                  \
  static void mc_fn_##name(mc::Ctx&);                             \
  static mc::Reg mc_reg_##name(#name, shards, &mc_fn_##name);     \
  static void mc_fn_##name([[maybe_unused]] mc::Ctx& c)
#define MC_SECTION_THOROUGH(name, shards)                         \
  static void mc_fn_##name(mc::Ctx&);                             \
  static mc::Reg mc_reg_##name(#name, shards, &mc_fn_##name, true);     \
  static void mc_fn_##name([[maybe_unused]] mc::Ctx& c)
// Checks cond as one transition of the implementation.
#define MC_CHECK(c, cond, key, msg)                               \
  do {                                                            \
    (c).n_steps++;                                                \
    if (__builtin_expect(!(cond), 0)) {                           \
      std::ostringstream mc_o_; mc_o_ << msg; (c).fail(key, mc_o_.str()); \
    }                                                             \
  } while (0)
#endif  // MC_MC_H_
