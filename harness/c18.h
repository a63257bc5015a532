// C18: runs one operation serially, then for several team sizes, iteration
// orders and (bounded) schedules; results must agree and no two accesses may
// race.
#ifndef MC_C18_H_
#define MC_C18_H_
#include <functional>
#include <sstream>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "mc/omp_rt.h"
namespace c18 {
struct Op { std::string name; std::function<std::string()> fn; };
template <typename R> std::string Str(const R& v) { std::string s; for (auto& x : v) s += x.ToString() + ","; return s; }
inline std::string Cut(const std::string& s) { return s.size() > 120 ? s.substr(0, 120) + "..." : s; }
inline void Run(mc::Ctx& c, const std::vector<Op>& ops, uint64_t limit = 400) {
  for (size_t i = 0; i < ops.size(); ++i) {
    if (!c.mine(i)) continue;
    const Op& op = ops[i];
    mc::at_s("operation", op.name.c_str());
    omc::set_threads(1); omc::set_reverse(false); (void)omc::take_races();
    const std::string ref = op.fn();
    std::vector<std::string> races;
    auto one = [&](const std::string& how) {
      uint64_t r0 = omc::stats.regions, a0 = omc::stats.accesses, s0 = omc::stats.switches;
      std::string got = op.fn();
      c.trace(1); c.step(1 + (omc::stats.accesses - a0)); c.states((omc::stats.regions - r0) + (omc::stats.switches - s0) + 1);
      MC_CHECK(c, got == ref, "result", op.name << ": " << how << ": " << Cut(got) << " instead of " << Cut(ref));
      for (auto& r : omc::take_races()) { bool known = false; for (auto& k : races) known |= k == r; if (!known) races.push_back(r); }
    };
    for (int t : {2, 3, 4, 8}) for (bool rev : {false, true}) {
      mc::at("team", t, rev);
      omc::set_threads(t); omc::set_reverse(rev);
      one("team of " + std::to_string(t) + (rev ? " in reverse order" : ""));
    }
    omc::set_threads(3); omc::set_reverse(false);
    bool complete = true;
    omc::explore(c.thorough ? 2 : 1, [&](const std::string& s) { one("team of 3, schedule " + s); }, c.thorough ? limit * 20 : limit, &complete);
    for (auto& r : races) {
      // the code address differs between builds; the kind of conflict does not
      size_t at = r.find(" by thread"); MC_CHECK(c, false, "race", op.name << ": " << r.substr(0, at) << " [" << r << "]");
    }
    if (c.want_sample()) c.sample(op.name + " -> " + Cut(ref));
  }
  omc::set_threads(1); omc::set_reverse(false);
}
}  // namespace c18
#endif
