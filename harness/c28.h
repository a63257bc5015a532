// A circuit with a runtime shape, proved and verified with the halo2 stack.
#ifndef MC_C28_H_
#define MC_C28_H_
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/halo2/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/base/commitments/gwc_extension.h"
#include "tachyon/zk/base/commitments/shplonk_extension.h"
#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/constants.h"
#include "tachyon/zk/plonk/halo2/pinned_verifying_key.h"
#include "tachyon/zk/plonk/halo2/prover.h"
#include "tachyon/zk/plonk/halo2/proving_scheme.h"
#include "tachyon/zk/plonk/halo2/verifier.h"
#include "tachyon/zk/plonk/keys/proving_key.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"
#include "tachyon/zk/plonk/layout/lookup_table.h"

namespace c28 {
using namespace tachyon;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;
using F = math::bn254::Fr;
using E = std::unique_ptr<Expression<F>>;
using X = tachyon::zk::ExpressionFactory<F>;
inline F Num(int64_t v) { return v < 0 ? -F(uint64_t(-v)) : F(uint64_t(v)); }

// What is configured (shared by all circuits of a proof).
struct Shape {
  int kind = 0, op = 0;
  uint32_t mask = 0;                       // rows the selector is on
  std::vector<int> table;                  // table or fixed values
  std::vector<std::pair<int, int>> links;  // cells 3 * row + column, 100 + row: instance, 200: constant 1
};
inline Shape g_shape;
// Cells of the three advice columns, row by row.
struct Wit { std::vector<int> cells; };

struct Config {
  using Field = F;
  std::vector<AdviceColumnKey> a;
  std::vector<FixedColumnKey> f;
  std::vector<LookupTableColumn> t;
  std::vector<InstanceColumnKey> ins;
  std::vector<Selector> s;
  std::vector<Challenge> ch;
  Config Clone() const { return *this; }
};

template <template <typename> class Planner>
class Circ : public Circuit<Config> {
 public:
  using FloorPlanner = Planner<Circ>;
  Wit w;
  Circ() = default;
  explicit Circ(const Wit& wit) : w(wit) {}
  std::unique_ptr<Circuit<Config>> WithoutWitness() const override { return std::make_unique<Circ>(w); }
  static Config Configure(ConstraintSystem<F>& m) {
    const Shape& sh = g_shape;
    Config c;
    for (int i = 0; i < 2; ++i) c.a.push_back(m.CreateAdviceColumn());
    c.a.push_back(sh.kind == 4 ? m.CreateAdviceColumn(Phase(1)) : m.CreateAdviceColumn());
    auto A = [&](VirtualCells<F>& v, int i, int r = 0) { return v.QueryAdvice(c.a[size_t(i)], Rotation(r)); };
    auto gate = [&](std::function<std::vector<E>(VirtualCells<F>&)> fn, Selector s) {
      m.CreateGate("g", [&](VirtualCells<F>& v) { std::vector<Constraint<F>> out; for (E& e : fn(v)) out.emplace_back(v.QuerySelector(s) * std::move(e)); return out; });
    };
    if (sh.kind == 0) {
      c.s.push_back(m.CreateSimpleSelector());
      c.f.push_back(m.CreateFixedColumn());
      c.ins.push_back(m.CreateInstanceColumn());
      gate([&](VirtualCells<F>& v) {
        std::vector<E> o;
        switch (sh.op) {
          case 0: o.push_back(A(v, 0) * A(v, 1) - A(v, 2)); break;
          case 1: o.push_back(A(v, 0, 1) - A(v, 0) - A(v, 1)); break;
          case 2: o.push_back(A(v, 2, -1) - A(v, 0) * v.QueryFixed(c.f[0], Rotation::Cur())); break;
          case 3: o.push_back(A(v, 0) - v.QueryInstance(c.ins[0], Rotation::Cur())); break;
          case 4: o.push_back(A(v, 0) * (A(v, 0) - X::Constant(F(1))) * (A(v, 0) - X::Constant(F(2)))); break;
          case 5: o.push_back(A(v, 0) - A(v, 1)); o.push_back(A(v, 1) - A(v, 2)); break;
          case 6: o.push_back(A(v, 0) * A(v, 1) * A(v, 2) * A(v, 2) - v.QueryFixed(c.f[0], Rotation::Cur())); break;
          case 7: o.push_back(-(A(v, 0) * F(2)) + A(v, 1) + A(v, 1)); break;
          case 8: o.push_back(A(v, 0) - v.QueryInstance(c.ins[0], Rotation(1)) - v.QueryInstance(c.ins[0], Rotation(-1))); break;
        }
        return o;
      }, c.s[0]);
    } else if (sh.kind == 1) {
      for (auto& a : c.a) m.EnableEquality(a);
      c.ins.push_back(m.CreateInstanceColumn()); m.EnableEquality(c.ins[0]);
      c.f.push_back(m.CreateFixedColumn()); m.EnableConstant(c.f[0]);
    } else if (sh.kind == 2) {
      c.s.push_back(m.CreateComplexSelector());
      c.t.push_back(m.CreateLookupTableColumn()); c.t.push_back(m.CreateLookupTableColumn());
      auto in = [&](VirtualCells<F>& v, int i, int def) { E q = v.QuerySelector(c.s[0]); E no = X::Constant(F(1)) - q->Clone(); return q * A(v, i) + std::move(no) * Num(def); };
      auto def = [&](int i) { return sh.table[size_t(i) * sh.table.size() / 2]; };
      if (sh.op == 0 || sh.op == 2) m.Lookup("l", [&](VirtualCells<F>& v) { lookup::Pairs<E, LookupTableColumn> p; p.emplace_back(in(v, 0, def(0)), c.t[0]); return p; });
      if (sh.op == 2) m.Lookup("k", [&](VirtualCells<F>& v) { lookup::Pairs<E, LookupTableColumn> p; p.emplace_back(in(v, 1, def(0)), c.t[0]); return p; });
      if (sh.op == 1) m.Lookup("l", [&](VirtualCells<F>& v) { lookup::Pairs<E, LookupTableColumn> p; p.emplace_back(in(v, 0, def(0)), c.t[0]); p.emplace_back(in(v, 1, def(1)), c.t[1]); return p; });
      if (sh.op == 3) m.LookupAny("l", [&](VirtualCells<F>& v) { lookup::Pairs<E> p; p.emplace_back(A(v, 0), A(v, 1)); return p; });
    } else if (sh.kind == 3) {
      m.Shuffle("s", [&](VirtualCells<F>& v) { shuffle::Pairs<E> p; if (sh.op == 0) p.emplace_back(A(v, 0), A(v, 1)); else { p.emplace_back(A(v, 0), A(v, 1)); p.emplace_back(A(v, 1), A(v, 0)); } return p; });
    } else if (sh.kind == 4) {
      c.s.push_back(m.CreateSimpleSelector());
      c.ch.push_back(m.CreateChallengeUsableAfter(Phase(0)));
      gate([&](VirtualCells<F>& v) { std::vector<E> o; o.push_back(A(v, 0) * v.QueryChallenge(c.ch[0]) - A(v, 2)); return o; }, c.s[0]);
    }
    return c;
  }
  void Synthesize(Config&& c, Layouter<F>* l) const override {
    const Shape& sh = g_shape;
    size_t rows = w.cells.size() / 3;
    if (sh.kind == 2) {
      size_t n = sh.table.size() / 2;
      l->AssignLookupTable("t", [&](LookupTable<F>& t) {
        for (size_t k = 0; k < 2; ++k) for (size_t r = 0; r < n; ++r) { bool ok = t.AssignCell("c", c.t[k], RowIndex(r), [&]() { return Value<F>::Known(Num(sh.table[k * n + r])); }); if (!ok) abort(); }
      });
    }
    std::vector<AssignedCell<F>> cells;
    Value<F> ch = c.ch.empty() ? Value<F>::Known(F(0)) : l->GetChallenge(c.ch[0]);
    l->AssignRegion("r", [&](Region<F>& r) {
      cells.clear();
      for (size_t i = 0; i < rows; ++i) {
        if (!c.s.empty() && (sh.mask >> i & 1)) c.s[0].Enable(r, RowIndex(i));
        if (sh.kind == 0) r.AssignFixed("f", c.f[0], RowIndex(i), [&]() { return Value<F>::Known(Num(sh.table[i])); });
        for (size_t k = 0; k < 3; ++k) { int x = w.cells[i * 3 + k]; cells.push_back(r.AssignAdvice("c", c.a[k], RowIndex(i), [&]() { return sh.kind == 4 && k == 2 ? ch * Value<F>::Known(Num(x)) : Value<F>::Known(Num(x)); })); }
      }
      for (auto& [x, y] : sh.links) if (x < 100) { if (y < 100) r.ConstrainEqual(cells[size_t(x)].cell(), cells[size_t(y)].cell()); if (y >= 200) r.ConstrainConstant(cells[size_t(x)].cell(), math::RationalField<F>(Num(y - 200))); }
    });
    for (auto& [x, y] : sh.links) if (y >= 100 && y < 200) l->ConstrainInstance(cells[size_t(x)].cell(), c.ins[0], RowIndex(y - 100));
  }
};

constexpr size_t kN = 16;
#if defined(MC_GWC)
using PCS = GWCExtension<math::bn254::BN254Curve, 31, 255, math::bn254::G1AffinePoint>;
#else
using PCS = SHPlonkExtension<math::bn254::BN254Curve, 31, 255, math::bn254::G1AffinePoint>;
#endif
#if defined(MC_LOGUP)
constexpr lookup::Type kLookup = lookup::Type::kLogDerivativeHalo2;
#else
constexpr lookup::Type kLookup = lookup::Type::kHalo2;
#endif
constexpr halo2::Vendor kVendor = halo2::Vendor::kScroll;
using PS = halo2::ProvingScheme<kVendor, kLookup, PCS>;
using Com = PCS::Commitment;
using Evals = PCS::Evals;
using Bytes = std::vector<uint8_t>;
using Instances = std::vector<std::vector<std::vector<int>>>;  // per circuit, per column

inline void Init() {
  static bool once = [] { math::bn254::BN254Curve::Init(); math::halo2::OverrideSubgroupGenerator(); return true; }();
  (void)once;
}
inline PCS MakePCS() { PCS pcs; if (!pcs.UnsafeSetup(kN, F(2))) abort(); return pcs; }
inline halo2::Prover<PS> MakeProver() {
  Init();
  auto rng = std::make_unique<crypto::XORShiftRNG>();
  uint8_t seed[16] = {0x59, 0x62, 0xbe, 0x5d, 0x76, 0x3d, 0x31, 0x8d, 0x17, 0xdb, 0x37, 0x32, 0x54, 0x06, 0xbc, 0xe5};
  if (!rng->SetSeed(absl::Span<const uint8_t>(seed, 16))) abort();
  auto p = halo2::Prover<PS>::Create(MakePCS(), std::make_unique<halo2::Blake2bWriter<Com>>(base::Uint8VectorBuffer()), std::move(rng), 0);
  p.set_domain(PCS::Domain::Create(kN));
  return p;
}
inline std::vector<std::vector<Evals>> Columns(const Instances& ins) {
  std::vector<std::vector<Evals>> out;
  for (auto& c : ins) { out.emplace_back(); for (auto& col : c) { std::vector<F> v; for (int x : col) v.push_back(Num(x)); out.back().push_back(Evals(std::move(v))); } }
  return out;
}
template <template <typename> class Planner>
Bytes Prove(const std::vector<Wit>& w, const Instances& ins) {
  using C = Circ<Planner>;
  auto p = MakeProver();
  std::vector<C> circuits; for (auto& x : w) circuits.emplace_back(x);
  ProvingKey<PS> pk;
  if (!pk.Load(&p, circuits[0])) abort();
  p.CreateProof(pk, Columns(ins), circuits);
  return p.GetWriter()->buffer().owned_buffer();
}
// A verifier knows the shape only.
template <template <typename> class Planner>
struct Checker {
  using C = Circ<Planner>;
  VerifyingKey<F, Com> vk; std::unique_ptr<halo2::Verifier<PS>> v;
  explicit Checker(size_t rows) {
    auto p = MakeProver(); C c{Wit{std::vector<int>(rows * 3, 0)}};
    if (!vk.Load(&p, c, kLookup)) abort();
    v = std::make_unique<halo2::Verifier<PS>>(p.ToVerifier(std::make_unique<halo2::Blake2bReader<Com>>(base::ReadOnlyBuffer())));
  }
  bool Verify(const Bytes& proof, const Instances& ins) {
    auto p = MakeProver();
    if (!p.domain()) abort();
    base::Buffer buf(const_cast<uint8_t*>(proof.data()), proof.size());
    halo2::Verifier<PS> ver = p.ToVerifier(std::make_unique<halo2::Blake2bReader<Com>>(std::move(buf)));
    return ver.VerifyProof(vk, Columns(ins));
  }
};
}  // namespace c28
#endif
