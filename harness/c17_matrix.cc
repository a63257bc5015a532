// C17: matrices against plain two-dimensional arrays.
#include "mc/fields/m5.h"
#include "mc/fields/m7.h"
#include "mc/fields/m97.h"
#include "mc/mcfield.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "third_party/eigen3/Eigen/LU"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif

namespace {
using namespace tachyon::math;
using namespace tachyon::math::mcf;
#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 8};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif
template <typename F> using A2 = std::vector<std::vector<F>>;
template <typename F> A2<F> Arr(int r, int c, int seed) {
  A2<F> a(r, std::vector<F>(c));
  uint64_t s = seed;
  for (auto& row : a) for (auto& x : row) { s = s * 6364136223846793005ull + 1442695040888963407ull; x = F(uint32_t((s >> 33) % 97)); }
  return a;
}
template <typename M, typename F> M Make(const A2<F>& a, int r, int c) {
  M m(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = a[i][j];
  return m;
}
template <typename M, typename F> bool Same(const M& m, const A2<F>& a, int r, int c) {
  if (m.rows() != r || m.cols() != c) return false;
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (m(i, j) != a[i][j]) return false;
  return true;
}
template <typename F> A2<F> Mul(const A2<F>& a, const A2<F>& b, int n, int k, int m) {
  A2<F> r(n, std::vector<F>(m, F::Zero()));
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int t = 0; t < k; ++t) r[i][j] = r[i][j] + a[i][t] * b[t][j];
  return r;
}
template <typename M> std::string MS(const M& m) {
  std::string s = std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + "[";
  for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) s += m(i, j).ToString() + " "; s += "; "; }
  return s + "]";
}

template <typename F, typename MA, typename MB> void Shape(mc::Ctx& c, int n, int k, int m, int seed) {
  auto a = Arr<F>(n, k, seed), b = Arr<F>(k, m, seed + 1), a2 = Arr<F>(n, k, seed + 2);
  MA x = Make<MA>(a, n, k);
  MB y = Make<MB>(b, k, m);
  MA x2 = Make<MA>(a2, n, k);
  auto want = Mul(a, b, n, k, m);
  std::string msg = MS(x) + " * " + MS(y);
  mc::at(msg.c_str());
  MC_CHECK(c, Same(MulMatMat(x, y), want, n, m), "mul_mat_mat", msg);
  MC_CHECK(c, Same(MulMatMatSerial(x, y), want, n, m), "mul_mat_mat_serial", msg);
  if (n && k && m) {
    Matrix<F> e = x * y;
    MC_CHECK(c, Same(e, want, n, m), "eigen_mul", msg);
    Matrix<F> t = (x * y).transpose();
    bool ok = t.rows() == m && t.cols() == n;
    for (int i = 0; ok && i < n; ++i) for (int j = 0; j < m; ++j) ok = ok && t(j, i) == want[i][j];
    MC_CHECK(c, ok, "transpose", msg);
  }
  // element-wise
  Matrix<F> s = x + x2, d = x - x2, sc = x * F(uint32_t{3});
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < k; ++j) {
      MC_CHECK(c, s(i, j) == a[i][j] + a2[i][j], "add", msg);
      MC_CHECK(c, d(i, j) == a[i][j] - a2[i][j], "sub", msg);
      MC_CHECK(c, sc(i, j) == a[i][j] * F(uint32_t{3}), "scale", msg);
    }
  // vectors: every column of y, every form of vector
  for (int j = 0; j < m; ++j) {
    Vector<F> v(k);
    RowVector<F> rv(k);
    for (int i = 0; i < k; ++i) v[i] = rv[i] = b[i][j];
    auto is = [&](const Vector<F>& r) {
      if (r.size() != n) return false;
      for (int i = 0; i < n; ++i) if (r[i] != want[i][j]) return false;
      return true;
    };
    MC_CHECK(c, is(MulMatVec(x, v)), "mul_mat_vec", msg);
    MC_CHECK(c, is(MulMatVecSerial(x, v)), "mul_mat_vec_serial", msg);
    MC_CHECK(c, is(MulMatVec(x, rv)), "mul_mat_rowvec", msg);
    MC_CHECK(c, is(MulMatVecSerial(x, rv)), "mul_mat_rowvec_serial", msg);
    MC_CHECK(c, is(MulMatVec(x, y.col(j))), "mul_mat_col", msg);
    Matrix<F> yt = y.transpose();
    MC_CHECK(c, is(MulMatVec(x, yt.row(j))), "mul_mat_row", msg);
    MC_CHECK(c, is(MulMatVecSerial(x, y.col(j))), "mul_mat_col_serial", msg);
    MC_CHECK(c, is(MulMatVecSerial(x, yt.row(j))), "mul_mat_row_serial", msg);
  }
  // views
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < k; ++j)
      MC_CHECK(c, x.row(i)[j] == a[i][j] && x.col(j)[i] == a[i][j] && Map(x)(i, j) == a[i][j] && Map(std::as_const(x))(i, j) == a[i][j], "views", msg);
  MC_CHECK(c, Map(x).rows() == n && Map(x).cols() == k, "map_shape", msg);
  for (int q = 1; q <= n; ++q) {
    auto sp = SplitMat(q, x);
    bool ok = int(sp.size()) == q;
    for (int i = 0; ok && i < q; ++i) {
      ok = sp[i].rows() == n - q + 1 && sp[i].cols() == k;
      for (int r = 0; ok && r < n - q + 1; ++r) for (int j = 0; j < k; ++j) ok = ok && sp[i](r, j) == a[i + r][j];
    }
    MC_CHECK(c, ok, "split", msg);
  }
  c.states(1);
  if (c.want_sample()) c.sample(msg);
}
template <typename F> void Shapes(mc::Ctx& c, int mx) {
  F::Init();
  uint64_t i = 0;
  for (int t : kTeams) {
    Team(t);
    for (int n = 0; n <= mx; ++n)
      for (int k = 0; k <= mx; ++k)
        for (int m = 0; m <= mx; ++m) {
          if (!c.mine(i++)) continue;
          for (int s = 0; s < 3; ++s) {
            Shape<F, Matrix<F>, Matrix<F>>(c, n, k, m, s);
            Shape<F, RowMajorMatrix<F>, ColMajorMatrix<F>>(c, n, k, m, s);
            Shape<F, RowMajorMatrix<F>, RowMajorMatrix<F>>(c, n, k, m, s);
          }
        }
  }
}
MC_SECTION(shapes_m97, 4) { Shapes<M97>(c, c.thorough ? 9 : 6); }
MC_SECTION(shapes_bb, 4) { Shapes<BabyBear>(c, 4); }

// Every small matrix: products, inverse and determinant.
template <typename F, int N> void Square(mc::Ctx& c, int p, int step) {
  F::Init();
  uint64_t i = 0;
  mc::tuples(N * N, p, [&](const std::vector<int>& v) {
    if (i++ % (uint64_t(step) * c.nshards) != uint64_t(c.shard) * step) return;
    Matrix<F, N, N> f;
    Matrix<F> d(N, N);
    for (int r = 0; r < N; ++r) for (int k = 0; k < N; ++k) f(r, k) = d(r, k) = F(uint32_t(v[r * N + k]));
    // Leibniz
    std::vector<int> pm(N);
    for (int k = 0; k < N; ++k) pm[k] = k;
    F det = F::Zero();
    do {
      F t = F::One();
      int inv = 0;
      for (int k = 0; k < N; ++k) { t = t * d(k, pm[k]); for (int l = k + 1; l < N; ++l) inv += pm[k] > pm[l]; }
      det = inv & 1 ? det - t : det + t;
    } while (std::next_permutation(pm.begin(), pm.end()));
    std::string msg = MS(d);
    mc::at(msg.c_str());
    MC_CHECK(c, f.determinant() == det, "determinant_fixed", msg);
    MC_CHECK(c, d.determinant() == det, "determinant", msg + " got " + d.determinant().ToString());
    if (det != F::Zero()) {
      Matrix<F> id = Matrix<F>::Identity(N, N);
      Matrix<F> inv = d.inverse();
      MC_CHECK(c, MulMatMatSerial(d, inv) == id && MulMatMatSerial(inv, d) == id, "inverse", msg + " got " + MS(inv));
    }
    c.states(1);
  });
}
MC_SECTION(square1, 1) { Square<M5, 1>(c, 5, 1); Square<M7, 1>(c, 7, 1); }
MC_SECTION(square2, 2) { Square<M5, 2>(c, 5, 1); Square<M7, 2>(c, 7, 1); }
MC_SECTION(square3, 8) { Square<M5, 3>(c, 3, 1); Square<M5, 3>(c, 5, c.thorough ? 1 : 41); }
MC_SECTION(square4, 8) { Square<M5, 4>(c, 2, 1); Square<M7, 4>(c, 3, c.thorough ? 211 : 2003); }

// ---- utilities ----
template <typename F, typename MT> void Circ(mc::Ctx& c, int n) {
  auto a = Arr<F>(n, 1, n);
  MT v(n);
  for (int i = 0; i < n; ++i) v[i] = a[i][0];
  Matrix<F> m = MakeCirculant(v);
  bool ok = m.rows() == n && m.cols() == n;
  for (int i = 0; ok && i < n; ++i) for (int j = 0; j < n; ++j) ok = ok && m(i, j) == a[(i - j + n) % n][0];
  MC_CHECK(c, ok, "circulant", MS(m));
}
template <typename F> void Rev(mc::Ctx& c, int logn, int cols) {
  int n = logn < 0 ? 0 : 1 << logn;
  auto a = Arr<F>(n, cols, n * 31 + cols);
  RowMajorMatrix<F> m = Make<RowMajorMatrix<F>>(a, n, cols);
  mc::at("reverse", n, cols);
  ReverseMatrixIndexBits(m);
  auto w = a;
  for (int i = 0; i < n; ++i) { int r = 0; for (int b = 0; b < logn; ++b) if (i >> b & 1) r |= 1 << (logn - 1 - b); w[r] = a[i]; }
  MC_CHECK(c, Same(m, w, n, cols), "reverse_bits", std::to_string(n) + "x" + std::to_string(cols));
  // through a view
  RowMajorMatrix<F> m2 = Make<RowMajorMatrix<F>>(a, n, cols);
  auto mp = Map(m2);
  ReverseMatrixIndexBits(mp);
  MC_CHECK(c, Same(m2, w, n, cols), "reverse_bits_map", std::to_string(n) + "x" + std::to_string(cols));
  c.states(1);
}
template <typename F, typename E> void Pack(mc::Ctx& c, int rows, int cols) {
  using P = typename PackedFieldTraits<F>::PackedField;
  constexpr int N = P::N;
  auto a = Arr<F>(rows, cols, rows * 7 + cols);
  std::string msg = std::to_string(rows) + "x" + std::to_string(cols);
  mc::at("pack", rows, cols);
  auto go = [&](const auto& m) {
    for (int r = 0; r < rows; ++r) {
      auto h = PackRowHorizontallyPadded(m.row(r));
      bool ok = int(h.size()) == (cols + N - 1) / N;
      for (int i = 0; ok && i < int(h.size()); ++i)
        for (int l = 0; l < N; ++l) ok = ok && h[i][l] == (i * N + l < cols ? a[r][i * N + l] : F::Zero());
      MC_CHECK(c, ok, "pack_row", msg + " row " + std::to_string(r));
      auto v = PackRowVertically<P>(m, r);
      ok = int(v.size()) == cols;
      for (int j = 0; ok && j < cols; ++j) for (int l = 0; l < N; ++l) ok = ok && v[j][l] == a[(r + l) % rows][j];
      MC_CHECK(c, ok, "pack_vertical", msg + " row " + std::to_string(r));
    }
  };
  go(Make<Matrix<F>>(a, rows, cols));
  go(Make<RowMajorMatrix<F>>(a, rows, cols));
  RowMajorMatrix<E> me(rows, cols);
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) for (int k = 0; k < 4; ++k) me(i, j)[k] = a[i][j] * F(uint32_t(k + 1)) + F(uint32_t(k));
  for (int r = 0; r < rows; ++r) {
    auto v = PackRowVertically<P>(me, r);
    bool ok = int(v.size()) == cols * 4;
    for (int j = 0; ok && j < cols * 4; ++j) for (int l = 0; l < N; ++l) ok = ok && v[j][l] == me((r + l) % rows, j / 4)[j % 4];
    MC_CHECK(c, ok, "pack_vertical_ext", msg + " row " + std::to_string(r));
  }
  for (int q = 0; q < 4; ++q) {
    E base;
    for (int k = 0; k < 4; ++k) base[k] = F(uint32_t(q == 0 ? (k == 0) : q == 1 ? 0 : (q * 131 + k * 17)));
    RowMajorMatrix<F> m = Make<RowMajorMatrix<F>>(a, rows, cols);
    auto dp = DotExtPowers(m, base);
    bool ok = int(dp.size()) == rows;
    for (int r = 0; ok && r < rows; ++r) {
      E s = E::Zero(), pw = E::One();
      for (int j = 0; j < cols; ++j) {
        E t = pw;
        for (int k = 0; k < 4; ++k) t[k] = t[k] * a[r][j];
        s = s + t;
        pw = pw * base;
      }
      ok = dp[r] == s;
    }
    MC_CHECK(c, ok, "dot_ext_powers", msg + " base " + base.ToString());
  }
  c.states(1);
}
MC_SECTION(circulant, 1) { M97::Init(); for (int n = 1; n <= 12; ++n) { Circ<M97, Vector<M97>>(c, n); Circ<M97, RowVector<M97>>(c, n); } }
MC_SECTION(reverse, 2) {
  M97::Init(); BabyBear::Init(); BabyBear4::Init();
  uint64_t i = 0;
  for (int t : kTeams) {
    Team(t);
    for (int l = -1; l <= 8; ++l)
      for (int k = 0; k <= 5; ++k) { if (!c.mine(i++)) continue; Rev<M97>(c, l, k); Rev<BabyBear>(c, l, k); Rev<BabyBear4>(c, l, k); }
    for (int n : {3, 5, 6, 7, 9, 12})
      if (c.mine(i++)) MC_CHECK(c, mc::dies([&] { RowMajorMatrix<M97> m(n, 2); ReverseMatrixIndexBits(m); }), "reverse_not_pow2", std::to_string(n));
  }
}
MC_SECTION(pack, 4) {
  BabyBear4::Init(); KoalaBear4::Init();
  PackedBabyBear::Init(); PackedKoalaBear::Init(); PackedBabyBear4::Init(); PackedKoalaBear4::Init();
  uint64_t i = 0;
  for (int t : kTeams) {
    Team(t);
    for (int r = 1; r <= 20; ++r)
      for (int k = 0; k <= 34; ++k) {
        if (!c.mine(i++)) continue;
        Pack<BabyBear, BabyBear4>(c, r, k);
        Pack<KoalaBear, KoalaBear4>(c, r, k);
      }
  }
}

// ---- sparse matrices ----
template <typename F, int Opt> Eigen::SparseMatrix<F, Opt> Eig(const A2<F>& a, int r, int k) {
  Eigen::SparseMatrix<F, Opt> m(r, k);
  std::vector<Eigen::Triplet<F>> t;
  for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) if (a[i][j] != F::Zero()) t.push_back({i, j, a[i][j]});
  m.setFromTriplets(t.begin(), t.end());
  return m;
}
// All zero patterns of an r x k matrix.
void Sparse(mc::Ctx& c, int r, int k) {
  using F = M97;
  using ELL = ELLSparseMatrix<F>;
  using CSR = CSRSparseMatrix<F>;
  for (uint64_t mask = 0; mask < (uint64_t{1} << (r * k)); ++mask) {
    if (!c.mine(mask)) continue;
    A2<F> a(r, std::vector<F>(k, F::Zero()));
    std::vector<std::vector<F>> data(r);
    std::vector<std::vector<size_t>> idx(r);
    std::vector<ELL::Elements> el(r), elrev(r);
    CSR::Elements ce, cerev;
    std::vector<size_t> ptr{0};
    size_t maxc = 0, nz = 0;
    for (int i = 0; i < r; ++i) {
      for (int j = 0; j < k; ++j)
        if (mask >> (i * k + j) & 1) {
          F v(uint32_t(i * 7 + j * 3 + 1));
          a[i][j] = v;
          data[i].push_back(v); idx[i].push_back(j); el[i].push_back({size_t(j), v});
          ce.push_back({size_t(j), v});
          maxc = std::max(maxc, size_t(j) + 1); ++nz;
        }
      elrev[i] = ELL::Elements(el[i].rbegin(), el[i].rend());
      for (auto& e : elrev[i]) cerev.push_back({e.index, e.value});
      ptr.push_back(ce.size());
    }
    std::string msg = std::to_string(r) + "x" + std::to_string(k) + " mask " + std::to_string(mask);
    mc::at("sparse", r, k, int(mask));
    std::vector<F> fd; std::vector<size_t> fi;
    for (auto& x : ce) { fd.push_back(x.value); fi.push_back(x.index); }
    auto is_ell = [&](const ELL& e, const char* key) {
      MC_CHECK(c, e.GetData() == data && e.GetColumnIndices() == idx, std::string(key) + "_data", msg);
      MC_CHECK(c, e.MaxRows() == size_t(r) && e.NonZeros() == nz && e.IsSorted(), std::string(key) + "_queries", msg);
      MC_CHECK(c, e.MaxCols() == maxc, std::string(key) + "_maxcols", msg);
    };
    auto is_csr = [&](const CSR& e, const char* key) {
      MC_CHECK(c, e.GetData() == fd && e.GetColumnIndices() == fi && e.row_ptrs() == ptr, std::string(key) + "_data", msg);
      MC_CHECK(c, e.MaxRows() == size_t(r) && e.NonZeros() == nz && e.IsSorted(), std::string(key) + "_queries", msg);
      MC_CHECK(c, e.MaxCols() == maxc, std::string(key) + "_maxcols", msg);
    };
    ELL e(el);
    CSR s(ce, ptr);
    is_ell(e, "ell");
    is_csr(s, "csr");
    is_csr(e.ToCSR(), "ell_to_csr");
    is_ell(s.ToELL(), "csr_to_ell");
    is_csr(CSR::FromELL(e), "csr_from_ell");
    is_ell(ELL::FromCSR(s), "ell_from_csr");
    if (r && k) {
      auto ec = Eig<F, Eigen::ColMajor>(a, r, k);
      auto er = Eig<F, Eigen::RowMajor>(a, r, k);
      is_ell(ELL::FromEigenSparseMatrix(ec), "ell_from_eigen");
      is_ell(ELL::FromEigenSparseMatrix(er), "ell_from_eigen_row");
      is_csr(CSR::FromEigenSparseMatrix(ec), "csr_from_eigen");
      is_csr(CSR::FromEigenSparseMatrix(er), "csr_from_eigen_row");
    }
    auto dense_ok = [&](const Eigen::SparseMatrix<F>& m) {
      if (m.rows() != r || size_t(m.cols()) != maxc || size_t(m.nonZeros()) != nz) return false;
      for (int i = 0; i < r; ++i) for (size_t j = 0; j < maxc; ++j) if (m.coeff(i, j) != a[i][j]) return false;
      return true;
    };
    MC_CHECK(c, dense_ok(e.ToEigenSparseMatrix()), "ell_to_eigen", msg);
    MC_CHECK(c, dense_ok(s.ToEigenSparseMatrix()), "csr_to_eigen", msg);
    ELL u(elrev);
    bool srt = true;
    for (auto& x : el) srt = srt && x.size() < 2;
    MC_CHECK(c, u.IsSorted() == srt, "ell_is_sorted", msg);
    MC_CHECK(c, (u == e) == srt && (u != e) == !srt, "ell_eq_unsorted", msg);
    u.Sort();
    is_ell(u, "ell_sort");
    MC_CHECK(c, u == e, "ell_eq", msg);
    CSR w(cerev, ptr);
    MC_CHECK(c, w.IsSorted() == srt, "csr_is_sorted", msg);
    w.Sort();
    is_csr(w, "csr_sort");
    MC_CHECK(c, w == s, "csr_eq", msg);
    if (nz) {
      auto el2 = el;
      for (auto& x : el2) if (!x.empty()) { x.back().value = x.back().value + F::One(); break; }
      MC_CHECK(c, ELL(el2) != e && !(ELL(el2) == e) && !(ELL(el2).ToCSR() == s), "neq", msg);
    }
    c.states(1);
    c.trace(1);
  }
}
MC_SECTION(sparse, 4) {
  M97::Init();
  for (int r = 0; r <= 4; ++r) for (int k = 0; k <= 4; ++k) if (r * k <= (c.thorough ? 16 : 12)) Sparse(c, r, k);
  Sparse(c, 1, 10); Sparse(c, 10, 1);
  if (c.shard == 0) {
    ELLSparseMatrix<M97> e;
    CSRSparseMatrix<M97> s;
    MC_CHECK(c, e.MaxRows() == 0 && e.NonZeros() == 0 && e.IsSorted() && s.MaxRows() == 0 && s.NonZeros() == 0, "default", "");
    mc::at("default sparse");
    MC_CHECK(c, e.MaxCols() == 0 && s.MaxCols() == 0 && s.IsSorted(), "default_cols", "");
    e.Sort(); s.Sort();
    MC_CHECK(c, s.ToELL() == e, "default_convert", "");
  }
}
}  // namespace
