// G10
#include "geocommon.hh"
#include <dune/geometry/multilineargeometry.hh>
static constexpr int MAXN = CT_MAX(5,4);

namespace {
using H = typename Dune::MultiLinearGeometryTraits<ct>::MatrixHelper;
template<int m, int n> using FM = Dune::FieldMatrix<ct,m,n>;
template<int n> using FV = Dune::FieldVector<ct,n>;
template<int m, int n> FM<m,n> fm(const Mat& A) { FM<m,n> r; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) r[i][j] = ct(A[i][j]); return r; }
template<int m, int n> Mat ld(const FM<m,n>& A) { return toMat(A, m, n); }

template<class Helper, int m, int n>
void pair(Source& s, Ctx& c)
{
  // m rows <= n columns
  const LD e = eps<ct>();
  Mat At = genMatrix(s, n, m);               // n x m with full column rank
  int ex = s.oneIn(4) ? s.range(0, 20) - 10 : 0;
  for (auto& r : At) for (auto& v : r) v = LD(ct(std::ldexp(v, ex)));
  Mat A = oracle::transpose(At);             // m x n
  Vec x(n); for (auto& v : x) v = LD(ct(s.sreal(2)));
  c.desc << m << "x" << n << " matrix " << str(A) << " vector " << str(x);
  auto M = fm<m,n>(A); auto Mt = fm<n,m>(At);
  Bounds b = bounds(At, m, oracle::frob(A), e);
  LD mu = oracle::gramDet(At, m);
  c.near(Helper::sqrtDetAAT(M), mu, b.ie, "sqrtDetAAT");
  Mat R = oracle::transpose(oracle::leftInverse(At));   // n x m right inverse
  FM<n,m> r;
  for (auto& row : r) row = ct(7);                      // must be overwritten
  ct d = Helper::rightInvA(M, r);
  nearMat(c, ld<n,m>(r), R, b.inv, "rightInvA"); c.near(d, mu, b.ie, "determinant returned by rightInvA");
  // A * R = identity
  nearMat(c, oracle::mul(A, ld<n,m>(r)), [&] { Mat I(m, Vec(m, 0)); for (int i = 0; i < m; ++i) I[i][i] = 1; return I; }(), oracle::frob(A)*b.inv, "A times right inverse");
  FV<m> y(ct(7));
  bool ok = Helper::xTRightInvA(M, toFV<ct,n>(x), y);
  c.check(ok, "xTRightInvA reports a regular matrix singular");
  Vec want(m, 0); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) want[i] += x[j]*R[j][i];
  nearVec(c, toVec(y), want, b.inv*(1+oracle::norm(x))*4, "xTRightInvA");
  if constexpr (requires (FM<m,n> l) { Helper::leftInvA(Mt, l); }) {
    FM<m,n> l; for (auto& row : l) row = ct(-3);
    ct d2 = Helper::leftInvA(Mt, l);
    nearMat(c, ld<m,n>(l), oracle::transpose(R), b.inv, "leftInvA"); c.near(d2, mu, b.ie, "determinant returned by leftInvA");
  }
  if constexpr (requires (FV<m> q) { Helper::leftInvAx(Mt, toFV<ct,n>(x), q); }) {
    FV<m> q(ct(5)); c.check(Helper::leftInvAx(Mt, toFV<ct,n>(x), q), "leftInvAx reports a regular matrix singular");
    nearVec(c, toVec(q), want, b.inv*(1+oracle::norm(x))*4, "leftInvAx");
  }
  // products
  LD pt = 16*e*oracle::frob(A)*oracle::frob(A);
  Mat AAT = oracle::mul(A, At);
  if constexpr (requires (FM<m,m> q) { Helper::AAT(M, q); }) { FM<m,m> q(ct(9)); Helper::AAT(M, q); nearMat(c, ld<m,m>(q), AAT, pt, "AAT"); }
  if constexpr (requires (FM<m,m> q) { Helper::AAT_L(M, q); }) {
    FM<m,m> q(ct(9)); Helper::AAT_L(M, q); for (int i = 0; i < m; ++i) for (int j = 0; j <= i; ++j) c.near(q[i][j], AAT[i][j], pt, "AAT_L");
  }
  if constexpr (requires (FM<m,m> q) { Helper::ATA_L(Mt, q); }) {
    FM<m,m> q(ct(9)); Helper::ATA_L(Mt, q); for (int i = 0; i < m; ++i) for (int j = 0; j <= i; ++j) c.near(q[i][j], AAT[i][j], pt, "ATA_L");
  }
  if constexpr (requires (FM<n,n> q) { Helper::ATBT(M, Mt, q); }) {   // (n x m)(m x n)
    FM<n,n> q(ct(9)); Helper::ATBT(M, Mt, q); nearMat(c, ld<n,n>(q), oracle::mul(At, A), pt, "ATBT");
  }
  withDim<1,MAXN>(1 + int(s.choice(MAXN)), [&](auto pc) {             // a second factor of another shape
    constexpr int p = decltype(pc)::value;
    Mat B(p, Vec(m)), C(n, Vec(p)); for (auto* q : {&B, &C}) for (auto& row : *q) for (auto& v : row) v = LD(ct(s.sreal(2)));
    auto Bf = fm<p,m>(B); auto Cf = fm<n,p>(C);
    LD qt = 16*e*oracle::frob(A)*(1 + oracle::frob(B) + oracle::frob(C));
    if constexpr (requires (FM<n,p> q) { Helper::ATBT(M, Bf, q); }) { FM<n,p> q(ct(9)); Helper::ATBT(M, Bf, q); nearMat(c, ld<n,p>(q), oracle::mul(At, oracle::transpose(B)), qt, "ATBT with another matrix"); }
    if constexpr (requires (FM<m,p> q) { Helper::AB(M, Cf, q); }) { FM<m,p> q(ct(9)); Helper::AB(M, Cf, q); nearMat(c, ld<m,p>(q), oracle::mul(A, C), qt, "AB"); }
  });
  if constexpr (requires (FV<m> q) { Helper::Ax(M, toFV<ct,n>(x), q); }) {
    FV<m> q(ct(5)); Helper::Ax(M, toFV<ct,n>(x), q); Vec w(m, 0); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) w[i] += A[i][j]*x[j];
    nearVec(c, toVec(q), w, 16*e*oracle::frob(A)*oracle::norm(x), "Ax");
  }
  if constexpr (requires (FV<m> q) { Helper::ATx(Mt, toFV<ct,n>(x), q); }) {
    FV<m> q(ct(5)); Helper::ATx(Mt, toFV<ct,n>(x), q); Vec w(m, 0); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) w[i] += A[i][j]*x[j];
    nearVec(c, toVec(q), w, 16*e*oracle::frob(A)*oracle::norm(x), "ATx");
  }
  if constexpr (requires (FM<m,m> q) { Helper::ATA(Mt, q); }) { FM<m,m> q(ct(9)); Helper::ATA(Mt, q); nearMat(c, ld<m,m>(q), AAT, pt, "ATA"); }
  // documented as determinants but computed as their square roots: either is accepted
  auto detOrRoot = [&](ct v, const char* what) { if (b.kappa*b.kappa*e < 1e-3L) c.check(std::abs(LD(v) - mu) <= 4*b.ie || std::abs(LD(v) - mu*mu) <= 4*b.ie*(1+mu), what, ": ", v, " is neither the determinant ", mu*mu, " nor its root"); };
  if constexpr (requires { Helper::detATA(Mt); }) detOrRoot(Helper::detATA(Mt), "detATA");
  if constexpr (n > m) {                                              // more rows than columns
    if constexpr (requires { Helper::detATA(M); }) c.near(Helper::detATA(M), 0, 64*e*(1+mu)*std::pow(1+oracle::frob(A), 2*n), "detATA of a wide matrix");
    if constexpr (requires { Helper::sqrtDetAAT(Mt); }) c.near(Helper::sqrtDetAAT(Mt), 0, 64*std::sqrt(e)*(1+mu)*std::pow(1+oracle::frob(A), n), "sqrtDetAAT of a tall matrix");
  }
  // Cholesky pieces on the Gram matrix
  if constexpr (requires (FM<m,m> L) { Helper::cholesky_L(L, L); }) {
    auto G = fm<m,m>(AAT); FM<m,m> L(ct(0));
    if (b.kappa*b.kappa*e < 1e-3L) {
      c.check(Helper::cholesky_L(G, L, true), "cholesky reports a regular matrix singular");
      Mat LL(m, Vec(m, 0)); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) for (int k = 0; k <= std::min(i,j); ++k) LL[i][j] += LD(L[i][k])*LD(L[j][k]);
      nearMat(c, LL, ld<m,m>(G), pt, "product of Cholesky factors");
      if constexpr (requires (FV<m> v) { Helper::spdInvAx(G, v, true); }) {
        FV<m> v; Vec v0(m); for (int i = 0; i < m; ++i) { v[i] = ct(x[i]); v0[i] = x[i]; }
        auto G2 = G; c.check(Helper::spdInvAx(G2, v, true), "spdInvAx reports a regular matrix singular");
        Mat GI = oracle::inverse(ld<m,m>(G)); Vec w(m, 0); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) w[i] += GI[i][j]*v0[j];
        LD kap = oracle::frob(GI)*oracle::frob(ld<m,m>(G));
        nearVec(c, toVec(v), w, 64*e*kap*oracle::frob(GI)*(oracle::norm(v0) + 1e-3L), "spdInvAx");
      }
      if constexpr (requires { Helper::spdDetA(G); }) detOrRoot(Helper::spdDetA(G), "spdDetA");
      LD dl = 1; for (int i = 0; i < m; ++i) dl *= LD(L[i][i]);
      if constexpr (requires { Helper::detL(L); }) c.near(Helper::detL(L), dl, 16*e*std::abs(dl), "detL");
      LD lk = std::sqrt(oracle::frob(AAT)*oracle::frob(oracle::inverse(AAT)));
      Mat Lm(m, Vec(m, 0)); for (int i = 0; i < m; ++i) for (int j = 0; j <= i; ++j) Lm[i][j] = L[i][j];
      Mat LI = oracle::inverse(Lm); LD li = 64*e*lk*oracle::frob(LI);
      if constexpr (requires (FM<m,m> q) { Helper::invL(q); }) {
        auto q = L; ct dd = Helper::invL(q); c.near(dd, dl, 16*e*std::abs(dl), "determinant returned by invL");
        for (int i = 0; i < m; ++i) for (int j = 0; j <= i; ++j) c.near(q[i][j], LI[i][j], li, "invL");
      }
      if constexpr (requires (FV<m> v) { Helper::invLx(L, v); Helper::invLTx(L, v); }) {
        FV<m> v, w; for (int i = 0; i < m; ++i) v[i] = w[i] = ct(x[i]);
        auto L1 = L; Helper::invLx(L1, v); auto L2 = L; Helper::invLTx(L2, w);
        for (int i = 0; i < m; ++i) { LD a = 0, bb = 0; for (int j = 0; j < m; ++j) { a += LI[i][j]*x[j]; bb += LI[j][i]*x[j]; } c.near(v[i], a, li*(1+oracle::norm(x)), "invLx"); c.near(w[i], bb, li*(1+oracle::norm(x)), "invLTx"); }
      }
      if constexpr (requires (FM<m,m> q) { Helper::spdInvA(q); }) {
        auto G2 = G; detOrRoot(Helper::spdInvA(G2), "determinant returned by spdInvA"); Mat GI = oracle::inverse(ld<m,m>(G));
        nearMat(c, ld<m,m>(G2), GI, 64*e*oracle::frob(GI)*oracle::frob(GI)*oracle::frob(ld<m,m>(G)), "spdInvA");
      }
      if constexpr (requires (FM<m,m> q) { Helper::LTL(L, q); Helper::LLT(L, q); }) {
        FM<m,m> q(ct(3)); Helper::LLT(L, q); nearMat(c, ld<m,m>(q), LL, pt, "LLT");
        Mat lt(m, Vec(m, 0)); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) for (int k = std::max(i,j); k < m; ++k) lt[i][j] += LD(L[k][i])*LD(L[k][j]);
        Helper::LTL(L, q); nearMat(c, ld<m,m>(q), lt, pt, "LTL");
      }
      if constexpr (requires (FV<m> v) { Helper::Lx(L, v, v); Helper::LTx(L, v, v); }) {
        FV<m> v, o1(ct(1)), o2(ct(1)); for (int i = 0; i < m; ++i) v[i] = ct(x[i]);
        Helper::Lx(L, v, o1); Helper::LTx(L, v, o2);
        for (int i = 0; i < m; ++i) { LD a = 0, bb = 0; for (int j = 0; j <= i; ++j) a += LD(L[i][j])*LD(v[j]); for (int j = i; j < m; ++j) bb += LD(L[j][i])*LD(v[j]);
          LD tt = 16*e*oracle::frob(A)*(1+oracle::norm(x)); c.near(o1[i], a, tt, "Lx"); c.near(o2[i], bb, tt, "LTx"); }
      }
    }
  }
  // the same matrix with a zero column appended
  if constexpr (n < MAXN) {
    FM<m,n+1> W(ct(0)); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) W[i][j] = M[i][j];
    c.near(Helper::sqrtDetAAT(W), Helper::sqrtDetAAT(M), 2*b.ie, "Gram determinant with a zero column appended");
    FM<n+1,m> rw(ct(3)); Helper::rightInvA(W, rw);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c.near(rw[i][j], r[i][j], 2*b.inv, "right inverse with a zero column appended");
    for (int j = 0; j < m; ++j) c.near(rw[n][j], 0, 2*b.inv, "right inverse, row of the zero column");
  }
  c.cls(std::to_string(m) + "x" + std::to_string(n));
  c.nontrivial = m >= 2;
}
}

CT_PART(G10, helper, "matrix with at least two rows")
{
  static const auto all = [] { std::vector<std::pair<int,int>> r; for (int m = 1; m <= MAXN; ++m) for (int n = m; n <= MAXN; ++n) r.push_back({m,n}); return r; }();
  auto [km, kn] = all[s.stratum(all.size())];
  int a = km, b = kn;
  withDim<1,MAXN>(a, [&](auto mc) { withDim<decltype(mc)::value,MAXN>(b, [&](auto nc) { pair<H, decltype(mc)::value, decltype(nc)::value>(s, c); }); });
}

// singular matrices are reported, not used
CT_PART(G10, singular, "exactly singular matrix")
{
  withDim<2,3>(2 + int(s.stratum(2)), [&](auto mc) {
    constexpr int m = decltype(mc)::value;
    withDim<m,m+1>(m + int(s.choice(2)), [&](auto nc) {
      constexpr int n = decltype(nc)::value;
      FM<m,n> A(ct(0));
      int zero = s.choice(m);                      // a zero row: exactly singular in floating point
      for (int i = 0; i < m; ++i) if (i != zero) for (int j = 0; j < n; ++j) A[i][j] = ct(s.sreal(2));
      FV<n> x; for (int j = 0; j < n; ++j) x[j] = ct(s.sreal(2));
      c.desc << m << "x" << n << " zero row " << zero << " " << str(ld<m,n>(A));
      FV<m> y; c.check(!H::xTRightInvA(A, x, y), "xTRightInvA reports a singular matrix regular");
      if constexpr (m == n) c.near(H::sqrtDetAAT(A), 0, 0, "determinant of a singular matrix");
      c.nontrivial = true;
    });
  });
}
