#include "lalib/mat.hpp"
using namespace lalib;
template<typename T> T w_mat(T s) {
  T d = s;
  auto a = SizedMat<T,2,3>::filled(s); auto b = SizedMat<T,3,2>::uninit(); auto c = SizedMat<T,2,2>::diag(s);
  auto id = SizedMat<T,2,2>::identity(); auto dg = SizedMat<T,2,2>::diag(std::array<T,2>{s, s});
  SizedMat<T,2,2> a1(std::array<T,4>{s,s,s,s}); SizedMat<T,2,2> a2(std::vector<T>{s,s,s,s}); SizedMat<T,2,2> a3{s,s,s,s};
  auto A = DynMat<T>::filled(s, 2, 3); auto B = DynMat<T>::uninit(3, 2); auto Cm = DynMat<T>::diag(s, 2);
  auto ID = DynMat<T>::identity(2); auto DG = DynMat<T>::diag(std::vector<T>{s, s});
  DynMat<T> A1(2, 2, std::vector<T>{s,s,s,s}); DynMat<T> A3(2, 2, {s,s,s,s}); A1 = A3;
  auto v = SizedVec<T,3>::filled(s); auto w = SizedVec<T,2>::filled(s); auto V = DynVec<T>::filled(3, s); auto W = DynVec<T>::filled(2, s);
  mul(s, a, v, s, w); mul(s, a, V, s, w); mul(s, A, v, s, W); mul(s, A, V, s, W);
  w = a * v; w = a * V; W = A * v; W = A * V;
  mul(s, a, b, s, c); mul(s, A, b, s, c); mul(s, a, B, s, c); mul(s, A, B, s, c);
  mul(s, a, b, s, Cm); mul(s, A, b, s, Cm); mul(s, a, B, s, Cm); mul(s, A, B, s, Cm);
  c = a * b; Cm = A * B;
  auto a_ = a; auto A_ = A;
  add(a, a, a_); add(a, A, a_); add(A, a, a_); add(A, A, A_); a_ = a + a; A_ = A + A;
  sub(a, a, a_); sub(a, A, a_); sub(A, a, a_); sub(A, A, A_); a_ = a - a; A_ = A - A;
  scale(s, a_); scale(s, A_); a_ = s * a; A_ = s * A;
  invert(c, a1); invert(c); a2 = inverted(c);
  const auto& ca = a; const auto& cA = A;
  d += a(0,1) + ca(0,1) + a.at(0,1) + a.mut_at(0,1) + *a.data() + *ca.data() + *a.begin() + *ca.begin() + *ca.cbegin();
  d += A(0,1) + cA(0,1) + A.at(0,1) + A.mut_at(0,1) + *A.data() + *cA.data() + *A.begin() + *cA.begin() + *cA.cbegin();
  d += T(a.shape().first + A.shape().first);
  // structured
  auto td = SizedTriDiagMat<T,3>({s,s},{s,s,s},{s,s}); const auto& ctd = td;
  d += td(0,1) + ctd(0,2) + td.at(1,0) + td.mut_at(0,1) + *td.data_d() + *td.data_dl() + *td.data_du() + *ctd.data_d() + *ctd.data_dl() + *ctd.data_du();
  auto TD = DynTriDiagMat<T>(std::vector<T>{s,s},std::vector<T>{s,s,s},std::vector<T>{s,s}); const auto& cTD = TD;
  d += TD(0,1) + cTD(0,2) + TD.at(1,0) + TD.mut_at(0,1) + *TD.data_d() + *TD.data_dl() + *TD.data_du() + *cTD.data_d() + *cTD.data_dl() + *cTD.data_du();
  auto lo = SizedLowerTriMat<T,2>({s,s,s}); auto he = SizedHermiteMat<T,2>({s,s,s});
  const auto& clo = lo; const auto& che = he;
  d += lo(1,0) + clo(0,1) + lo.at(0,0) + lo.mut_at(0,0) + he(0,1) + che(0,1) + he.at(1,0) + he.mut_at(1,0) + *lo.lower_data() + *clo.lower_data() + *he.lower_data() + *che.lower_data();
  auto lo2 = he.into_lower_mat();
  auto LO = DynLowerTriMat<T>(2, {s,s,s}); auto HE = DynHermiteMat<T>(2, {s,s,s});
  const auto& cLO = LO; const auto& cHE = HE;
  d += LO(1,0) + cLO(0,1) + LO.at(0,0) + LO.mut_at(0,0) + HE(0,1) + cHE(0,1) + HE.at(1,0) + HE.mut_at(1,0) + *LO.lower_data() + *cLO.lower_data() + *HE.lower_data() + *cHE.lower_data();
  auto LO2 = HE.into_lower_mat();
  HessenbergMat<T> H(std::vector<T>{s,s,s,s}); const auto& cH = H; auto H2 = HessenbergMat<T>::with_capacity(4);
  H2.extend_with_zero(); H2.extend_with({s,s,s});
  d += H(0,0) + cH(0,0) + H.at(0,0) + H.mut_at(0,0) + H.get_col(0)[0] + *H.data() + T(H.shape().first);
  DynUpperTriMat<T> U(std::vector<T>{s,s,s}); const auto& cU = U; auto U2 = DynUpperTriMat<T>::with_capacity(4); DynUpperTriMat<T> U3;
  U2.extend_with_zero(); U2.extend_with({s,s}); U.back_sub(W);
  d += U(0,0) + cU(0,0) + U.at(0,0) + U.mut_at(0,0) + *U.data() + T(U.shape().first);
  // sparse
  SpCooMat<T> co(std::vector<T>{s}, std::vector<size_t>{0}, std::vector<size_t>{0}); SpCooMat<T> co0; auto co1 = SpCooMat<T>::unit(2);
  const std::vector<T> cv{s}; const std::vector<size_t> ci{0}, cp{0,1};
  SpCooMat<T> co2(cv, ci, ci); SpCooMat<T> co3(co2); SpCooMat<T> co4(std::move(co2)); co0 = co3; co0 = std::move(co3);
  co0 += co1; co0.reserve(3); scale(s, co0); co0 = s * co1; co0 = co1 + co4; co0 = co1 - co4;
  d += co0(0,0) + co0.at(0,0) + co0.mut_at(0,0) + *co0.data() + co0.values()[0] + T(co0.row_indices()[0] + co0.col_indices()[0] + co0.nnz() + co0.shape().first);
  SpMat<T> sp(co1); SpMat<T> sp0; SpMat<T> sp1(std::move(co4)); SpMat<T> sp2(cv, cp, ci); SpMat<T> sp3(std::vector<T>{s}, std::vector<size_t>{0,1}, std::vector<size_t>{0});
  auto sp4 = SpMat<T>::unit(3); SpMat<T> sp5(sp4); SpMat<T> sp6(std::move(sp5)); sp0 = sp6; sp0 = std::move(sp6);
  sp0.reserve(2, 2); scale(s, sp0); sp0 = s * sp4; 
  d += sp0(0,0) + sp0.at(0,0) + sp0.mut_at(0,0) + *sp0.data() + sp0.values()[0] + T(sp0.row_ptr()[0] + sp0.col_indices()[0] + sp0.nnz() + sp0.shape().first);
  auto Wn = DynVec<T>::filled(2, s); mul(s, sp, Wn, s, W); W = sp * Wn;
  a_ = -a; A_ = -A; co0 = -co1; sp0 = -sp4;
  return d;
}
template W_T w_mat<W_T>(W_T);
