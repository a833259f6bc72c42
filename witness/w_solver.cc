#include "lalib/ops/orthogonal.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
using namespace lalib;
using namespace lalib::solver;
template<typename T> T w_solver(T s) {
  T d = s;
  auto td = SizedTriDiagMat<T,3>({s,s},{s,s,s},{s,s});
  auto TD = DynTriDiagMat<T>({s,s},{s,s,s},{s,s});
  auto v = SizedVec<T,3>::filled(s); auto r = v; auto V = DynVec<T>::filled(3, s); auto R = V;
  auto m = SizedMat<T,3,2>::filled(s); auto mr = m; auto M = DynMat<T>::filled(s, 3, 2); auto MR = M;
  TriDiag st(td); TriDiag sT(TD); TriDiag sm(std::move(td)); TriDiag sM(std::move(TD));
  st.solve_linear(v, r); st.solve_linear(V, R); st.solve_linear(m, mr); st.solve_linear(M, MR);
  sT.solve_linear(v, r); sT.solve_linear(V, R); sT.solve_linear(m, mr); sT.solve_linear(M, MR);
  const DynTriCholeskyFactorization<T> c1(DynHermiteMat<T>(3, std::vector<T>(6, s)));
  const DynCholeskyFactorization<T> c2(DynMat<T>::identity(3));
  const DynModCholeskyFactorization<T> c3(DynMat<T>::identity(3));
  c1.solve_linear_mut(v); r = c1.solve_linear(v); c1.solve_linear_mut(V); R = c1.solve_linear(V); c1.solve_linear_mut(M); MR = c1.solve_linear(M); c1.solve_linear_mut(m); mr = c1.solve_linear(m);
  c2.solve_linear_mut(v); r = c2.solve_linear(v); c2.solve_linear_mut(V); R = c2.solve_linear(V); c2.solve_linear_mut(M); MR = c2.solve_linear(M); c2.solve_linear_mut(m); mr = c2.solve_linear(m);
  c3.solve_linear_mut(v); r = c3.solve_linear(v); c3.solve_linear_mut(V); R = c3.solve_linear(V); c3.solve_linear_mut(M); MR = c3.solve_linear(M); c3.solve_linear_mut(m); mr = c3.solve_linear(m);
  d += c1.lower_mat()(0,0) + c2.factor_mat()(0,0) + c3.factor_mat()(0,0);
  Ilu<T, DynMat<T>> i1(DynMat<T>::identity(3)); Ilu<T, SpMat<T>> i2(SpMat<T>::unit(3)); Ilu<T, SpCooMat<T>> i3(SpCooMat<T>::unit(3));
  R = i1.solve(V); R = i2.solve(V); R = i3.solve(V); d += i1.mat()(0,0) + i2.mat()(0,0) + i3.mat()(0,0);
  Gmres<T, DynMat<T>> g1(DynMat<T>::identity(3), s); Gmres<T, SpMat<T>> g2(SpMat<T>::unit(3), s);
  R = g1.solve(V); R = g2.solve(V);
  std::vector<DynVec<T>> q{V, R}; orth::cgs(q);
  std::vector<SizedVec<T,3>> q2{v, r}; orth::cgs(q2);
  return d;
}
template W_T w_solver<W_T>(W_T);
