#include "lalib/vec.hpp"
using namespace lalib;
template<typename T> T w_vec(SizedVec<T,3>& a, SizedVec<T,3>& b, SizedVec<T,3>& r, DynVec<T>& x, DynVec<T>& y, DynVec<T>& z, T s) {
  neg(a, r); neg(x, y); r = -a; z = -x;
  add(a, b, r); add(a, x, r); add(x, a, r); add(x, y, z); r = a + b; z = x + y;
  sub(a, b, r); sub(a, x, r); sub(x, a, r); sub(x, y, z); r = a - b; z = x - y;
  axpy(s, a, r); axpy(s, x, y);
  scale(s, r); scale(s, z); r = scaled(s, a); z = scaled(s, x);
  r = s * a; r = a * s; r = a / s; z = s * x; z = x * s; z = x / s;
  T d = dot(a, b) + dot(x, y) + a.dot(b) + a.dot(x) + x.dot(y) + x.dot(a);
  d += a.norm2() + x.norm2();
  auto p = SizedVec<T,2>::filled(s); auto q = SizedVec<T,2>::uninit();
  d += cross(p, q) + cross(p, x) + cross(x, p);
  r = cross(a, b); cross(a, b, r); cross(a, b, z);
  r = cross(a, x); cross(a, x, r); cross(a, x, z);
  r = cross(x, a); cross(x, a, r); cross(x, a, z);
  cross(x, y, r); cross(x, y, z);
  cross_acc(a, b, r); cross_acc(a, b, z); cross_acc(a, x, r); cross_acc(a, x, z);
  cross_acc(x, a, r); cross_acc(x, a, z); cross_acc(x, y, r); cross_acc(x, y, z);
  const auto& ca = a; const auto& cx = x;
  for (auto& e : a) d += e; 
  for (auto& e : x) d += e; 
  for (auto& e : ca) d += e; 
  for (auto& e : cx) d += e;
  d += ca[0] + cx[0] + a[0] + x[0] + *ca.data() + *cx.data() + *ca.cbegin() + *cx.cbegin();
  auto w = DynVec<T>::filled(3, s); auto w2 = DynVec<T>::uninit(3); w = w2; w2 = std::move(w);
  DynVec<T> w3(std::vector<T>{s}); DynVec<T> w4; DynVec<T> w5 { s, s }; DynVec<T> w6(std::move(w5));
  SizedVec<T,3> w7(std::array<T,3>{s,s,s}); SizedVec<T,3> w8(std::vector<T>{s,s,s}); SizedVec<T,3> w9{s,s,s};
  return d;
}
using W = W_T;
template W w_vec<W>(SizedVec<W,3>&, SizedVec<W,3>&, SizedVec<W,3>&, DynVec<W>&, DynVec<W>&, DynVec<W>&, W);
