// independent re-computation of the steepest descent direction from the host's own data
#pragma once
#include "host.hpp"
namespace host {
// solves A X = B (dense, complex, small) in place
inline Mat lsolve(Mat A, Mat B) {
  int n = A.m;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int i = c; i < n; ++i) if (std::abs(A(i, c)) > std::abs(A(p, c))) p = i;
    for (int j = 0; j < n; ++j) std::swap(A(c, j), A(p, j));
    for (int j = 0; j < B.n; ++j) std::swap(B(c, j), B(p, j));
    for (int i = 0; i < n; ++i) if (i != c) {
      cd f = A(i, c) / A(c, c);
      for (int j = 0; j < n; ++j) A(i, j) -= f * A(c, j);
      for (int j = 0; j < B.n; ++j) B(i, j) -= f * B(c, j);
    }
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < B.n; ++j) B(i, j) /= A(i, i);
  return B;
}
inline Mat dense(const Mat& A) { Mat B(A.m, A.n); for (int j = 0; j < A.n; ++j) for (int i = 0; i < A.m; ++i) B(i, j) = A(i, j); return B; }
inline Mat sd_direction(const KP& p) {
  Mat C = dense(p.C), H = dense(p.HC), SC = mul(p.S, C);
  Mat PS = mul(p.P, SC), PH = mul(p.P, H);
  Mat L = lsolve(mul(herm(SC), PS), mul(herm(SC), PH));
  Mat R = mul(SC, L);
  for (size_t i = 0; i < R.a.size(); ++i) R.a[i] -= H.a[i];
  return mul(p.P, R);
}
// distance of span(C + t*delta) from the span of the trial orbitals
inline double sd_residual(Energy& E, const std::vector<Mat>& trial, double t) {
  double r = 0;
  for (size_t k = 0; k < E.kp.size(); ++k) {
    auto& p = E.kp[k];
    Mat Y = dense(p.C), D = sd_direction(p), X = dense(trial[k]);
    for (size_t i = 0; i < Y.a.size(); ++i) Y.a[i] += t * D.a[i];
    Mat G = lsolve(mul(herm(X), mul(p.S, X)), mul(herm(X), mul(p.S, Y)));
    Mat Z = mul(X, G);
    for (size_t i = 0; i < Y.a.size(); ++i) r = std::max(r, std::abs(Y.a[i] - Z.a[i]));
  }
  return r;
}
}  // namespace host
