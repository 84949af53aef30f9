// Reference mechanics in extended precision: fourth-order tensors as plain index arrays, matrix logarithm and its derivatives.
#pragma once
#include "pbt.hpp"
#include <Eigen/Dense>
#include <cmath>
namespace me {
using L = long double; using M3 = Eigen::Matrix<L,3,3>; using XM = Eigen::Matrix<L,Eigen::Dynamic,Eigen::Dynamic>; using pbt::Ctx; using pbt::cat;
template<int D> struct T4 { L a[D][D][D][D] = {}; L& operator()(int i, int j, int k, int l) { return a[i][j][k][l]; } L operator()(int i, int j, int k, int l) const { return a[i][j][k][l]; } };
#define FOR4(D) for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++)
template<typename T, int D, typename TT> T4<D> get(const TT& t) { T4<D> r; FOR4(D) r(i,j,k,l) = t(i*D + k, j*D + l); return r; }      // layout documented in maths_tensor.hpp
template<int D> double diff(const T4<D>& x, const T4<D>& y) { L s = 0; FOR4(D) { L d = std::abs(x(i,j,k,l) - y(i,j,k,l)); if (!(d <= s)) s = d; } return double(s); }
template<int D> double big(const T4<D>& x) { L s = 0; FOR4(D) s = std::max(s, std::abs(x(i,j,k,l))); return double(s); }
template<int D> Eigen::Matrix<L,D,D> rmat(Ctx& c) { Eigen::Matrix<L,D,D> m; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) m(i, j) = c.sym(); return m; }
inline M3 rot(Ctx& c) { Eigen::Quaternion<L> q; if (c.chance(80)) q = Eigen::Quaternion<L>(1, 2*c.sym(), 2*c.sym(), 2*c.sym()); else q = Eigen::Quaternion<L>(1, 0, 0, 2*c.sym()); q.normalize(); return q.toRotationMatrix(); }
inline M3 rot2(Ctx& c) { L t = 3*c.sym(); M3 m = M3::Identity(); m(0,0) = m(1,1) = std::cos(t); m(0,1) = -std::sin(t); m(1,0) = -m(0,1); return m; }
// principal stretches: distinct, equal (exactly or to within delta) in pairs or all three
inline std::array<L,3> stretches(Ctx& c, std::string& kind, double amp = 1.0) {
    std::array<L,3> s; for (auto& x : s) x = std::exp(L(amp*c.sym())*0.7L); L del = 0; int near = c.range(0, 3); if (near == 1) del = std::pow(10.0L, -c.range(13, 17)); else if (near == 2) del = std::pow(10.0L, -c.range(1, 12)); int pat = c.range(0, 4);
    if (pat == 1) s[1] = s[0]*(1 + del); else if (pat == 2) s[2] = s[1]*(1 + del); else if (pat == 3) { s[1] = s[0]*(1 + del); s[2] = s[0]*(1 - del*c.unit()); } else if (pat == 4) { s[0] = 1; s[1] = 1 + del*c.sym(); s[2] = 1 + 2*del*c.sym(); }
    if (c.chance(50)) { std::swap(s[0], s[2]); if (c.chance(50)) std::swap(s[0], s[1]); }
    kind = pat == 0 ? "distinct" : cat(pat == 1 || pat == 2 ? "two" : "three", near == 2 ? "-near" : near == 1 ? "-roundoff" : "-equal"); return s; }
// C^(1/2) by the product form of the Denman-Beavers iteration
inline XM msqrt(const XM& A) { XM I = XM::Identity(A.rows(), A.cols()), M = A, X = A; for (int it = 0; it < 60; it++) { XM Mi = M.inverse(); L e = (M - I).norm(); X = XM(0.5L*X*(I + Mi)); M = XM(0.5L*(I + 0.5L*(M + Mi))); if (!(e > 1e-17L)) break; } return X; }
// logarithm by inverse scaling and squaring and the series of the inverse hyperbolic tangent
inline XM mlog(XM A) { XM I = XM::Identity(A.rows(), A.cols()); int s = 0; int n = A.rows(); L nd = 1; while (s < 40) { nd = 0; for (int b = 0; b < n; b += 3) nd = std::max(nd, (A.block(b, b, 3, 3) - M3::Identity()).norm()); if (nd < 0.3L) break; A = msqrt(A); s++; } XM Z = (A - I)*(A + I).inverse(), Z2 = Z*Z, P = Z, R = Z; for (int k = 3; k < 61; k += 2) { P = XM(P*Z2); R += P/L(k); } return 2*R*std::pow(2.0L, s); }
// log C, its derivative along H, its second derivative along H1, H2
inline M3 log0(const M3& C) { return mlog(C); }
inline M3 log1(const M3& C, const M3& H) { XM B = XM::Zero(6, 6); B.block(0,0,3,3) = C; B.block(3,3,3,3) = C; B.block(0,3,3,3) = H; return mlog(B).block(0,3,3,3); }
inline M3 log2(const M3& C, const M3& H1, const M3& H2) { XM B = XM::Zero(12, 12); for (int b = 0; b < 12; b += 3) B.block(b,b,3,3) = C; B.block(0,3,3,3) = H1; B.block(6,9,3,3) = H1; B.block(0,6,3,3) = H2; B.block(3,9,3,3) = H2; return mlog(B).block(0,9,3,3); }
}
