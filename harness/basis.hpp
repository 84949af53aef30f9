// Exact differentiation of polynomial functions along lines, reference polynomial bases, points of elements.
#pragma once
#include "poly.hpp"
#include <Eigen/Dense>
namespace bs {
using ref::P; using pbt::Ctx; using Mat = Eigen::MatrixXd; using Vec = Eigen::VectorXd;
inline std::string cat_key(const std::string& a, const char* b) { return a + b; }
inline size_t dimP(int k, int d) { return k < 0 ? 0 : d == 1 ? k+1 : d == 2 ? (k+1)*(k+2)/2 : (k+1)*(k+2)*(k+3)/6; }
// weights w1[j] (w2[j]) such that p'(0) = sum w1 p(t_j) (p''(0) = ...) for every polynomial of degree <= n
struct Stencil { std::vector<double> t, w1, w2; };
inline const Stencil& stencil(int n) {
    static std::map<int, Stencil> cache; auto& s = cache[n]; if (!s.t.empty()) return s;
    int m = n + 1 + (n % 2); if (m < 3) m = 3; using L = long double; std::vector<L> t; for (int j = 0; j < m; j++) t.push_back(cosl(M_PIl*(2*j+1)/(2.0L*m)));
    // Lagrange basis coefficients
    for (int j = 0; j < m; j++) { std::vector<L> c{1}; L den = 1; for (int i = 0; i < m; i++) if (i != j) { std::vector<L> e(c.size()+1, 0); for (size_t q = 0; q < c.size(); q++) { e[q+1] += c[q]; e[q] -= t[i]*c[q]; } c = e; den *= t[j]-t[i]; }
        s.t.push_back(t[j]); s.w1.push_back(c[1]/den); s.w2.push_back(2*c[2]/den); }
    return s;
}
// derivative along d of the vector-valued polynomial f (degree <= n) at x; the nodes span x +- h d
template<typename F> auto along(F f, P x, P d, double h, int n, bool second = false) {
    auto& s = stencil(n); Mat r; for (size_t j = 0; j < s.t.size(); j++) { Mat v = f(x + (h*s.t[j])*d); double w = second ? s.w2[j]/(h*h) : s.w1[j]/h; if (j == 0) r = w*v; else r += w*v; } return r;
}
inline P axis(int i) { P p{0,0,0}; p[i] = 1; return p; }
// well-conditioned reference basis of P_k in the box [lo,hi] of the space of dimension d (tensor Legendre, total degree)
inline Vec legendre(P x, P lo, P hi, int k, int d) {
    std::vector<std::vector<double>> L(d); for (int i = 0; i < d; i++) { double w = hi[i]-lo[i], t = w > 0 ? (2*x[i]-lo[i]-hi[i])/w : 0; L[i] = {1, t}; for (int n = 1; n < k; n++) L[i].push_back(((2*n+1)*t*L[i][n] - n*L[i][n-1])/(n+1)); }
    Vec r(dimP(k, d)); size_t p = 0;
    for (int q = 0; q <= k; q++) { if (d == 1) r(p++) = L[0][q]; else if (d == 2) for (int i = 0; i <= q; i++) r(p++) = L[0][q-i]*L[1][i]; else for (int i = 0; i <= q; i++) for (int j = 0; j <= q-i; j++) r(p++) = L[0][i]*L[1][j]*L[2][q-i-j]; }
    return r;
}
struct Box { P lo, hi; }; inline Box box(const std::vector<P>& v) { Box b{v[0], v[0]}; for (auto& p : v) for (int k = 0; k < 3; k++) { b.lo[k] = std::min(b.lo[k], p[k]); b.hi[k] = std::max(b.hi[k], p[k]); } return b; }
// orthonormal frame of the plane (line) of an element of dimension de
struct Frame { P o, e[3]; int n; P local(P x) const { P r{0,0,0}; for (int i = 0; i < n; i++) r[i] = ref::dot(e[i], x-o); return r; } P global(P x) const { P r = o; for (int i = 0; i < n; i++) r = r + x[i]*e[i]; return r; } };
inline Frame frame(const std::vector<P>& v, int de, int D) {
    Frame f; f.n = de; f.o = ref::mean(v); if (de == D) { for (int i = 0; i < de; i++) f.e[i] = axis(i); return f; }
    if (de == 1) { P t = v[1]-v[0]; f.e[0] = (1/ref::norm(t))*t; return f; }
    P n = ref::normal(v); size_t j = 1; P t{0,0,0}; for (size_t a = 1; a < v.size(); a++) if (ref::norm(v[a]-v[0]) > ref::norm(t)) t = v[a]-v[0]; (void)j; f.e[0] = (1/ref::norm(t))*t; f.e[1] = ref::cross(n, f.e[0]); return f;
}
// random points of the bounding box of the element, in its own frame
inline P point_near(Ctx& c, const Frame& f, const Box& lb) { P x{0,0,0}; for (int i = 0; i < f.n; i++) x[i] = lb.lo[i] + (lb.hi[i]-lb.lo[i])*c.unit(); return f.global(x); }
// checks that the functions f (vector of `size` polynomials) on the element of vertices v are a basis of P_k
template<typename F> void spans(Ctx& c, F f, const std::vector<P>& v, int k, int de, int D, double tol, const std::string& key, const std::string& w) {
    auto fr = frame(v, de, D); std::vector<P> l; for (auto& p : v) l.push_back(fr.local(p)); auto lb = box(l); size_t n = dimP(k, de), N = 2*n + 6; Mat V(N, n), R(N, n);
    // deterministic well-spread points (the span does not depend on them)
    uint64_t s = 12345; auto u = [&] { s = s*6364136223846793005ULL + 1442695040888963407ULL; return double(s >> 11)/9007199254740992.0; };
    for (size_t i = 0; i < N; i++) { P x{0,0,0}; for (int d = 0; d < de; d++) x[d] = lb.lo[d] + (lb.hi[d]-lb.lo[d])*0.5*(1-std::cos(M_PI*u())); Vec y = f(fr.global(x)); c.check((size_t)y.size() == n, cat_key(key, "-size"), pbt::cat(w, ": ", y.size(), " functions, dimension ", n)); V.row(i) = y.transpose(); R.row(i) = legendre(x, lb.lo, lb.hi, k, de).transpose(); }
    for (size_t j = 0; j < n; j++) V.col(j) /= std::max(V.col(j).norm(), 1e-300);
    Eigen::ColPivHouseholderQR<Mat> qr(R); double r1 = (V - R*qr.solve(V)).norm(); c.close(r1, 0, tol, 1, cat_key(key, "-not-polynomials"), w);
    Eigen::JacobiSVD<Mat> sv(V); double r2 = sv.singularValues()(n-1)/sv.singularValues()(0); c.check(r2 > 1e-11, cat_key(key, "-dependent"), pbt::cat(w, ": smallest singular value ", r2));
}
} // namespace bs
