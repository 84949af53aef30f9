// Cells with exact integration, hybrid degrees of freedom, and the defining identities of the HHO local operators.
#pragma once
#include "basis.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/methods/hho"
namespace hh {
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop; using bs::Mat; using bs::Vec;
struct QP { P x; double w; }; using Q = std::vector<QP>;
inline Q q_segment(P a, P b, int deg) { Q r; double L = ref::norm(b-a); for (auto& [t, w] : ref::gauss(deg/2+1)) r.push_back({a + t*(b-a), w*L}); return r; }
inline void q_triangle(Q& r, P a, P b, P c, double jac, int deg) { auto& g = ref::gauss((deg+1)/2 + 1); for (auto& [u, wu] : g) for (auto& [v, wv] : g) r.push_back({a + u*(b-a) + (v*(1-u))*(c-a), jac*wu*wv*(1-u)}); }
inline Q q_polygon(const std::vector<P>& v, int deg) { Q r; P n = ref::normal(v); for (size_t i = 1; i + 1 < v.size(); i++) { double jac = ref::dot(n, ref::cross(v[i]-v[0], v[i+1]-v[0])); if (jac != 0) q_triangle(r, v[0], v[i], v[i+1], jac, deg); } return r; }
inline void q_tet(Q& r, P a, P b, P c, P d, double jac, int deg) { auto& g = ref::gauss((deg+2)/2 + 1); for (auto& [u, wu] : g) for (auto& [v, wv] : g) for (auto& [z, wz] : g) r.push_back({a + u*(b-a) + (v*(1-u))*(c-a) + (z*(1-u)*(1-v))*(d-a), jac*wu*wv*wz*(1-u)*(1-u)*(1-v)}); }
inline Q q_cell(const ref::Mesh& m, size_t c, int deg) {
    if (m.dim == 2) return q_polygon(ref::loop_pts(m, m.poly[c]), deg);
    Q r; P o = ref::mean(ref::loop_pts(m, ref::cell_verts(m, c)));
    for (auto fi : m.cellfaces[c]) { auto v = ref::loop_pts(m, m.faces[fi]); P n = ref::normal(v); for (size_t i = 1; i + 1 < v.size(); i++) { P t = ref::cross(v[i]-v[0], v[i+1]-v[0]); double jac = (ref::dot(t, n) >= 0 ? 1 : -1)*ref::norm(t)*std::fabs(ref::dot(n, v[0]-o)); if (jac != 0) q_tet(r, o, v[0], v[i], v[i+1], jac, deg); } }
    return r;
}
template<typename F> double sum(const Q& q, F f) { double s = 0; for (auto& x : q) s += x.w*f(x.x); return s; }
template<typename M> auto D(const P& p) { return dm::toD<M>(p); }
inline Vec rnd(Ctx& c, size_t n) { Vec v(n); for (size_t i = 0; i < n; i++) v(i) = c.sym(); if (v.size() && v.norm() < 0.1) v(c.draw(n)) = 1; return v; }
inline double cond(const Mat& G) { Vec s = G.diagonal().cwiseSqrt().cwiseInverse(); Eigen::SelfAdjointEigenSolver<Mat> es(s.asDiagonal()*G*s.asDiagonal()); return es.eigenvalues()(G.rows()-1)/std::max(es.eigenvalues()(0), 1e-300); }
// random polynomial (sum of products of powers of linear forms), O(1) on the element
struct Sum { std::vector<pl::Poly> p; std::vector<double> a; double operator()(P x) const { double s = 0; for (size_t i = 0; i < p.size(); i++) s += a[i]*p[i](x); return s; }
    P grad(P x) const { P g{0,0,0}; for (size_t i = 0; i < p.size(); i++) { auto& q = p[i]; P d = x - q.o; double A = ref::dot(q.a, d), B = ref::dot(q.b, d); if (q.i) g = g + (a[i]*q.i*ref::ipow(A, q.i-1)*ref::ipow(B, q.j))*q.a; if (q.j) g = g + (a[i]*q.j*ref::ipow(A, q.i)*ref::ipow(B, q.j-1))*q.b; } return g; } };
inline Sum poly(Ctx& c, int k, const std::vector<P>& v, int D) { Sum s; size_t n = c.size(1, 3); for (size_t i = 0; i < n; i++) { s.p.push_back(pl::gen_poly(c, i == 0 ? k : (int)c.range(0, k), v, D)); s.a.push_back(c.sym() + (i == 0 ? 1.5 : 0)); } return s; }

template<typename M> struct Cell {
    static constexpr int d = M::dimension; using cell_type = typename M::cell_type; using face_type = typename M::face_type; using pt = typename M::point_type; using Kt = Eigen::Matrix<double, d, d>;
    const ref::Mesh& m; const M& msh; size_t i, r; cell_type cl; std::vector<face_type> fcs; std::vector<std::vector<P>> fv; std::vector<P> n; std::vector<double> hf; std::vector<P> v; double h, A, q = 1e-13;
    Cell(const ref::Mesh& rm, const M& mm, const std::vector<size_t>& cm, size_t k) : m(rm), msh(mm), i(k), r(cm[k]), cl(*(mm.cells_begin() + k)) {
        v = ref::loop_pts(m, ref::cell_verts(m, r)); h = ref::diameter(v); A = ref::measure(m, r); P o = ref::mean(v); double sg = 1; if (d == 2) { double s = 0; for (size_t a = 1; a + 1 < v.size(); a++) { P t = ref::cross(v[a]-v[0], v[a+1]-v[0]); s += t[2]; } sg = s > 0 ? 1 : -1; }
        auto fs = faces(msh, cl); for (auto& fc : fs) { fcs.push_back(fc); Loop ids; for (auto& x : fc.point_ids()) ids.push_back(size_t(x)); ids = ref::sorted(ids); std::vector<P> w;
            if (d == 2) { auto& lp = m.poly[r]; for (size_t a = 0; a < lp.size(); a++) { size_t b = (a+1)%lp.size(); if (ref::sorted(Loop{lp[a], lp[b]}) == ids) { w = {m.pts[lp[a]], m.pts[lp[b]]}; } } P t = w[1]-w[0]; n.push_back((sg/ref::norm(t))*P{t[1], -t[0], 0}); }
            else { for (auto f : m.cellfaces[r]) if (ref::sorted(m.faces[f]) == ids) w = ref::loop_pts(m, m.faces[f]); P t = ref::normal(w); n.push_back((ref::dot(t, w[0]-o) > 0 ? 1.0 : -1.0)*t); if (w.size() > 4) q = 1e-7; }
            fv.push_back(w); hf.push_back(ref::diameter(w)); }
    }
    Q cq(int deg) const { return q_cell(m, r, std::max(0, deg)); }
    Q fq(size_t f, int deg) const { deg = std::max(0, deg); return d == 2 ? q_segment(fv[f][0], fv[f][1], deg) : q_polygon(fv[f], deg); }
    double tol() const { return std::max(1e-9, 10*q); }
    Eigen::Matrix<double, d, 1> nv(size_t f) const { Eigen::Matrix<double, d, 1> x; for (int a = 0; a < d; a++) x(a) = n[f][a]; return x; }
    P at(Ctx& c) const { if (c.chance(10)) return v[c.draw(v.size())]; P s{0,0,0}; double t = 0; for (auto& p : v) { double a = c.unit(); a *= a; s = s + a*p; t += a; } return t > 0 ? (1/t)*s : v[0]; }
    Kt spd(Ctx& c, bool iso = false) const { if (iso || c.chance(25)) return (0.2 + 3*c.unit())*Kt::Identity(); Kt B; for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) B(a, b) = c.sym(); return B*B.transpose() + (0.1 + c.unit())*Kt::Identity(); }
    scalar_rhs_function<M> sfun(Sum s) const { return [s](const pt& p) { return s(dm::toP(p)); }; }
    vector_rhs_function<M> vfun(std::vector<Sum> s) const { return [s](const pt& p) { Eigen::Matrix<double, d, 1> r; for (int a = 0; a < d; a++) r(a) = s[a](dm::toP(p)); return r; }; }
    // values (comps x 1) and gradients (comps x d) of the field of given degree and coefficients, scalar or vector
    template<typename B> Vec val(const B& b, const Vec& x, P p) const { auto f = b.eval_functions(D<M>(p)); Mat F = f; return F.transpose()*x; }
    template<typename B> Mat grad(const B& b, const Vec& x, P p) const { auto g = b.eval_gradients(D<M>(p)); if constexpr (requires { g.rows(); }) return x.transpose()*g; else { Mat r = Mat::Zero(g[0].rows(), g[0].cols()); for (size_t i = 0; i < g.size(); i++) r += x(i)*g[i]; return r; } }
};
// hybrid unknowns of degrees (cd, fds), scalar (comps 1) or vector (comps d)
template<typename M, int comps> struct Hyb {
    const Cell<M>& C; int cd; std::vector<int> fd; std::vector<bool> has; size_t cbs, n; std::vector<size_t> ofs, fbs;
    Hyb(const Cell<M>& cc, int k, std::vector<int> f, std::vector<bool> hs = {}) : C(cc), cd(k), fd(f), has(hs) { if (has.empty()) has.assign(fd.size(), true); cbs = comps*bs::dimP(k, M::dimension); n = cbs; for (size_t i = 0; i < fd.size(); i++) { ofs.push_back(n); fbs.push_back(has[i] ? comps*bs::dimP(fd[i], M::dimension-1) : 0); n += fbs.back(); } }
    auto cb() const { if constexpr (comps == 1) return make_scalar_monomial_basis(C.msh, C.cl, size_t(cd)); else return make_vector_monomial_basis(C.msh, C.cl, size_t(cd)); }
    auto fb(size_t f) const { if constexpr (comps == 1) return make_scalar_monomial_basis(C.msh, C.fcs[f], size_t(fd[f])); else return make_vector_monomial_basis(C.msh, C.fcs[f], size_t(fd[f])); }
    Vec cell(const Vec& x) const { return x.head(cbs); } Vec face(const Vec& x, size_t f) const { return x.segment(ofs[f], fbs[f]); }
    // int grad(u_T):tau + sum_F int (u_F - u_T).(tau n); tau(P) is comps x d of degree tdeg; abs gets the sum of absolute values
    template<typename Tau> double gradrhs(const Vec& x, Tau tau, int tdeg, double* abs = nullptr) const {
        double s = 0, a = 0; auto b = cb(); Vec xT = cell(x); for (auto& q : C.cq(tdeg + cd)) { double t = q.w*(C.grad(b, xT, q.x).array()*tau(q.x).array()).sum(); s += t; a += std::fabs(t); }
        for (size_t f = 0; f < fd.size(); f++) if (has[f]) { auto bf = fb(f); Vec xF = face(x, f), nn = C.nv(f); for (auto& q : C.fq(f, tdeg + std::max(cd, fd[f]))) { Vec tn = Mat(tau(q.x))*nn, uF = C.val(bf, xF, q.x), uT = C.val(b, xT, q.x); double t = q.w*(uF - uT).dot(tn); s += t; a += std::fabs(q.w)*(uF.norm() + uT.norm())*tn.norm(); } }
        if (abs) *abs = a; return s;
    }
    // interpolate of a polynomial field by exact integration
    Vec interpolate(const std::vector<Sum>& u, int k, double* kc = nullptr) const {
        Vec r = Vec::Zero(n); double K = 1; auto pr = [&](auto b, const Q& q) { size_t N = b.size(); Mat G = Mat::Zero(N, N); Vec g = Vec::Zero(N); for (auto& x : q) { auto f0 = b.eval_functions(D<M>(x.x)); Mat F = f0; Vec uu(comps); for (int a = 0; a < comps; a++) uu(a) = u[a](x.x); G += x.w*F*F.transpose(); g += x.w*F*uu; } K = std::max(K, cond(G)); Vec s = G.diagonal().cwiseSqrt().cwiseInverse(); Mat Gs = s.asDiagonal()*G*s.asDiagonal(); return Vec(s.asDiagonal()*Gs.ldlt().solve(s.asDiagonal()*g)); };
        r.head(cbs) = pr(cb(), C.cq(std::max(2*cd, cd + k))); for (size_t f = 0; f < fd.size(); f++) if (has[f]) r.segment(ofs[f], fbs[f]) = pr(fb(f), C.fq(f, std::max(2*fd[f], fd[f] + k))); if (kc) *kc = K; return r;
    }
    Vec constant(const Vec& v) const { std::vector<Sum> s(comps); for (int a = 0; a < comps; a++) { pl::Poly p; p.o = C.v[0]; p.a = p.b = P{0,0,0}; p.i = p.j = 0; s[a].p = {p}; s[a].a = {v(a)}; } return interpolate(s, 0); }
};
// stiffness int A(grad w_i):grad w_j of the functions of a basis
inline double rel(double s) { return s + 1e-300; }
// degrees accepted by hho_degree_info
inline std::pair<int,int> degrees(Ctx& c, int fmax) { int f = (int)c.range(0, fmax); int lo = f > 0 ? f-1 : 0; return {(int)c.range(lo, f+1), f}; }
// symmetric, non-negative; returns the largest diagonal entry
inline double spsd(Ctx& c, const Mat& S, double tol, const std::string& key, const std::string& w) { double m = std::max(S.cwiseAbs().maxCoeff(), 1e-300); c.check(S.rows() == S.cols(), key + "-size", w); c.close((S-S.transpose()).cwiseAbs().maxCoeff(), 0, tol, m, key + "-not-symmetric", w); Mat T = 0.5*(S+S.transpose()); Vec s(T.rows()); for (int i = 0; i < T.rows(); i++) s(i) = T(i,i) > 1e-300 ? 1/std::sqrt(T(i,i)) : 0; Mat N = s.asDiagonal()*T*s.asDiagonal(); Eigen::SelfAdjointEigenSolver<Mat> es(N); c.check(es.eigenvalues()(0) > -tol*100, key + "-negative", cat(w, ": smallest eigenvalue ", es.eigenvalues()(0))); return m; }
// run a check on a random cell of a random mesh of each family
template<typename Run> void on_g2(Ctx& c, Run run, int n = 3) { auto m = c.chance(50) ? ref::gen_poly2d(c, n, ref::ANY) : ref::gen_polygon(c, 3, 8, c.draw(2)); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm); }
template<typename Run> void on_s2(Ctx& c, Run run, int n = 3) { auto m = ref::gen_tri2d(c, n); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run(c, m, msh, cm); }
template<typename Run> void on_c2(Ctx& c, Run run, int n = 3) { auto m = ref::gen_rect2d(c, n); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run(c, m, msh, cm); }
template<typename Run> void on_g3(Ctx& c, Run run, int n = 2) { auto m = ref::gen_poly3d(c, n); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run(c, m, msh, cm); }
template<typename Run> void on_s3(Ctx& c, Run run, int n = 2) { auto m = ref::gen_tet3d(c, n); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run(c, m, msh, cm); }
template<typename Run> void on_c3(Ctx& c, Run run, int n = 2) { auto m = ref::gen_hex3d(c, n); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run(c, m, msh, cm); }
} // namespace hh
