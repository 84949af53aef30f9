// B03: L2 projections, mass and stiffness matrices against exact integration.
#include "basis.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop; using bs::Mat; using bs::Vec;

template<typename M> static auto D(const P& p) { return dm::toD<M>(p); }
template<typename T> static double val(const T& a, const T& b) { if constexpr (std::is_arithmetic_v<T>) return a*b; else return (a.array()*b.array()).sum(); }
static Vec rnd(Ctx& c, size_t n) { Vec v(n); for (size_t i = 0; i < n; i++) v(i) = c.sym(); if (v.norm() < 0.1) v(c.draw(n)) = 1; return v; }
// error allowed on a projection: conditioning of the (scaled) Gram matrix, and accuracy of the face rules of 3D polygons
static double ptol(Ctx& c, const Mat& G, double q) { Vec s = G.diagonal().cwiseSqrt().cwiseInverse(); Eigen::SelfAdjointEigenSolver<Mat> es(s.asDiagonal()*G*s.asDiagonal()); double k = es.eigenvalues()(G.rows()-1)/std::max(es.eigenvalues()(0), 1e-300); if (!(k < 1e9)) throw pbt::Discard(); c.label(k < 1e5 ? "well-conditioned" : "ill-conditioned"); return std::max({q*std::max(10.0, std::sqrt(k)), 1e-14*k, 1e-10}); }
struct El { std::vector<P> v; int de, D; bs::Frame fr; bs::Box lb; double h, A, q = 1e-13; std::function<double(int, std::function<double(P)>)> I; };
// a point of the convex hull
static P at(Ctx& c, const El& e) { if (c.chance(10)) return e.v[c.draw(e.v.size())]; P s{0,0,0}; double t = 0; for (auto& p : e.v) { double a = c.unit(); a *= a; s = s + a*p; t += a; } return t > 0 ? (1/t)*s : e.v[0]; }

// sum of polynomials of degrees up to k
struct Sum { std::vector<pl::Poly> p; std::vector<double> a; double operator()(P x) const { double s = 0; for (size_t i = 0; i < p.size(); i++) s += a[i]*p[i](x); return s; } };
static Sum poly(Ctx& c, int k, const El& e) { Sum s; size_t n = c.size(1, 3); for (size_t i = 0; i < n; i++) { s.p.push_back(pl::gen_poly(c, i == 0 ? k : (int)c.range(0, k), e.v, e.D)); s.a.push_back(c.sym() + (i == 0 ? 1.5 : 0)); } return s; }

// comps: 1 (scalar) or D; W(x) = values as matrix n x comps
template<typename M, typename E, typename B> static void gram(Ctx& c, const M& msh, const E& el, const B& b, const El& e, int k, int comps, const std::string& key, const std::string& w) {
    size_t n = b.size(); auto W = [&](P x) -> Mat { return b.eval_functions(D<M>(x)); }; Mat G = make_mass_matrix(msh, el, b); double m = G.diagonal().maxCoeff(); c.check((size_t)G.rows() == n && (size_t)G.cols() == n, key + "-mass-size", w);
    c.close((G - G.transpose()).norm(), 0, 1e-13, m, key + "-mass-not-symmetric", w); Eigen::SelfAdjointEigenSolver<Mat> es(G); c.check(es.eigenvalues()(0) > 0, key + "-mass-not-definite", cat(w, ": ", es.eigenvalues()(0)));
    Vec x = rnd(c, n), y = rnd(c, n); double ex = e.I(2*k, [&](P p) { Mat u = W(p); return double((x.transpose()*u).dot(y.transpose()*u)); }); double s = std::sqrt(x.dot(G*x)*y.dot(G*y)); c.close(x.dot(G*y), ex, std::max(1e-9, e.q), s + e.A*1e-3, key + "-mass", w);
    if (c.chance(30)) { Mat G2 = make_mass_matrix(msh, el, b, 1 + c.draw(2)); c.close((G2 - G).norm(), 0, std::max(1e-9, e.q), G.norm(), key + "-mass-degree-increment", w); }
    (void)comps;
}
template<typename M, typename B> static void stiff(Ctx& c, const M& msh, const typename M::cell_type& el, const B& b, const El& e, int k, const std::string& key, const std::string& w) {
    size_t n = b.size(); Mat S = make_stiffness_matrix(msh, el, b); c.check((size_t)S.rows() == n && (size_t)S.cols() == n, key + "-stiffness-size", w); double m = std::max(S.diagonal().maxCoeff(), 1e-300); c.close((S - S.transpose()).norm(), 0, 1e-13, m, key + "-stiffness-not-symmetric", w);
    auto gv = [&](P p, const Vec& x) -> Mat { auto g = b.eval_gradients(D<M>(p)); if constexpr (requires { g.rows(); }) return x.transpose()*g; else { Mat r = Mat::Zero(g[0].rows(), g[0].cols()); for (size_t i = 0; i < n; i++) r += x(i)*g[i]; return r; } };
    Vec x = rnd(c, n), y = rnd(c, n); double ex = e.I(std::max(0, 2*k-2), [&](P p) { return val(gv(p, x), gv(p, y)); }); c.close(x.dot(S*y), ex, 1e-9, std::sqrt(std::max(0.0, x.dot(S*x)*y.dot(S*y))) + m*1e-3, key + "-stiffness", w);
    Eigen::SelfAdjointEigenSolver<Mat> es(S); size_t z = 0; for (size_t i = 0; i < n; i++) { c.check(es.eigenvalues()(i) > -1e-11*m, key + "-stiffness-negative", w); if (es.eigenvalues()(i) < 1e-12*m) z++; } size_t nc = n/bs::dimP(k, e.de); c.check(z == nc, key + "-stiffness-kernel", cat(w, ": dimension ", z, " expected ", nc));
}
template<typename M, typename E> static void scalars(Ctx& c, const M& msh, const E& el, const El& e, int k, bool ia, int fam, const std::string& w) {
    auto go = [&](auto b, const std::string& key, bool dflt) {
        double tol = ptol(c, make_mass_matrix(msh, el, b), e.q); gram(c, msh, el, b, e, k, 1, key, w); if constexpr (std::is_same_v<E, typename M::cell_type>) stiff(c, msh, el, b, e, k, key, w);
        auto F = [](Sum s) { return scalar_rhs_function<M>([s](const typename M::point_type& p) { return s(dm::toP(p)); }); }; auto pr = [&](const Sum& s, int deg, int di) -> Vec { if (dflt) return project_function(msh, el, size_t(deg), F(s), di); return project_function(msh, el, b, F(s), di); };
        auto V = [&](const Vec& d, P x) { Vec ph = b.eval_functions(D<M>(x)); return eval(dynamic_vector<double>(d), dynamic_vector<double>(ph)); };
        Sum p = poly(c, k, e); Vec d = pr(p, k, 0); c.check((size_t)d.size() == b.size(), key + "-projection-size", w); for (int t = 0; t < 2; t++) { P x = at(c, e); c.close(V(d, x), p(x), tol, 3, key + "-projection-reproduces", cat(w, " degree ", k)); }
        // a polynomial of higher degree: exact right hand side, orthogonal residual
        int hi = k + (int)c.range(0, 3), di = (hi - k + 1)/2; Sum q = poly(c, hi, e); Vec r = make_rhs(msh, el, b, F(q), di), x = rnd(c, b.size()); auto tx = [&](P y) { Vec ph = b.eval_functions(D<M>(y)); return x.dot(ph); }; c.close(x.dot(r), e.I(k+hi, [&](P y) { return q(y)*tx(y); }), std::max(1e-9, e.q), e.A*3*x.lpNorm<1>(), key + "-rhs", w);
        Vec dq = pr(q, k, di); double nq = std::sqrt(e.I(2*hi, [&](P y) { return q(y)*q(y); })), nx = std::sqrt(e.I(2*k, [&](P y) { return tx(y)*tx(y); })), nr = e.I(k+hi, [&](P y) { return (q(y) - V(dq, y))*tx(y); }); c.close(nr, 0, tol, nq*nx + 1e-6*e.A, key + "-residual-not-orthogonal", cat(w, " degrees ", hi, " on ", k));
        if (dflt && k > 0) { int m = (int)c.range(0, k-1); auto b2 = make_scalar_monomial_basis(msh, el, m); scalar_rhs_function<M> f2 = [&](const typename M::point_type& y) { return V(dq, dm::toP(y)); }; Vec a1 = project_function(msh, el, size_t(m), f2, (k-m+1)/2), a2 = project_function(msh, el, size_t(m), F(q), (hi-m+1)/2); P y = at(c, e); Vec ph = b2.eval_functions(D<M>(y)); c.close(a1.dot(ph), a2.dot(ph), tol, 10, key + "-projections-do-not-commute", cat(w, " degrees ", k, " and ", m)); }
    };
    if (fam == 0) go(make_scalar_monomial_basis(msh, el, k), "monomial", true); else if (fam == 1) go(make_scalar_monomial_basis(msh, el, k, ia), "monomial-basis", false); else if constexpr (M::dimension > 1) go(make_scalar_legendre_basis(msh, el, k, ia), "legendre", false);
}
template<typename M, typename E> static void vectors(Ctx& c, const M& msh, const E& el, const El& e, int k, bool ia, bool dflt, const std::string& w) {
    constexpr int d = M::dimension; auto b = dflt ? make_vector_monomial_basis(msh, el, k) : make_vector_monomial_basis(msh, el, k, ia); std::string key = dflt ? "vector" : "vector-basis"; double tol = ptol(c, make_mass_matrix(msh, el, b), e.q); gram(c, msh, el, b, e, k, d, key, w); if constexpr (std::is_same_v<E, typename M::cell_type>) stiff(c, msh, el, b, e, k, key, w);
    using VT = Eigen::Matrix<double, d, 1>; auto F = [](std::vector<Sum> s) { return vector_rhs_function<M>([s](const typename M::point_type& p) { VT r; for (int a = 0; a < d; a++) r(a) = s[a](dm::toP(p)); return r; }); }; auto pr = [&](const std::vector<Sum>& s, int di) -> Vec { if (dflt) return project_function(msh, el, size_t(k), F(s), di); return project_function(msh, el, b, F(s), di); };
    auto V = [&](const Vec& x, P y) -> Vec { Eigen::Matrix<double, Eigen::Dynamic, d> ph = b.eval_functions(D<M>(y)); return eval(dynamic_vector<double>(x), ph); }; std::vector<Sum> p; for (int a = 0; a < d; a++) p.push_back(poly(c, k, e)); Vec dp = pr(p, 0); P x = at(c, e); Vec y = V(dp, x); for (int a = 0; a < d; a++) c.close(y(a), p[a](x), tol, 3, key + "-projection-reproduces", cat(w, " component ", a));
    int hi = k + (int)c.range(0, 3), di = (hi-k+1)/2; std::vector<Sum> q; for (int a = 0; a < d; a++) q.push_back(poly(c, hi, e)); Vec dq = pr(q, di), z = rnd(c, b.size()); auto dot = [&](P t, bool res) { Vec u = V(z, t), s(d); for (int a = 0; a < d; a++) s(a) = q[a](t); if (res) s -= V(dq, t); return s.dot(u); };
    c.close(z.dot(make_rhs(msh, el, b, F(q), di)), e.I(k+hi, [&](P t) { return dot(t, false); }), std::max(1e-9, e.q), e.A*3*z.lpNorm<1>(), key + "-rhs", w); c.close(e.I(k+hi, [&](P t) { return dot(t, true); }), 0, tol, e.A*(1 + z.lpNorm<1>()), key + "-residual-not-orthogonal", w);
    if constexpr (std::is_same_v<E, typename M::cell_type>) if (dflt && k > 0) { // gradient projection: the gradient of a field of the space gives back the field up to constants
        Vec f = rnd(c, b.size()); auto G = [&](const typename M::point_type& t) { Eigen::Matrix<double, d, d> r = Eigen::Matrix<double, d, d>::Zero(); auto g = b.eval_gradients(t); for (size_t i = 0; i < b.size(); i++) r += f(i)*g[i]; return r; }; Vec r = project_gradient(msh, el, size_t(k), matrix_rhs_function<M>(G)); c.check((size_t)r.size() == b.size() - d, "gradient-projection-size", w); Vec full = f; full.tail(r.size()) = r; P t = at(c, e); auto g = b.eval_gradients(D<M>(t)); Mat A = Mat::Zero(d, d), B = A; for (size_t i = 0; i < b.size(); i++) { A += f(i)*g[i]; B += full(i)*g[i]; } c.close((A-B).norm(), 0, 100*tol, std::max(A.norm(), f.norm()/e.h), "gradient-projection-reproduces", w); }
}
template<typename M, typename E> static void elem(Ctx& c, const M& msh, const E& el, const El& e, int k, bool ia, const std::string& w) { int f = (int)c.draw(5); c.label(f < 3 ? "scalar" : "vector"); if (f < 3) scalars(c, msh, el, e, k, ia, f, w); else vectors(c, msh, el, e, std::min(k, e.D == 2 ? 5 : 3), ia, f == 3, w); }
static El mk(const std::vector<P>& v, int de, int Dm) { El e; e.v = v; e.de = de; e.D = Dm; e.fr = bs::frame(v, de, Dm); std::vector<P> l; for (auto& p : v) l.push_back(e.fr.local(p)); e.lb = bs::box(l); e.h = ref::diameter(v); return e; }
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int kmax) {
    constexpr int d = M::dimension; c.note << ref::describe(m); c.label(m.kind); c.nontrivial(); int k = (int)c.range(0, kmax); bool ia = c.draw(2); c.note << ", degree " << k;
    if (c.chance(65)) { size_t i = c.draw(cm.size()), q = cm[i]; auto cl = *(msh.cells_begin() + i); El e = mk(ref::loop_pts(m, ref::cell_verts(m, q)), d, d); e.A = ref::measure(m, q); e.I = [&m, q](int deg, std::function<double(P)> f) { return ref::int_cell(m, q, deg, f); }; elem(c, msh, cl, e, k, ia, cat("cell ", i)); }
    else { size_t j = c.draw(msh.faces_size()); auto fc = *(msh.faces_begin() + j); std::vector<P> vf; if (d == 2) for (auto& p : points(msh, fc)) vf.push_back(dm::toP(p)); else { Loop ids; for (auto& x : fc.point_ids()) ids.push_back(size_t(x)); for (auto& f : m.faces) if (ref::sorted(f) == ref::sorted(ids)) vf = ref::loop_pts(m, f); }
        El e = mk(vf, d-1, d); e.A = d == 2 ? e.h : ref::area(vf); e.I = [vf](int deg, std::function<double(P)> f) { return d == 2 ? ref::int_segment(vf[0], vf[1], deg, f) : ref::int_polygon(vf, deg, f); }; if (d == 3 && vf.size() > 4) e.q = 1e-7; elem(c, msh, fc, e, k, ia, cat("face ", j)); }
}
PROP("polygons", 40000, 1500000) { auto m = ref::gen_poly2d(c, 3, ref::ANY); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 5); }
PROP("single-polygon", 30000, 1500000) { auto m = ref::gen_polygon(c, 3, 9, c.draw(2)); if (c.draw(2)) ref::permute(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 5); }
PROP("triangles", 30000, 1000000) { auto m = ref::gen_tri2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run(c, m, msh, cm, 5); }
PROP("rectangles", 30000, 1000000) { auto m = ref::gen_rect2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run(c, m, msh, cm, 5); }
PROP("polyhedra", 7500, 200000) { auto m = ref::gen_poly3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run(c, m, msh, cm, 3); }
PROP("tetrahedra", 10000, 300000) { auto m = ref::gen_tet3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run(c, m, msh, cm, 3); }
PROP("boxes", 10000, 300000) { auto m = ref::gen_hex3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run(c, m, msh, cm, 3); }
PROP("segments", 25000, 500000) {
    std::vector<double> x{3*c.sym()}; size_t n = c.size(1, 5); for (size_t i = 0; i < n; i++) x.push_back(x.back() + std::pow(10.0, c.sym())*(0.1 + c.unit())); auto msh = dm::make_g1(x); c.nontrivial(); size_t i = c.draw(n); auto cl = *(msh.cells_begin() + i); int k = (int)c.range(0, 6); c.note << "segment, degree " << k; El e = mk({P{x[i],0,0}, P{x[i+1],0,0}}, 1, 1); e.A = e.h; P a = e.v[0], b = e.v[1]; e.I = [a, b](int deg, std::function<double(P)> f) { return ref::int_segment(a, b, deg, f); };
    scalars(c, msh, cl, e, k, false, 0, cat("segment ", i));
}
