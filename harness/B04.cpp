// B04: composable bases: values, gradients, traces, products, integrals and projections agree with exact differentiation and integration.
#include "basis.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/bases/bases_operations.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace disk; using namespace disk::basis;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop; using bs::Mat; using bs::Vec;

template<typename M> static auto D(const P& p) { return dm::toD<M>(p); }
static Vec rnd(Ctx& c, size_t n) { Vec v(n); for (size_t i = 0; i < n; i++) v(i) = c.sym(); if (v.norm() < 0.1) v(c.draw(n)) = 1; return v; }
struct El { std::vector<P> v; int de, D; bs::Frame fr; bs::Box lb; double h, A, q = 1e-13; std::function<double(int, std::function<double(P)>)> I; };
static El mk(const std::vector<P>& v, int de, int Dm) { El e; e.v = v; e.de = de; e.D = Dm; e.fr = bs::frame(v, de, Dm); std::vector<P> l; for (auto& p : v) l.push_back(e.fr.local(p)); e.lb = bs::box(l); e.h = ref::diameter(v); return e; }
static P at(Ctx& c, const El& e) { if (c.chance(10)) return e.v[c.draw(e.v.size())]; P s{0,0,0}; double t = 0; for (auto& p : e.v) { double a = c.unit(); a *= a; s = s + a*p; t += a; } return t > 0 ? (1/t)*s : e.v[0]; }
static double cond(const Mat& G) { Vec s = G.diagonal().cwiseSqrt().cwiseInverse(); Eigen::SelfAdjointEigenSolver<Mat> es(s.asDiagonal()*G*s.asDiagonal()); return es.eigenvalues()(G.rows()-1)/std::max(es.eigenvalues()(0), 1e-300); }
template<typename M, typename B> static Vec vals(const B& b, P x) { return b(D<M>(x)); }
static double G_of(const Mat& g, const Vec& x, const Vec& y) { return (x.transpose()*g).dot(y.transpose()*g); }

// values and, when the basis has them, gradients
template<typename M, typename B> static void values(Ctx& c, const B& b, const El& e, int k, bool grads, const std::string& key, const std::string& w) {
    constexpr int d = M::dimension; c.check(b.size() == bs::dimP(k, e.de) && (int)b.degree() == k && B::size_of_degree(k) == b.size() && (int)b.integration_degree() == k, key + "-size", w); auto f = [&](P x) -> Vec { return b(D<M>(x)); }; bs::spans(c, f, e.v, k, e.de, d, 1e-8, key, w);
    if constexpr (d != 2 || std::is_same_v<typename B::element_type, typename M::cell_type>) if (grads) { P x = at(c, e); Mat g = grad(b)(D<M>(x)), g2 = b.grad(D<M>(x)); c.check(g.rows() == (int)b.size() && g.cols() == d && (g - g2).norm() == 0, key + "-gradient-shape", w); double s = 0; std::vector<Mat> ex; for (int a = 0; a < d; a++) { double H = e.de == d ? 0.5*(e.lb.hi[a]-e.lb.lo[a]) : 0.5*e.h; ex.push_back(bs::along(f, x, bs::axis(a), H, k)); s = std::max({s, ex[a].cwiseAbs().maxCoeff(), g.cwiseAbs().maxCoeff()}); }
        s = std::max(s, f(x).cwiseAbs().maxCoeff()/e.h); for (int a = 0; a < d; a++) c.close((g.col(a) - ex[a]).norm(), 0, 1e-9*(k+1)*(k+1), s, key + "-gradient", cat(w, " degree ", k, " axis ", a));
        Eigen::Matrix<double, d, 1> n; for (int a = 0; a < d; a++) n(a) = c.sym(); Mat t = grad(b).dot(n)(D<M>(x)); c.close((t - g*n).norm(), 0, 1e-13, s, key + "-normal-trace", w); auto gb = grad(b); c.check(gb.size() == b.size() && (int)gb.degree() == k, key + "-gradient-size", w);
        if constexpr (std::is_same_v<typename B::element_type, typename M::cell_type> && d > 1) { Eigen::Matrix<double, d, d> K; for (int a = 0; a < d; a++) for (int q = 0; q < d; q++) K(a, q) = c.sym(); Mat kg = (K*gb)(D<M>(x)); c.close((kg - g*K.transpose()).norm(), 0, 1e-13, s, key + "-material-tensor", w); auto Kg = K*gb; Mat kn = Kg.dot(n)(D<M>(x)); c.close((kn - g*K.transpose()*n).norm(), 0, 1e-13, s, key + "-material-tensor-trace", w);
            variable_material_tensor<B> vk = [K](const typename M::point_type& p) { return (K*(1 + p.x())).eval(); }; Mat vg = (vk*gb)(D<M>(x)); c.close((vg - g*K.transpose()*(1+x[0])).norm(), 0, 1e-13, s*(1+std::fabs(x[0])), key + "-variable-material-tensor", w); } }
}
template<typename M, typename E, typename B, typename B2> static void products(Ctx& c, const M& msh, const E& el, const B& b, const B2& b2, const El& e, int k, int k2, bool grads, const std::string& key, const std::string& w) {
    constexpr int d = M::dimension; double tl = std::max(1e-9, e.q); Mat G = integrate(msh, el, b, b), X = integrate(msh, el, b, b2); double kc = cond(G); if (!(kc < 1e9)) throw pbt::Discard(); double tol = std::max({e.q*std::max(10.0, std::sqrt(kc)), 1e-14*kc, 1e-10}); c.check(X.rows() == (int)b2.size() && X.cols() == (int)b.size(), key + "-product-size", w);
    Vec x = rnd(c, b.size()), y = rnd(c, b2.size()), z = rnd(c, b.size()); Vec gd = G.diagonal().cwiseSqrt(); auto F = [&](P p) { return x.dot(vals<M>(b, p)); }; auto F2 = [&](P p) { return y.dot(vals<M>(b2, p)); }; double nx = std::sqrt(std::max(0.0, e.I(2*k, [&](P p) { return F(p)*F(p); }))), ny = std::sqrt(std::max(0.0, e.I(2*k2, [&](P p) { return F2(p)*F2(p); }))), sm = e.A*1e-3;
    c.close(y.dot(X*x), e.I(k+k2, [&](P p) { return F(p)*F2(p); }), tl, nx*ny + sm, key + "-product", w); c.close(z.dot(G*x), e.I(2*k, [&](P p) { return F(p)*z.dot(vals<M>(b, p)); }), tl, std::max(e.A*x.lpNorm<1>()*z.lpNorm<1>(), x.cwiseAbs().dot(gd)*z.cwiseAbs().dot(gd)), key + "-gram", w); c.close((G-G.transpose()).norm(), 0, 1e-13, G.norm(), key + "-gram-symmetry", w);
    c.close(integrate(msh, el, size_t(k), [&](const typename M::point_type& p) { return F(dm::toP(p)); }), e.I(k, F), tl, std::max(e.A*x.lpNorm<1>(), std::sqrt(e.A)*x.cwiseAbs().dot(gd)), key + "-integral", w);
    // projections: of functions of the space, and of the other basis
    typename M::coordinate_type dummy; (void)dummy; std::function<double(const typename M::point_type&)> fz = [&](const typename M::point_type& p) { return F(dm::toP(p)); }; Vec r1 = L2_project(msh, el, fun<B>([&](typename M::point_type p) { return F(dm::toP(p)); }), b); P t = at(c, e); Vec ph = vals<M>(b, t); double fs = std::max({1.0, x.lpNorm<1>(), x.cwiseAbs().dot(ph.cwiseAbs()), x.cwiseAbs().dot(gd)/std::sqrt(e.A)}); c.close(r1.dot(ph), F(t), tol, fs, key + "-projection", cat(w, " degree ", k)); c.close(disk::basis::eval(D<M>(t), r1, b), r1.dot(ph), 1e-12, fs*100, key + "-evaluation", w);
    L2_projector<B> pj(msh, el, b); Vec r2 = pj([&](const typename M::point_type& p) { return F(dm::toP(p)); }); c.close(r2.dot(ph), F(t), tol, fs, key + "-projector", cat(w, " degree ", k));
    Mat T = pj.basis(b2); c.check(T.rows() == (int)b.size() && T.cols() == (int)b2.size(), key + "-projector-basis-size", w); Vec ty = T*y; auto R = [&](P p) { return F2(p) - ty.dot(vals<M>(b, p)); }; int dd = k + std::max(k, k2); c.close(e.I(dd, [&](P p) { return R(p)*F(p); }), 0, tol, nx*ny + sm, key + "-projector-basis", cat(w, " degrees ", k2, " on ", k));
    if constexpr (d != 2 || std::is_same_v<typename B::element_type, typename M::cell_type>) if (grads) { Mat S = integrate(msh, el, grad(b), grad(b)); auto g = [&](P p) -> Mat { return b.grad(D<M>(p)); }; double s = std::sqrt(std::max(0.0, x.dot(S*x)*z.dot(S*z))) + S.diagonal().cwiseAbs().maxCoeff()*1e-3 + 1e-300; c.close(z.dot(S*x), e.I(std::max(0, 2*k-2), [&](P p) { return G_of(g(p), x, z); }), tl, s, key + "-stiffness", w); (void)d; }
}
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int kmax) {
    constexpr int d = M::dimension; c.note << ref::describe(m); c.label(m.kind); c.nontrivial(); int k = (int)c.range(0, kmax), k2 = (int)c.range(0, kmax); c.note << ", degrees " << k << " and " << k2;
    size_t i = c.draw(cm.size()), q = cm[i]; auto cl = *(msh.cells_begin() + i); El e = mk(ref::loop_pts(m, ref::cell_verts(m, q)), d, d); e.A = ref::measure(m, q); e.I = [&m, q](int deg, std::function<double(P)> f) { return ref::int_cell(m, q, deg, f); }; std::string w = cat("cell ", i);
    auto face = [&](const auto& fc, size_t j) { std::vector<P> vf; if (d == 2) for (auto& p : points(msh, fc)) vf.push_back(dm::toP(p)); else { Loop ids; for (auto& x : fc.point_ids()) ids.push_back(size_t(x)); for (auto& f : m.faces) if (ref::sorted(f) == ref::sorted(ids)) vf = ref::loop_pts(m, f); } (void)j; El ef = mk(vf, d-1, d); ef.A = d == 2 ? ef.h : ref::area(vf); ef.I = [vf](int deg, std::function<double(P)> f) { return M::dimension == 2 ? ref::int_segment(vf[0], vf[1], deg, f) : ref::int_polygon(vf, deg, f); }; if (d == 3 && vf.size() > 4) ef.q = 1e-7; return ef; };
    if (c.chance(60)) {
        if constexpr (d == 2) { rescaling_strategy rs[] = {rescaling_strategy::none, rescaling_strategy::unspecified, rescaling_strategy::gram_schmidt, rescaling_strategy::inertial}; size_t s = c.draw(5); std::string key = s == 0 ? "none" : s == 1 ? "unspecified" : s == 2 ? "gram-schmidt" : s == 3 ? "inertial" : "default"; c.label(key);
            auto mkb = [&](int kk) { return s == 4 ? scaled_monomial_basis(msh, cl, kk) : scaled_monomial_basis(msh, cl, kk, rs[s]); }; auto b = mkb(k); auto b2 = mkb(k2);
            if (c.chance(15)) { double sf = 0.5 + 3*c.unit(); P x = at(c, e); Vec y0 = vals<M>(b, x); double old = b.scalefactor(); b.scalefactor(sf); c.check(b.scalefactor() == sf, "scale-factor", w); Vec y1 = vals<M>(b, x); size_t p = 0; for (int a = 0; a <= k; a++) for (int j = 0; j <= a; j++, p++) c.close(y1(p), y0(p)*std::pow(sf/old, a), 1e-12, std::pow(std::max(1.0, sf/old), k)*std::max(1.0, y0.cwiseAbs().maxCoeff()), "scale-factor-values", cat(w, " function ", p)); c.label("scalefactor"); }
            if (c.draw(2)) values<M>(c, b, e, k, true, key, w); else products(c, msh, cl, b, b2, e, k, k2, true, key, w); }
        else { auto b = scaled_monomial_basis(msh, cl, k), b2 = scaled_monomial_basis(msh, cl, k2); if (c.draw(2)) values<M>(c, b, e, k, true, "cell", w); else products(c, msh, cl, b, b2, e, k, k2, true, "cell", w); }
    } else if (c.chance(50)) { size_t j = c.draw(msh.faces_size()); auto fc = *(msh.faces_begin() + j); w = cat("face ", j); El ef = face(fc, j); auto b = scaled_monomial_basis(msh, fc, k), b2 = scaled_monomial_basis(msh, fc, k2); if (c.draw(2)) values<M>(c, b, ef, k, d == 3, "face", w); else products(c, msh, fc, b, b2, ef, k, k2, false, "face", w); }
    else { // traces on the faces of the cell
        auto fcs = faces(msh, cl); size_t j = c.draw(fcs.size()); auto fc = fcs[j]; El ef = face(fc, j); double tl = std::max(1e-9, ef.q); auto b = scaled_monomial_basis(msh, cl, k); auto bf = scaled_monomial_basis(msh, fc, k2); auto n = normal(msh, cl, fc); w = cat("cell ", i, " face ", j); Vec x = rnd(c, b.size()), y = rnd(c, bf.size());
        auto V = [&](P p) { return x.dot(vals<M>(b, p)); }; auto Gn = [&](P p) { Mat g = b.grad(D<M>(p)); return x.dot(g*n); }; auto F = [&](P p) { return y.dot(vals<M>(bf, p)); }; double fm = 0, gm = 0, vm = 0; for (auto& p : ef.v) { fm = std::max(fm, std::fabs(F(p))); gm = std::max(gm, std::fabs(Gn(p))); vm = std::max(vm, std::fabs(V(p))); } fm += y.lpNorm<1>(); vm += x.lpNorm<1>(); gm += x.lpNorm<1>()/e.h;
        Mat A = integrate(msh, fc, b, bf), B = integrate(msh, fc, grad(b).dot(n), bf), C = integrate(msh, fc, grad(b).dot(n), b); c.close(y.dot(A*x), ef.I(k+k2, [&](P p) { return V(p)*F(p); }), tl, ef.A*fm*vm, "trace-product", w); c.close(y.dot(B*x), ef.I(k+k2, [&](P p) { return Gn(p)*F(p); }), tl, ef.A*fm*gm, "normal-derivative-product", w); c.close(x.dot(C*x), ef.I(2*k, [&](P p) { return Gn(p)*V(p); }), tl, ef.A*vm*gm, "normal-derivative-cell-product", w);
    }
}
PROP("polygons", 20000, 200000) { auto m = ref::gen_poly2d(c, 3, ref::ANY); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 5); }
PROP("single-polygon", 20000, 200000) { auto m = ref::gen_polygon(c, 3, 9, c.draw(2)); if (c.draw(2)) ref::permute(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 5); }
PROP("triangles", 20000, 200000) { auto m = ref::gen_tri2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run(c, m, msh, cm, 5); }
PROP("rectangles", 10000, 100000) { auto m = ref::gen_rect2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run(c, m, msh, cm, 5); }
PROP("polyhedra", 5000, 40000) { auto m = ref::gen_poly3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run(c, m, msh, cm, 3); }
PROP("tetrahedra", 6000, 40000) { auto m = ref::gen_tet3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run(c, m, msh, cm, 3); }
PROP("boxes", 6000, 40000) { auto m = ref::gen_hex3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run(c, m, msh, cm, 3); }
PROP("segments", 20000, 100000) {
    std::vector<double> x{3*c.sym()}; size_t n = c.size(1, 5); for (size_t i = 0; i < n; i++) x.push_back(x.back() + std::pow(10.0, c.sym())*(0.1 + c.unit())); auto msh = dm::make_g1(x); using M = decltype(msh); c.nontrivial(); size_t i = c.draw(n); auto cl = *(msh.cells_begin() + i); int k = (int)c.range(0, 6), k2 = (int)c.range(0, 6); c.note << "segment, degrees " << k << " and " << k2; El e = mk({P{x[i],0,0}, P{x[i+1],0,0}}, 1, 1); e.A = e.h; P a = e.v[0], b = e.v[1]; e.I = [a, b](int deg, std::function<double(P)> f) { return ref::int_segment(a, b, deg, f); };
    auto f = scaled_monomial_basis(msh, cl, k), f2 = scaled_monomial_basis(msh, cl, k2); std::string w = cat("segment ", i);
    if (c.chance(20)) { double sf = 0.5 + 3*c.unit(); f.scalefactor(sf); c.check(f.scalefactor() == sf, "scale-factor", w); c.label("scalefactor"); P t = at(c, e); Vec y = vals<M>(f, t); double r = sf*(t[0]-0.5*(a[0]+b[0]))/(b[0]-a[0]); for (int q = 0; q <= k; q++) c.close(y(q), ref::ipow(r, q), 1e-12, std::pow(std::max(1.0, std::fabs(r)), k), "scale-factor-values", w); }
    switch (c.draw(3)) { case 0: values<M>(c, f, e, k, true, "segment", w); break; case 1: products(c, msh, cl, f, f2, e, k, k2, true, "segment", w); break;
        default: { size_t lo = c.draw(k+1), hi = lo + c.draw(k+1-lo); P t = at(c, e); Vec y = vals<M>(f, t), yr = f(D<M>(t), degs(lo, hi)), ym = f(D<M>(t), degs(lo, disk::basis::_)); c.check(yr.size() == hi-lo+1 && (yr - y.segment(lo, hi-lo+1)).norm() == 0, "degree-range", w); c.check(ym.size() == k-lo+1 && (ym - y.tail(k-lo+1)).norm() == 0, "degree-range-to-max", w); Mat g = f.grad(D<M>(t)), gr = grad(f)(D<M>(t), degs(lo, hi)), gm = grad(f)(D<M>(t), degs(lo, disk::basis::_)); c.check((gr - g.middleRows(lo, hi-lo+1)).norm() == 0 && (gm - g.bottomRows(k-lo+1)).norm() == 0, "gradient-degree-range", w); } }
}
