// B01: scalar bases: dimension, span, nesting, gradients, harmonic part.
#include "basis.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop; using bs::Mat; using bs::Vec;

template<typename M> static auto D(const P& p) { return dm::toD<M>(p); }
// values, nesting, gradients
template<typename M, typename Mk> static void scalar(Ctx& c, const M& msh, Mk mk, const std::vector<P>& v, int k, int de, bool grads, const std::string& key, const std::string& w) {
    constexpr int dim = M::dimension; auto b = mk(k); c.check(b.size() == bs::dimP(k, de), key + "-size", w); c.check((int)b.degree() == k, key + "-degree", w);
    auto f = [&](P x) -> Vec { return b.eval_functions(D<M>(x)); }; bs::spans(c, f, v, k, de, dim, 1e-8, key, w);
    auto fr = bs::frame(v, de, dim); std::vector<P> l; for (auto& p : v) l.push_back(fr.local(p)); auto lb = bs::box(l); double h = ref::diameter(v);
    P x = bs::point_near(c, fr, lb); if (c.chance(10)) x = v[c.draw(v.size())]; Vec y = f(x); double sc = 1; for (int i = 0; i < y.size(); i++) sc = std::max(sc, std::fabs(y(i)));
    if (k > 0) { auto b1 = mk(k-1); Vec y1 = b1.eval_functions(D<M>(x)); for (int i = 0; i < y1.size(); i++) c.close(y(i), y1(i), 1e-12, sc, key + "-not-nested", w); }
    if constexpr (requires { b.eval_gradients(D<M>(x)); }) if (grads) { Mat g = b.eval_gradients(D<M>(x)); c.check(g.rows() == (int)b.size() && g.cols() == dim, key + "-gradient-shape", w); double s2 = 0;
        for (int a = 0; a < dim; a++) { Mat e = bs::along(f, x, bs::axis(a), 0.5*(lb.hi[a]-lb.lo[a]), k); s2 = std::max({s2, e.cwiseAbs().maxCoeff(), sc/(lb.hi[a]-lb.lo[a])}); c.close((g.col(a) - e).norm(), 0, 1e-9*(k+1)*(k+1), s2, key + "-gradient", cat(w, " degree ", k, " axis ", a)); }
        if constexpr (requires { b.eval_curls2(D<M>(x)); }) { Mat r = b.eval_curls2(D<M>(x)); c.close((r.col(0)-g.col(1)).norm() + (r.col(1)+g.col(0)).norm(), 0, 1e-13, s2, key + "-curl2", w); } }
}
template<typename M> static void harmonic(Ctx& c, const M& msh, const typename M::cell_type& cl, const std::vector<P>& v, int k, const std::string& w) {
    constexpr int dim = M::dimension; if (k > 6) k = 6; auto b = make_scalar_harmonic_top_basis(msh, cl, k); int pd = (int)c.range(0, k); if (c.chance(80)) b.maximum_polynomial_degree(pd); else pd = k; c.check((int)b.maximum_polynomial_degree() == pd && (int)b.degree() == k, "harmonic-degrees", w);
    auto hs = [&](int q) { return dim == 2 ? 2*q+1 : (q+1)*(q+1); }; size_t np = bs::dimP(pd, dim), nh = hs(k) - hs(pd); c.check(b.size() == np + nh && b.poly_size() == np && b.harmonic_size() == nh, "harmonic-size", cat(w, ": ", b.size(), " expected ", np + nh));
    auto f = [&](P x) -> Vec { return b.eval_functions(D<M>(x)); }; auto bb = bs::box(v); auto fr = bs::frame(v, dim, dim); P x = bs::point_near(c, fr, bb); P bar = dm::toP(barycenter(msh, cl)); if (c.chance(15)) x = bar; else if (c.chance(15)) { x = bar; x[0] = bb.lo[0] + (bb.hi[0]-bb.lo[0])*c.unit(); c.label("on-axis"); }
    Vec y = f(x); c.check(y.allFinite(), "harmonic-not-finite", w); double h = ref::diameter(v), m = 1; Mat g = b.eval_gradients(D<M>(x)); c.check(g.allFinite(), "harmonic-gradient-not-finite", w); Mat lap = Mat::Zero(b.size(), 1);
    for (int a = 0; a < dim; a++) { double H = 0.5*(bb.hi[a]-bb.lo[a]); Mat e = bs::along(f, x, bs::axis(a), H, k); m = std::max({m, y.cwiseAbs().maxCoeff(), e.cwiseAbs().maxCoeff()*H}); c.close((g.col(a)-e).norm(), 0, 1e-8, m/H, "harmonic-gradient", cat(w, " degree ", k, " polynomial degree ", pd, " axis ", a)); lap += bs::along(f, x, bs::axis(a), 0.5*h, k, true); }
    if (nh) c.close(lap.bottomRows(nh).norm(), 0, 1e-6, m/(h*h)*std::pow(2.0, k), "harmonic-laplacian", w);
    // all together independent and inside P_k
    size_t n = b.size(), N = 2*bs::dimP(k, dim)+6; Mat V(N, n), R(N, bs::dimP(k, dim)); uint64_t s = 99; auto u = [&] { s = s*6364136223846793005ULL + 1442695040888963407ULL; return double(s >> 11)/9007199254740992.0; };
    for (size_t i = 0; i < N; i++) { P z{0,0,0}; for (int d = 0; d < dim; d++) z[d] = bb.lo[d] + (bb.hi[d]-bb.lo[d])*0.5*(1-std::cos(M_PI*u())); V.row(i) = f(z).transpose(); R.row(i) = bs::legendre(z, bb.lo, bb.hi, k, dim).transpose(); }
    for (size_t j = 0; j < n; j++) V.col(j) /= V.col(j).norm(); Eigen::ColPivHouseholderQR<Mat> qr(R); c.close((V - R*qr.solve(V)).norm(), 0, 1e-8, 1, "harmonic-not-polynomials", w); Eigen::JacobiSVD<Mat> sv(V); c.check(sv.singularValues()(n-1) > 1e-9*sv.singularValues()(0), "harmonic-dependent", w);
    if (nh) { auto b2 = make_scalar_monomial_basis(msh, cl, pd, false); Vec y2 = b2.eval_functions(D<M>(x)); c.close((y.head(np) - y2).norm(), 0, 1e-12, m, "harmonic-polynomial-part", w); }
}
template<typename M, typename B> static void orthonormal(Ctx& c, const M& msh, const B& b, const auto& elem, int k, const std::string& key) {
    if (!b.is_orthonormal()) return; c.label("claims-orthonormal"); Mat G = Mat::Zero(b.size(), b.size()); for (auto& q : integrate(msh, elem, 2*k)) { Vec y = b.eval_functions(q.point()); G += q.weight()*y*y.transpose(); } c.close((G - Mat::Identity(b.size(), b.size())).norm(), 0, 1e-9, 1, key + "-not-orthonormal");
}
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int kmax) {
    constexpr int dim = M::dimension; c.note << ref::describe(m); c.label(m.kind); c.nontrivial(); size_t ncell = cm.size(), i = c.draw(ncell); auto cl = *(msh.cells_begin() + i); auto v = ref::loop_pts(m, ref::cell_verts(m, cm[i])); int k = (int)c.range(0, kmax); std::string w = cat("cell ", i); c.note << ", degree " << k;
    bool ia = c.draw(2); if (ia) c.label("inertia-axes");
    switch (c.draw(3)) {
        case 0: scalar(c, msh, [&](int q) { return make_scalar_monomial_basis(msh, cl, q, ia); }, v, k, dim, true, "monomial", w); break;
        case 1: k = (int)c.range(0, dim == 2 ? 10 : 5); scalar(c, msh, [&](int q) { return make_scalar_legendre_basis(msh, cl, q, ia); }, v, k, dim, true, "legendre", w); orthonormal(c, msh, make_scalar_legendre_basis(msh, cl, std::min(k, 5), ia), cl, std::min(k, 5), "legendre"); break;
        default: harmonic(c, msh, cl, v, (int)c.range(0, dim == 2 ? 6 : 5), w); }
    // a face
    size_t nf = msh.faces_size(), j = c.draw(nf); auto fc = *(msh.faces_begin() + j); std::vector<P> vf; if (dim == 2) for (auto& p : points(msh, fc)) vf.push_back(dm::toP(p)); else { Loop ids; for (auto& x : fc.point_ids()) ids.push_back(size_t(x)); for (auto& f : m.faces) if (ref::sorted(f) == ref::sorted(ids)) vf = ref::loop_pts(m, f); }
    w = cat("face ", j); int kf = (int)c.range(0, kmax);
    if (c.draw(2)) scalar(c, msh, [&](int q) { return make_scalar_monomial_basis(msh, fc, q, ia); }, vf, kf, dim-1, false, "face-monomial", w);
    else { scalar(c, msh, [&](int q) { return make_scalar_legendre_basis(msh, fc, q, ia); }, vf, kf, dim-1, false, "face-legendre", w); orthonormal(c, msh, make_scalar_legendre_basis(msh, fc, kf, ia), fc, kf, "face-legendre"); }
}
PROP("polygons", 45000, 600000) { auto m = ref::gen_poly2d(c, 3, ref::ANY); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 7); }
PROP("single-polygon", 45000, 600000) { auto m = ref::gen_polygon(c, 3, 9, c.draw(2)); if (c.draw(2)) ref::permute(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 7); }
PROP("triangles", 45000, 400000) { auto m = ref::gen_tri2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run(c, m, msh, cm, 7); }
PROP("rectangles", 45000, 400000) { auto m = ref::gen_rect2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run(c, m, msh, cm, 7); }
PROP("polyhedra", 18000, 120000) { auto m = ref::gen_poly3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run(c, m, msh, cm, 4); }
PROP("tetrahedra", 18000, 120000) { auto m = ref::gen_tet3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run(c, m, msh, cm, 4); }
PROP("boxes", 18000, 120000) { auto m = ref::gen_hex3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run(c, m, msh, cm, 4); }
PROP("segments", 30000, 200000) {
    std::vector<double> x{3*c.sym()}; size_t n = c.size(1, 5); for (size_t i = 0; i < n; i++) x.push_back(x.back() + std::pow(10.0, 2*c.sym())*(0.1 + c.unit())); auto msh = dm::make_g1(x); c.nontrivial(); size_t i = c.draw(n); auto cl = *(msh.cells_begin() + i); int k = (int)c.range(0, 8); c.note << "segment, degree " << k;
    scalar(c, msh, [&](int q) { return make_scalar_monomial_basis(msh, cl, q); }, {P{x[i],0,0}, P{x[i+1],0,0}}, k, 1, true, "monomial-1d", cat("segment ", i));
}
PROP("legendre-limit", 60, 200) {
    int k = (int)c.range(0, 14); auto m = ref::gen_tri2d(c, 1); auto msh = dm::make_s2(m); c.nontrivial(); bool r = false; try { make_scalar_legendre_basis(msh, *msh.cells_begin(), k, false); } catch (const std::exception&) { r = true; } c.check(r == (k > 10), "legendre-degree-refusal", cat(k));
}
