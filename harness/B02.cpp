// B02: vector, matrix, symmetric-matrix, Raviart-Thomas and tangential bases: dimension, independence, space, differential operators.
#include "basis.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop; using bs::Mat; using bs::Vec;

template<typename M> static auto D(const P& p) { return dm::toD<M>(p); }
// values of a basis as a matrix: one row per function, the components in columns
template<typename V> static Mat flat(const V& v) {
    if constexpr (requires { v.rows(); }) { Mat r = v; return r; }
    else { if (v.empty()) return Mat(0, 0); Mat r(v.size(), v[0].rows()*v[0].cols()); for (size_t i = 0; i < v.size(); i++) for (int a = 0; a < v[i].rows(); a++) for (int b = 0; b < v[i].cols(); b++) r(i, a*v[i].cols()+b) = v[i](a, b); return r; }
}
struct Geo { std::vector<P> v; int de, D; bs::Frame fr; bs::Box lb; double h; };
static Geo geo(const std::vector<P>& v, int de, int Dm) { Geo g{v, de, Dm, bs::frame(v, de, Dm), {}, ref::diameter(v)}; std::vector<P> l; for (auto& p : v) l.push_back(g.fr.local(p)); g.lb = bs::box(l); return g; }
// f: point -> n x comps values. Independent, components in P_k, contains (P_m)^comps (projected by `proj` on the admissible values)
template<typename F> static void space(Ctx& c, F f, const Geo& g, size_t n, int comps, int k, int m, const std::function<std::vector<Vec>(P)>& adm, const std::string& key, const std::string& w) {
    size_t N = 2*bs::dimP(k, g.de) + 6; Mat R(N, bs::dimP(k, g.de)), Rm(N, bs::dimP(std::max(m, 0), g.de)), W(N*comps, n); std::vector<Vec> am; uint64_t s = 777; auto u = [&] { s = s*6364136223846793005ULL + 1442695040888963407ULL; return double(s >> 11)/9007199254740992.0; };
    for (size_t i = 0; i < N; i++) { P x{0,0,0}; for (int d = 0; d < g.de; d++) x[d] = g.lb.lo[d] + (g.lb.hi[d]-g.lb.lo[d])*0.5*(1-std::cos(M_PI*u())); Mat y = f(g.fr.global(x)); c.check((size_t)y.rows() == n && y.cols() == comps, key + "-size", cat(w, ": ", y.rows(), " functions of ", y.cols(), " components, expected ", n, " of ", comps));
        for (int a = 0; a < comps; a++) W.row(i*comps+a) = y.col(a).transpose(); R.row(i) = bs::legendre(x, g.lb.lo, g.lb.hi, k, g.de).transpose(); if (m >= 0) Rm.row(i) = bs::legendre(x, g.lb.lo, g.lb.hi, m, g.de).transpose(); }
    for (size_t j = 0; j < n; j++) { double q = W.col(j).norm(); c.check(q > 0, key + "-zero-function", cat(w, " function ", j)); W.col(j) /= q; }
    Eigen::ColPivHouseholderQR<Mat> qr(R);
    for (int a = 0; a < comps; a++) { Mat V(N, n); for (size_t i = 0; i < N; i++) V.row(i) = W.row(i*comps+a); c.close((V - R*qr.solve(V)).norm(), 0, 1e-8, 1, key + "-not-polynomials", w); }
    Eigen::JacobiSVD<Mat> sv(W); double r = sv.singularValues()(n-1)/sv.singularValues()(0); c.check(r > 1e-11, key + "-dependent", cat(w, ": smallest singular value ", r));
    if (m >= 0) { Eigen::ColPivHouseholderQR<Mat> qw(W); for (auto& z : adm(P{})) { Mat T(N*comps, Rm.cols()); for (size_t i = 0; i < N; i++) for (int a = 0; a < comps; a++) T.row(i*comps+a) = z(a)*Rm.row(i); for (int j = 0; j < T.cols(); j++) T.col(j) /= T.col(j).norm(); c.close((T - W*qw.solve(T)).norm(), 0, 1e-7, 1, key + "-space-too-small", cat(w, " degree ", m)); } }
}
static std::vector<Vec> unitv(int n) { std::vector<Vec> r; for (int i = 0; i < n; i++) r.push_back(Vec::Unit(n, i)); return r; }
static std::vector<Vec> symv(int d) { std::vector<Vec> r; for (int i = 0; i < d; i++) for (int j = i; j < d; j++) { Vec v = Vec::Zero(d*d); v(i*d+j) = v(j*d+i) = 1; r.push_back(v); } return r; }
static P at(Ctx& c, const Geo& g) { return c.chance(10) ? g.v[c.draw(g.v.size())] : bs::point_near(c, g.fr, g.lb); }

template<typename M> static void vectors(Ctx& c, const M& msh, const typename M::cell_type& cl, const Geo& g, int k, bool ia, const std::string& w) {
    constexpr int d = M::dimension; auto b = make_vector_monomial_basis(msh, cl, k, ia); size_t n = d*bs::dimP(k, d); c.check(b.size() == n && vector_basis_size(k, d, d) == n && (int)b.degree() == k, "vector-size", cat(w, ": ", b.size())); auto f = [&](P x) -> Mat { return flat(b.eval_functions(D<M>(x))); };
    space(c, f, g, n, d, k, k, [&](P) { return unitv(d); }, "vector", w);
    P x = at(c, g); std::vector<Mat> J; double s = 0; for (int a = 0; a < d; a++) { J.push_back(bs::along(f, x, bs::axis(a), 0.5*(g.lb.hi[a]-g.lb.lo[a]), k)); s = std::max({s, J[a].cwiseAbs().maxCoeff(), 1/(g.lb.hi[a]-g.lb.lo[a])}); } // J[a](i, comp) = d_a phi_i,comp
    double t = 1e-9*(k+1)*(k+1); auto X = D<M>(x); auto gr = b.eval_gradients(X); auto sg = b.eval_sgradients(X); Mat dv = b.eval_divergences(X), cu = b.eval_curls(X); c.check(gr.size() == n && sg.size() == n && (size_t)dv.rows() == n && (size_t)cu.rows() == n, "vector-operator-size", w);
    for (size_t i = 0; i < n; i++) { Mat G(d, d); for (int q = 0; q < d; q++) for (int a = 0; a < d; a++) G(q, a) = J[a](i, q); std::string wi = cat(w, " degree ", k, " function ", i);
        c.close((Mat(gr[i]) - G).norm(), 0, t, s, "vector-gradient", wi); c.close((Mat(sg[i]) - 0.5*(G+G.transpose())).norm(), 0, t, s, "vector-symmetric-gradient", wi); c.close(dv(i, 0), G.trace(), t, s, "vector-divergence", wi);
        Vec sk(d == 2 ? 1 : 3); if (d == 2) sk << G(0,1)-G(1,0); else sk << G(0,1)-G(1,0), G(0,2)-G(2,0), G(1,2)-G(2,1); c.close((Vec(cu.row(i).transpose()) - sk).norm(), 0, t, s, "vector-rotations", wi);
        if constexpr (requires { b.eval_curls2(X); }) { Mat c2 = b.eval_curls2(X); Vec e(3); e << G(2,1)-G(1,2), G(0,2)-G(2,0), G(1,0)-G(0,1); c.close((Vec(c2.row(i).transpose()) - e).norm(), 0, t, s, "vector-curl", wi); } }
    if (c.chance(20)) { auto bc = make_vector_monomial_basis_complex(msh, cl, k, ia); auto y = bc.eval_functions(X); Mat z = f(x); c.check((y.real() - z).norm() == 0 && y.imag().norm() == 0 && bc.size() == n, "complex-vector-basis", w); }
}
template<typename M> static void matrices(Ctx& c, const M& msh, const typename M::cell_type& cl, const Geo& g, int k, bool ia, const std::string& w) {
    constexpr int d = M::dimension; size_t nm = d*d*bs::dimP(k, d), ns = d*(d+1)/2*bs::dimP(k, d); bool sym = c.draw(2);
    if (!sym) { auto b = make_matrix_monomial_basis(msh, cl, k, ia); c.check(b.size() == nm && matrix_basis_size(k, d, d) == nm && (int)b.degree() == k, "matrix-size", w); space(c, [&](P x) { return flat(b.eval_functions(D<M>(x))); }, g, nm, d*d, k, k, [&](P) { return unitv(d*d); }, "matrix", w); }
    else { auto b = make_sym_matrix_monomial_basis(msh, cl, k, ia); c.check(b.size() == ns && sym_matrix_basis_size(k, d, d) == ns && (int)b.degree() == k, "symmetric-matrix-size", w); space(c, [&](P x) { return flat(b.eval_functions(D<M>(x))); }, g, ns, d*d, k, k, [&](P) { return symv(d); }, "symmetric-matrix", w);
        for (auto& m : b.eval_functions(D<M>(at(c, g)))) c.check((m - m.transpose()).norm() == 0, "symmetric-matrix-not-symmetric", w); }
}
// Raviart-Thomas spaces of order k on a simplex: P_{k-1}^d + x P^H_{k-1}; for matrices row by row, for symmetric ones symmetrised
template<typename M> static void raviart(Ctx& c, const M& msh, const typename M::cell_type& cl, const Geo& g, int k, const std::string& w) {
    constexpr int d = M::dimension; size_t top = bs::dimP(k-1, d) - bs::dimP(k-2, d), nr = d*bs::dimP(k-1, d) + top; int kind = (int)c.draw(3); c.label(kind == 0 ? "rt" : kind == 1 ? "rt-matrix" : "rt-symmetric");
    auto fcs = faces(msh, cl); auto flux = [&](auto f, int rows) { // normal traces are in P_{k-1} of each face
        for (auto& fc : fcs) { auto nv = normal(msh, cl, fc); std::vector<P> vf; for (auto& p : points(msh, fc)) vf.push_back(dm::toP(p)); auto gf = geo(vf, d-1, d); size_t N = 2*bs::dimP(k, d-1) + 4; Mat R(N, bs::dimP(k-1, d-1)); std::vector<Mat> V(rows); uint64_t s = 31; auto u = [&] { s = s*6364136223846793005ULL + 1442695040888963407ULL; return double(s >> 11)/9007199254740992.0; };
            for (size_t i = 0; i < N; i++) { P x{0,0,0}; for (int a = 0; a < d-1; a++) x[a] = gf.lb.lo[a] + (gf.lb.hi[a]-gf.lb.lo[a])*u(); R.row(i) = bs::legendre(x, gf.lb.lo, gf.lb.hi, k-1, d-1).transpose(); Mat y = f(gf.fr.global(x)); for (int r = 0; r < rows; r++) { if (i == 0) V[r] = Mat(N, y.rows()); Vec t = Vec::Zero(y.rows()); for (int a = 0; a < d; a++) t += y.col(r*d+a)*nv(a); V[r].row(i) = t.transpose(); } }
            Eigen::ColPivHouseholderQR<Mat> qr(R); for (int r = 0; r < rows; r++) c.close((V[r] - R*qr.solve(V[r])).norm(), 0, 1e-8, std::max(V[r].norm(), 1.0), "raviart-thomas-normal-trace", w); } };
    if (kind == 0) { auto b = make_vector_monomial_basis_RT(msh, cl, k); c.check(b.size() == nr && vector_basis_size_RT(k, d, d) == nr && (int)b.degree() == k, "raviart-thomas-size", cat(w, ": ", b.size(), " expected ", nr)); auto f = [&](P x) { return flat(b.eval_functions(D<M>(x))); }; space(c, f, g, nr, d, k, k-1, [&](P) { return unitv(d); }, "raviart-thomas", cat(w, " order ", k)); flux(f, 1);
        P x = at(c, g); Mat dv = b.eval_divergences(D<M>(x)); c.check((size_t)dv.rows() == nr, "raviart-thomas-divergence-size", w); Vec e = Vec::Zero(nr); double s = 0; for (int a = 0; a < d; a++) { Mat J = bs::along(f, x, bs::axis(a), 0.5*(g.lb.hi[a]-g.lb.lo[a]), k); e += J.col(a); s = std::max({s, J.cwiseAbs().maxCoeff(), 1/g.h}); } c.close((Vec(dv.col(0)) - e).norm(), 0, 1e-8, s, "raviart-thomas-divergence", w); }
    else if (kind == 1) { size_t n = d*nr; auto b = make_matrix_monomial_basis_RT(msh, cl, k); c.check(b.size() == n && matrix_basis_size_RT(k, d, d) == n, "raviart-thomas-matrix-size", cat(w, ": ", b.size(), " expected ", n)); auto f = [&](P x) { return flat(b.eval_functions(D<M>(x))); }; space(c, f, g, n, d*d, k, k-1, [&](P) { return unitv(d*d); }, "raviart-thomas-matrix", cat(w, " order ", k)); flux(f, d); }
    else { size_t n = d*(d+1)/2*bs::dimP(k-1, d) + d*top; auto b = make_sym_matrix_monomial_basis_RT(msh, cl, k); c.check(b.size() == n && sym_matrix_basis_size_RT(k, d, d) == n, "raviart-thomas-symmetric-size", cat(w, ": ", b.size(), " expected ", n)); auto f = [&](P x) { return flat(b.eval_functions(D<M>(x))); }; space(c, f, g, n, d*d, k, k-1, [&](P) { return symv(d); }, "raviart-thomas-symmetric", cat(w, " order ", k));
        for (auto& m : b.eval_functions(D<M>(at(c, g)))) c.check((m - m.transpose()).norm() == 0, "raviart-thomas-not-symmetric", w); }
}
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int kmax, bool simplex) {
    constexpr int d = M::dimension; c.note << ref::describe(m); c.label(m.kind); c.nontrivial(); size_t i = c.draw(cm.size()); auto cl = *(msh.cells_begin() + i); auto g = geo(ref::loop_pts(m, ref::cell_verts(m, cm[i])), d, d); int k = (int)c.range(0, kmax); bool ia = c.draw(2); std::string w = cat("cell ", i); c.note << ", degree " << k;
    switch (c.draw(simplex ? 3 : 2)) { case 0: vectors(c, msh, cl, g, k, ia, w); break; case 1: matrices(c, msh, cl, g, k, ia, w); break; default: raviart(c, msh, cl, g, 1 + (int)c.draw(kmax), w); }
    size_t j = c.draw(msh.faces_size()); auto fc = *(msh.faces_begin() + j); std::vector<P> vf; if (d == 2) for (auto& p : points(msh, fc)) vf.push_back(dm::toP(p)); else { Loop ids; for (auto& x : fc.point_ids()) ids.push_back(size_t(x)); for (auto& f : m.faces) if (ref::sorted(f) == ref::sorted(ids)) vf = ref::loop_pts(m, f); }
    auto gf = geo(vf, d-1, d); int kf = (int)c.range(0, kmax); w = cat("face ", j, " degree ", kf);
    { auto b = make_vector_monomial_basis(msh, fc, kf, ia); size_t n = d*bs::dimP(kf, d-1); c.check(b.size() == n && (int)b.degree() == kf, "face-vector-size", w); space(c, [&](P x) { return flat(b.eval_functions(D<M>(x))); }, gf, n, d, kf, kf, [&](P) { return unitv(d); }, "face-vector", w); }
    if constexpr (d == 3) {
        auto n = ref::normal(vf); auto tang = [&](auto f, const char* key) { P x = at(c, gf); Mat y = f(x); for (int a = 0; a < y.rows(); a++) c.close(y(a,0)*n[0] + y(a,1)*n[1] + y(a,2)*n[2], 0, 1e-9, std::max(y.row(a).norm(), 1e-30), std::string(key) + "-normal-component", cat(w, " function ", a)); };
        std::vector<Vec> tv; for (int a = 0; a < 2; a++) { Vec t(3); t << gf.fr.e[a][0], gf.fr.e[a][1], gf.fr.e[a][2]; tv.push_back(t); }
        if (c.draw(2)) { auto b = make_vector_monomial_tangential_basis(msh, fc, kf); size_t N = 2*bs::dimP(kf, 2); c.check(b.size() == N && (int)b.degree() == kf, "tangential-size", w); auto f = [&](P x) { return flat(b.eval_functions(D<M>(x))); }; space(c, f, gf, N, 3, kf, kf, [&](P) { return tv; }, "tangential", w); tang(f, "tangential"); }
        else if (kf > 0) { auto b = make_vector_monomial_nedelec_tangential_basis(msh, fc, kf); size_t N = 2*bs::dimP(kf-1, 2) + kf + 2; c.check(b.size() == N && nedelec_tangential_basis_size(kf) == N && (int)b.degree() == kf, "nedelec-size", cat(w, ": ", b.size(), " expected ", N)); auto f = [&](P x) { return flat(b.eval_functions(D<M>(x))); }; space(c, f, gf, N, 3, kf, kf-1, [&](P) { return tv; }, "nedelec", w); tang(f, "nedelec");
            // the functions of degree kf are gradients: no surface rotation
            P x = at(c, gf); Mat J0 = bs::along(f, x, gf.fr.e[0], 0.5*gf.h, kf), J1 = bs::along(f, x, gf.fr.e[1], 0.5*gf.h, kf); size_t low = 2*bs::dimP(kf-1, 2); for (size_t a = low; a < N; a++) { double r = 0; for (int q = 0; q < 3; q++) r += J0(a, q)*gf.fr.e[1][q] - J1(a, q)*gf.fr.e[0][q]; double s = 0; for (auto& v : vf) s = std::max(s, f(v).row(a).norm()/gf.h); c.close(r, 0, 1e-8, s, "nedelec-top-not-gradients", cat(w, " function ", a)); } }
    }
}
PROP("polygons", 4000, 100000) { auto m = ref::gen_poly2d(c, 3, ref::ANY); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 6, false); }
PROP("triangles", 8000, 200000) { auto m = ref::gen_tri2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run(c, m, msh, cm, 6, true); }
PROP("generic-triangles", 4000, 60000) { auto m = ref::gen_tri2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 5, true); }
PROP("rectangles", 4000, 60000) { auto m = ref::gen_rect2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run(c, m, msh, cm, 5, false); }
PROP("polyhedra", 2000, 20000) { auto m = ref::gen_poly3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run(c, m, msh, cm, 3, false); }
PROP("tetrahedra", 3000, 30000) { auto m = ref::gen_tet3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run(c, m, msh, cm, 4, true); }
PROP("boxes", 2000, 20000) { auto m = ref::gen_hex3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run(c, m, msh, cm, 3, false); }
