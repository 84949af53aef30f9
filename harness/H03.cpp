// H03: eliminating the cell unknowns and recovering them is the same as solving the full local system.
#include "hho.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
#include <complex>
using namespace hh;
using Z = std::complex<double>;
template<typename T> static T rs(Ctx& c) { if constexpr (std::is_same_v<T, double>) return c.sym(); else return Z(c.sym(), c.sym()); }
template<typename T> using MT = Eigen::Matrix<T, -1, -1>; template<typename T> using VT = Eigen::Matrix<T, -1, 1>;
template<typename T> static MT<T> rm(Ctx& c, size_t a, size_t b) { MT<T> m(a, b); bool sparse = c.chance(20); for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) m(i, j) = sparse && c.chance(70) ? T(0) : rs<T>(c); return m; }
// unitary matrix from the QR decomposition of a random one
template<typename T> static MT<T> unitary(Ctx& c, size_t n) { MT<T> m = rm<T>(c, n, n) + MT<T>::Identity(n, n)*T(0.1); return MT<T>(Eigen::HouseholderQR<MT<T>>(m).householderQ()); }
// kinds: 0 positive definite, 1 negative definite, 2 (general only) symmetric indefinite, 3 any invertible, 4 complex symmetric
template<typename T> static MT<T> cellblock(Ctx& c, size_t n, int kind) { MT<T> Q = unitary<T>(c, n); VT<T> d(n); for (size_t i = 0; i < n; i++) { double s = std::pow(10.0, -3*c.unit()); d(i) = kind == 2 && c.draw(2) ? -s : s; } if (kind == 0 || kind == 2) { MT<T> A = Q*d.asDiagonal()*Q.adjoint(); return T(0.5)*(A + MT<T>(A.adjoint())); } if (kind == 1) { MT<T> A = Q*d.asDiagonal()*Q.adjoint(); return -T(0.5)*(A + MT<T>(A.adjoint())); } if (kind == 3) return Q*d.asDiagonal()*unitary<T>(c, n); MT<T> A = Q*d.asDiagonal()*Q.transpose(); return T(0.5)*(A + MT<T>(A.transpose())); }
// nt cell unknowns, nf face unknowns; cond(lhs, rhs) -> (AC, bC), AL, bL (if wm); rec(lhs, rhs, xF)
template<typename T, typename CF, typename RF> static void system(Ctx& c, size_t nt, size_t nf, const MT<T>& A, bool shortrhs, CF cond, RF rec, const std::string& key, const std::string& w) {
    size_t n = nt + nf; VT<T> b = VT<T>::Zero(n); for (size_t i = 0; i < n; i++) b(i) = rs<T>(c); if (shortrhs) b.tail(nf).setZero(); VT<T> given = shortrhs ? VT<T>(b.head(nt)) : b;
    auto lu = A.fullPivLu(); if (nf == 0 || !lu.isInvertible() || !(lu.rcond() > 1e-7)) throw pbt::Discard(); VT<T> x = lu.solve(b); double xs = std::max(x.norm(), 1e-300), tol = 1e-6;
    auto [AC, bC] = cond(A, given); c.check((size_t)AC.rows() == nf && (size_t)AC.cols() == nf && (size_t)bC.size() == nf, key + "-size", w); MT<T> Ac = AC; VT<T> bc = bC;
    VT<T> xf = x.tail(nf), r = Ac*xf - bc; c.close(r.norm(), 0, tol*1e-2, Ac.norm()*xf.norm() + bc.norm() + 1e-300, key + "-condensed-system", w); VT<T> sf = nf ? VT<T>(Ac.fullPivLu().solve(bc)) : VT<T>(0); c.close((sf - xf).norm(), 0, tol, xs, key + "-condensed-solution", w);
    VT<T> full = rec(A, given, sf); c.check((size_t)full.size() == n, key + "-recovered-size", w); c.close((full - x).norm(), 0, tol, xs, key + "-recovered", w);
    // any face values: the cell equations hold and the faces are untouched
    VT<T> g(nf); for (size_t i = 0; i < nf; i++) g(i) = rs<T>(c); VT<T> h = rec(A, given, g); c.check(h.tail(nf) == g, key + "-faces-changed", w); VT<T> q = A.topRows(nt)*h - b.head(nt); c.close(q.norm(), 0, tol*1e-2, A.norm()*h.norm(), key + "-cell-equations", w);
    if (A == MT<T>(A.adjoint())) { c.close((Ac - Ac.adjoint()).norm(), 0, 1e-9, A.norm()*1e3, key + "-symmetry-lost", w); Eigen::SelfAdjointEigenSolver<MT<T>> ef(A), ec(MT<T>(T(0.5)*(Ac + MT<T>(Ac.adjoint())))); if (ef.eigenvalues()(0) > 1e-6) c.check(ec.eigenvalues()(0) >= ef.eigenvalues()(0)*(1-1e-6) - 1e-10, key + "-definiteness-lost", cat(w, ": smallest eigenvalue ", ec.eigenvalues()(0), " of the condensed, ", ef.eigenvalues()(0), " of the full matrix")); }
}
template<typename T> static MT<T> local(Ctx& c, size_t nt, size_t nf, int kind) { size_t n = nt + nf; if (kind == 0 && c.chance(50)) { MT<T> A = cellblock<T>(c, n, 0); return A; } MT<T> A(n, n); A.topLeftCorner(nt, nt) = cellblock<T>(c, nt, kind); bool sym = c.draw(2); A.topRightCorner(nt, nf) = rm<T>(c, nt, nf); A.bottomLeftCorner(nf, nt) = sym ? MT<T>(A.topRightCorner(nt, nf).adjoint()) : rm<T>(c, nf, nt); A.bottomRightCorner(nf, nf) = rm<T>(c, nf, nf); if (sym) { MT<T> B = A.bottomRightCorner(nf, nf); A.bottomRightCorner(nf, nf) = B + MT<T>(B.adjoint()); } return A; }
template<typename M, typename T> static void primal(Ctx& c, const M& msh, const typename M::cell_type& cl, int fmax, const std::string& w0) {
    constexpr int d = M::dimension; auto [cd, fd] = degrees(c, fmax); hho_degree_info hdi(cd, fd); size_t k = faces(msh, cl).size(); int var = (int)c.draw(4); bool vec = var >= 2, wm = c.draw(2); size_t nt = (vec ? d : 1)*bs::dimP(cd, d), nf = k*(vec ? d : 1)*bs::dimP(fd, d-1); std::string key = vec ? "vector" : "scalar", w = cat(w0, " cd=", cd, " fd=", fd);
    MT<T> A; std::vector<DegreeInfo> fi; bool mixed = var == 3; MeshDegreeInfo<M> mdi(msh, size_t(cd), size_t(fd)); if (mixed) { nf = 0; for (auto& fc : faces(msh, cl)) { size_t q = c.range(0, fmax); bool h = c.chance(80); mdi.degree(msh, fc, q); mdi.hasUnknowns(msh, fc, h); if (h) nf += d*bs::dimP(q, d-1); } key = "vector-mixed"; }
    if (nt + nf > 150) throw pbt::Discard(); int kind = (int)c.draw(2); A = local<T>(c, nt, nf, kind); bool sr = c.chance(30); bool nocheck = mixed && !sr && c.draw(2); if (!vec && c.chance(40) && std::is_same_v<T, double>) { if constexpr (std::is_same_v<T, double>) { auto [op, data] = make_scalar_hho_laplacian(msh, cl, hdi); MT<T> S = data + make_scalar_hho_stabilization(msh, cl, op, hdi); S /= S.norm(); A = S; A += MT<T>::Identity(nt+nf, nt+nf)*0.01; } key += "-diffusion"; }
    c.label(key); MT<T> AL; VT<T> bL;
    auto cond = [&](const MT<T>& L, const VT<T>& b) { if (mixed) { auto r = make_vector_static_condensation_withMatrix(msh, cl, mdi, L, b, !nocheck); AL = std::get<1>(r); bL = std::get<2>(r); return std::get<0>(r); } if (!wm) return vec ? make_vector_static_condensation(msh, cl, hdi, L, b) : make_scalar_static_condensation(msh, cl, hdi, L, b); auto r = vec ? make_vector_static_condensation_withMatrix(msh, cl, hdi, L, b) : make_scalar_static_condensation_withMatrix(msh, cl, hdi, L, b); AL = std::get<1>(r); bL = std::get<2>(r); return std::get<0>(r); };
    auto rec = [&](const MT<T>& L, const VT<T>& b, const VT<T>& x) -> VT<T> { if (mixed || wm) return vec ? make_vector_static_decondensation_withMatrix(AL, bL, x) : make_scalar_static_decondensation_withMatrix(AL, bL, x); return vec ? make_vector_static_decondensation(msh, cl, hdi, L, b, x) : make_scalar_static_decondensation(msh, cl, hdi, L, b, x); };
    system<T>(c, nt, nf, A, sr, cond, rec, key, w);
    if (!mixed && c.chance(10)) { VT<T> bad = VT<T>::Zero(nt + nf + 1 + c.draw(3)); bool threw = false; try { cond(A, bad); } catch (const std::invalid_argument&) { threw = true; } c.check(threw, key + "-bad-rhs-accepted", w); }
}
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>&, int fmax) { size_t i = c.draw(msh.cells_size()); auto cl = *(msh.cells_begin() + i); c.note << ref::describe(m) << " cell " << i; c.nontrivial(); if (c.chance(75)) primal<M, double>(c, msh, cl, fmax, cat("cell ", i)); else primal<M, Z>(c, msh, cl, fmax, cat("cell ", i, " complex")); }
PROP("condensation_g2", 8000, 160000) { on_g2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 3); }); }
PROP("condensation_g3", 1500, 8000) { on_g3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 1); }); }
// general elimination of a leading block
template<typename T> static void general(Ctx& c) {
    size_t nt = c.size(1, 25), nf = c.size(1, 30); int kind = (int)c.draw(std::is_same_v<T, double> ? 4 : 5); c.note << nt << " + " << nf << " unknowns, kind " << kind << (std::is_same_v<T, double> ? "" : " complex"); c.nontrivial(); MT<T> A = local<T>(c, nt, nf, kind); static const char* kn[] = {"positive", "negative", "indefinite", "nonsymmetric", "complex-symmetric"}; c.label(kn[kind]); std::string key = cat("general-", kn[kind]), w;
    system<T>(c, nt, nf, A, false, [&](const MT<T>& L, const VT<T>& b) { auto r = static_condensation(dynamic_matrix<T>(L), dynamic_vector<T>(b), nt); dynamic_matrix<T> l2 = static_condensation(dynamic_matrix<T>(L), nt); c.check(l2 == r.first, key + "-matrix-only", "the condensed matrix differs when no right-hand side is given"); return r; },
        [&](const MT<T>& L, const VT<T>& b, const VT<T>& x) -> VT<T> { return static_decondensation(dynamic_matrix<T>(L), dynamic_vector<T>(b), dynamic_vector<T>(x)); }, key, w);
    // several solutions of the homogeneous system
    MT<T> X = rm<T>(c, nf, 1 + c.draw(4)); MT<T> F = static_decondensation(dynamic_matrix<T>(A), dynamic_matrix<T>(X)); c.check(F.cols() == X.cols() && (size_t)F.rows() == nt + nf, key + "-many-size", w); c.check(F.bottomRows(nf) == X, key + "-many-faces", w); c.close((A.topRows(nt)*F).norm(), 0, 1e-8, A.norm()*F.norm() + 1e-300, key + "-many-cells", w);
}
PROP("general", 20000, 400000) { if (c.chance(50)) general<double>(c); else general<Z>(c); }
