// A06: virtual elements: degrees of freedom, projectors, forms, numbering, condensation, discrete problems.
#include "hho.hpp"
#include "diskpp/methods/vem"
using namespace disk; using namespace hh;
// Gauss-Lobatto nodes on [0,1]: 0, 1 and the roots of P_k'
static std::vector<double> nodes(int k) { std::vector<double> r{0}; for (int i = 1; i < k; i++) { long double x = -cosl(M_PIl*i/k); for (int it = 0; it < 60; it++) { long double p0 = 1, p1 = x; for (int n = 2; n <= k; n++) { long double p2 = ((2*n-1)*x*p1 - (n-1)*p0)/n; p0 = p1; p1 = p2; } long double d = k*(x*p1 - p0)/(x*x - 1), dd = (2*x*d - k*(k+1)*p1)/(1 - x*x); x -= d/dd; } r.push_back(double((1 + x)/2)); } r.push_back(1); return r; }
static double lag(const std::vector<double>& g, int i, double t) { double s = 1; for (size_t j = 0; j < g.size(); j++) if (int(j) != i) s *= (t - g[j])/(g[i] - g[j]); return s; }
static double lap(const Sum& s, P x) { double r = 0; for (size_t t = 0; t < s.p.size(); t++) { auto& q = s.p[t]; P dd = x - q.o; double A = ref::dot(q.a, dd), B = ref::dot(q.b, dd); int i = q.i, j = q.j; if (i > 1) r += s.a[t]*i*(i-1)*ref::ipow(A, i-2)*ref::ipow(B, j)*ref::dot(q.a, q.a); if (i && j) r += 2*s.a[t]*i*j*ref::ipow(A, i-1)*ref::ipow(B, j-1)*ref::dot(q.a, q.b); if (j > 1) r += s.a[t]*j*(j-1)*ref::ipow(A, i)*ref::ipow(B, j-2)*ref::dot(q.b, q.b); } return r; }
template<typename M> struct Ve { const Cell<M>& x; int k; size_t nf, nb, lbs, cbs, nd; std::vector<P> pos; std::vector<std::vector<P>> ed; std::vector<size_t> at; // oriented edges in the order of the unknowns
    Ve(Ctx& c, const Cell<M>& cell, int deg, const std::string& w) : x(cell), k(deg) { nf = x.fcs.size(); nb = nf*k; lbs = k >= 2 ? bs::dimP(k-2, 2) : 0; cbs = bs::dimP(k, 2); nd = nb + lbs; auto g = nodes(k); auto fo = faces_ccw(x.msh, x.cl); c.check(fo.size() == nf, "ordered-faces-count", w); std::vector<std::array<size_t,2>> E; std::set<size_t> seen; for (auto& [fc, flip] : fo) { auto id = fc.point_ids(); size_t a = id[0], b = id[1]; if (flip) std::swap(a, b); E.push_back({a, b}); seen.insert(offset(x.msh, fc)); size_t f = 0; while (f < nf && !(x.fcs[f] == fc)) f++; c.check(f < nf, "ordered-face-unknown", w); at.push_back(f); ed.push_back({x.m.pts[a], x.m.pts[b]}); for (int i = 0; i < k; i++) pos.push_back(x.m.pts[a] + g[i]*(x.m.pts[b] - x.m.pts[a])); } c.check(seen.size() == nf, "ordered-faces-repeated", w); for (size_t i = 0; i < nf; i++) c.check(E[i][1] == E[(i+1)%nf][0], "faces-not-chained", cat(w, " after edge ", i)); }
    template<typename F> Vec dofs(F f, int fd) const { Vec r(nd); for (size_t i = 0; i < nb; i++) r(i) = f(pos[i]); if (lbs) { auto lb = make_scalar_monomial_basis(x.msh, x.cl, size_t(k-2)); Vec s = Vec::Zero(lbs); for (auto& q : x.cq(fd + k - 2)) { Vec v = lb.eval_functions(D<M>(q.x)); s += q.w*f(q.x)*v; } r.tail(lbs) = s/x.A; } return r; }
    // int_dE (dn p) v on the boundary, v given by its unknowns
    double bdry(const Sum& p, const Vec& v) const { double s = 0; auto g = nodes(k); for (size_t e = 0; e < nf; e++) { P a = ed[e][0], t = ed[e][1] - a; double L = ref::norm(t); for (auto& [u, w] : ref::gauss(k + 1)) { double vv = 0; for (int i = 0; i <= k; i++) vv += v((e*k + i) % nb)*lag(g, i, u); s += w*L*ref::dot(p.grad(a + u*t), x.n[at[e]])*vv; } } return s; } };
template<typename M> static void vem_case(Ctx& c, ref::Mesh& m, M& msh, const std::vector<size_t>& cm, int kmax) {
    using pt = typename M::point_type; using DM = dynamic_matrix<double>; using DV = dynamic_vector<double>; int k = c.range(1, kmax); c.label(m.kind); c.label(cat("k=", k)); c.note << " k=" << k; size_t nc = msh.cells_size(); c.nontrivial(true); std::vector<Cell<M>> C; for (size_t i = 0; i < nc; i++) C.emplace_back(m, msh, cm, i);
    size_t pick = c.draw(nc); { auto& x = C[pick]; std::string w = cat("cell ", pick, " k=", k); Ve<M> V(c, x, k, w); auto cb = make_scalar_monomial_basis(msh, x.cl, size_t(k)); DM G = vem_2d::matrix_G(msh, x.cl, k), B = vem_2d::matrix_B(msh, x.cl, k), Dm = vem_2d::matrix_D(msh, x.cl, k), BF = vem_2d::matrix_BF(msh, x.cl, k); c.check(size_t(G.rows()) == V.cbs && size_t(G.cols()) == V.cbs && size_t(B.rows()) == V.cbs && size_t(B.cols()) == V.nd && size_t(Dm.rows()) == V.nd && size_t(Dm.cols()) == V.cbs && size_t(BF.cols()) == V.nb, "sizes", w);
        double am = 0; for (auto& e : V.ed) am = std::max(am, x.h/ref::norm(e[1] - e[0])); am = std::max(am, x.h*x.h/x.A); double big = 1; for (auto& p : x.v) big = std::max(big, ref::norm(p)/x.h); double t0 = std::max(1e-12, x.q)*am*big*(k + 1);
        // unknowns of the basis
        for (size_t j = 0; j < V.cbs; j++) { Vec d = V.dofs([&](P y) { Vec v = cb.eval_functions(D<M>(y)); return v(j); }, k); double s = std::max(1.0, d.cwiseAbs().maxCoeff()); for (size_t i = 0; i < V.nd; i++) c.close(Dm(i, j), d(i), t0, s, i < V.nb ? "point-unknowns" : "moment-unknowns", cat(w, " unknown ", i, " function ", j)); }
        Mat Gk = Mat::Zero(V.cbs, V.cbs), Hk = Gk; for (auto& q : x.cq(2*k)) { Mat g = cb.eval_gradients(D<M>(q.x)); Vec v = cb.eval_functions(D<M>(q.x)); Gk += q.w*g*g.transpose(); Hk += q.w*v*v.transpose(); } double gs = std::max(1e-300, Gk.cwiseAbs().maxCoeff()); c.close((G.bottomRows(V.cbs-1) - Gk.bottomRows(V.cbs-1)).cwiseAbs().maxCoeff(), 0, t0, gs, "stiffness-of-polynomials", w); c.close((G - B*Dm).cwiseAbs().maxCoeff(), 0, t0*10, gs + B.cwiseAbs().maxCoeff(), "G-is-B-D", w);
        double kG; { Mat s = G; for (int j = 0; j < s.cols(); j++) { double q = s.col(j).norm(); if (q > 0) s.col(j) /= q; } for (int j = 0; j < s.rows(); j++) { double q = s.row(j).norm(); if (q > 0) s.row(j) /= q; } Eigen::JacobiSVD<Mat> sv(s); kG = sv.singularValues()(0)/std::max(sv.singularValues()(V.cbs-1), 1e-300); } double kH = hh::cond(Hk), tp = t0*10*std::max(1.0, 0.1*kG), th = t0*10*std::max(1.0, 0.1*kH); if (tp > 1e-5 || th > 1e-5) throw pbt::Discard();
        DM PN = vem_2d::projector_nabla(msh, x.cl, k, G); c.close((PN*Dm - Mat::Identity(V.cbs, V.cbs)).cwiseAbs().maxCoeff(), 0, tp, 4, "gradient-projector", w);
        // polynomial p, discrete function v
        Sum p = poly(c, k, x.v, 2); Vec dp = V.dofs(p, k), v = rnd(c, V.nd); auto at = [&](const Vec& co, P y) { Vec b = make_scalar_monomial_basis(msh, x.cl, size_t(k)).eval_functions(D<M>(y)); return b.head(co.size()).dot(co); }; Vec pp = PN*dp; for (auto& q : x.cq(1)) c.close(at(pp, q.x), p(q.x), tp, 20, "gradient-projection-of-polynomial", w);
        Vec pv = PN*v; double av = V.bdry(p, v), bd = 0; { for (auto& e : V.ed) bd += ref::norm(e[1] - e[0]); bd *= 20.0*k/x.h*double(k + 1); } if (V.lbs) { auto lb = make_scalar_monomial_basis(msh, x.cl, size_t(k-2)); Mat Hl = Mat::Zero(V.lbs, V.lbs); Vec g = Vec::Zero(V.lbs); for (auto& q : x.cq(2*(k-2))) { Vec b = lb.eval_functions(D<M>(q.x)); Hl += q.w*b*b.transpose(); g += q.w*lap(p, q.x)*b; } Vec co = Hl.ldlt().solve(g); av -= x.A*co.dot(v.tail(V.lbs)); bd += x.A*co.cwiseAbs().sum(); }
        double lv = 0; for (auto& q : x.cq(2*k)) { Mat g = cb.eval_gradients(D<M>(q.x)); Vec gv = g.transpose()*pv; P gp = p.grad(q.x); lv += q.w*(gv(0)*gp[0] + gv(1)*gp[1]); } c.close(lv, av, tp, bd, "gradient-projector-orthogonality", w);
        int kp = c.range(std::max(0, k-2), k); DM P0 = vem_2d::projector_zero(msh, x.cl, k, kp, PN); size_t pbs = bs::dimP(kp, 2); c.check(size_t(P0.rows()) == pbs && size_t(P0.cols()) == V.nd, "projector-size", w); Vec p0 = P0*dp; auto ww = cat(w, " onto degree ", kp); c.label(cat("onto k-", k - kp)); for (size_t j = 0; j < pbs; j++) { double s = 0, sc = 1e-300; for (auto& q : x.cq(2*k)) { Vec b = cb.eval_functions(D<M>(q.x)); s += q.w*b(j)*(at(p0, q.x) - p(q.x)); sc += std::abs(q.w)*std::abs(b(j)); } c.close(s, 0, std::max(tp, th), 20*sc, "L2-projection", cat(ww, " against ", j)); } if (kp == k) for (auto& q : x.cq(1)) c.close(at(p0, q.x), p(q.x), std::max(tp, th), 20, "L2-projection-of-polynomial", ww); if (V.lbs) { Vec v0 = P0*v; for (size_t j = 0; j < V.lbs; j++) { double s = 0; for (auto& q : x.cq(2*k)) { Vec b = cb.eval_functions(D<M>(q.x)); s += q.w*b(j)*at(v0, q.x); } c.close(s, x.A*v(V.nb + j), th, x.A*20*(1 + PN.cwiseAbs().maxCoeff()), "L2-projection-moments", cat(ww, " moment ", j)); } }
        // stiffness
        DM K = vem_2d::local_stiffness_matrix(msh, x.cl, k, G, Dm, PN); double ks = K.cwiseAbs().maxCoeff(); double kf = std::max(1.0, PN.cwiseAbs().maxCoeff()); spsd(c, K, tp*kf, "stiffness", w); c.close(v.dot(K*dp), av, tp*kf, bd + ks*double(V.nd)*5, "stiffness-consistency", w); Vec one = V.dofs([](P) { return 1.0; }, 0); c.close((K*one).cwiseAbs().maxCoeff(), 0, tp*kf, ks, "stiffness-constants", w); if (tp*kf < 1e-8) { Eigen::SelfAdjointEigenSolver<Mat> es(Mat(0.5*(K + K.transpose())), Eigen::EigenvaluesOnly); c.check(es.eigenvalues()(1) > 1e-9*std::min(1.0, 1/kf)*std::min(1.0, 1/am), "stiffness-kernel", cat(w, ": eigenvalues ", es.eigenvalues()(0), " ", es.eigenvalues()(1), " of ", ks)); }
        int df = c.range(0, k); Sum f = poly(c, df, x.v, 2); auto ff = [&](const pt& y) { return f(dm::toP(y)); }; auto [L, R] = vem_2d::compute_local(msh, x.cl, size_t(k), ff); c.close((L - K).cwiseAbs().maxCoeff(), 0, tp*kf, ks, "local-matrix", w); c.check(size_t(R.size()) == V.nd, "local-rhs-size", w); Sum q1 = poly(c, k-1, x.v, 2); double fq = 0; for (auto& q : x.cq(2*k)) fq += q.w*f(q.x)*q1(q.x); c.close(R.dot(V.dofs(q1, k-1)), fq, std::max(tp, th)*kf, x.A*100*double(V.nd), "load-on-polynomials", cat(w, " f of degree ", df));
        // condensation of the moments
        { auto [S, T] = disk::vem::schur(DM(L), DV(R), V.nb); c.check(size_t(S.rows()) == V.nb && size_t(T.size()) == V.nb, "condensed-size", w); Vec xb = rnd(c, V.nb); Vec full = disk::vem::deschur<int>(DM(L), DV(R), DV(xb), V.nb); c.check(size_t(full.size()) == V.nd, "recovered-size", w); c.close((full.head(V.nb) - xb).norm(), 0, 1e-14, 1, "recovered-boundary", w); Vec r = L*full - R; double sc = ks*(1 + full.cwiseAbs().maxCoeff())*double(V.nd) + R.cwiseAbs().maxCoeff(); if (V.lbs) c.close(r.tail(V.lbs).cwiseAbs().maxCoeff(), 0, 1e-9, sc, "recovered-moments", w); Vec s2 = S*xb - T; c.close((s2 - r.head(V.nb)).cwiseAbs().maxCoeff(), 0, 1e-9, sc, "condensed-residual", w); } }
    // global numbering and problem with polynomial solution
    dof_mapper<M> dm_(msh, k); size_t N = msh.points_size() + msh.faces_size()*(k-1); std::vector<char> have(N, 0), dir(N, 0), wantdir(N, 0); std::vector<P> where(N); std::map<Loop, size_t> fid; size_t fi = 0; auto own = ref::face_owners(m); for (auto& fc : faces(msh)) { Loop l; for (auto& p : fc.point_ids()) l.push_back(size_t(p)); fid[ref::sorted(l)] = fi++; } double H = 0; for (auto& x : C) H = std::max(H, x.h); double bigg = H; for (auto& p : m.pts) bigg = std::max(bigg, ref::norm(p)); auto g = nodes(k);
    Sum u = poly(c, c.chance(80) ? k : (int)c.range(0, k), m.pts, 2); Mat A = Mat::Zero(N, N); Vec b = Vec::Zero(N), mag = Vec::Zero(N); double tol = 1e-11; bool run = N <= 250; auto f = [&](const pt& y) { return -lap(u, dm::toP(y)); };
    for (size_t i = 0; i < nc; i++) { auto& x = C[i]; auto w = cat("cell ", i, " k=", k); Ve<M> V(c, x, k, w); auto l2g = dm_.cell_to_global(i); c.check(l2g.size() == V.nb, "numbering-size", w); for (size_t j = 0; j < V.nb; j++) { size_t q = l2g[j]; c.check(q < N, "numbering-range", w); if (have[q]) c.close(ref::norm(where[q] - V.pos[j]), 0, 1e-12, bigg, "numbering-conforming", cat(w, " unknown ", j)); have[q] = 1; where[q] = V.pos[j]; } for (size_t j = 0; j < V.nb; j++) for (size_t q = 0; q < j; q++) c.check(l2g[j] != l2g[q], "numbering-repeated", w);
        if (run) { auto [L, R] = vem_2d::compute_local(msh, x.cl, size_t(k), f); auto [S, T] = disk::vem::schur(DM(L), DV(R), V.nb); double am = 0; for (auto& e : V.ed) am = std::max(am, x.h/ref::norm(e[1] - e[0])); double kf = L.cwiseAbs().maxCoeff(); tol = std::max(tol, std::max(1e-11, x.q)*am*am*x.h*x.h/x.A*ref::norm(x.v[0])/x.h); for (size_t a = 0; a < V.nb; a++) { b(l2g[a]) += T(a); mag(l2g[a]) += std::abs(T(a)); for (size_t e = 0; e < V.nb; e++) { A(l2g[a], l2g[e]) += S(a, e); mag(l2g[a]) += std::abs(S(a, e)) + kf; } } } }
    for (size_t i = 0; i < N; i++) c.check(have[i], "numbering-gap", cat("unknown ", i, " of ", N)); for (auto& [l, o] : own) { size_t q = fid.at(l); auto fg = dm_.face_to_global(q), bg = dm_.bnd_to_global(q); c.check(int(fg.size()) == k + 1, "face-numbering-size", cat("face ", q)); for (int i = 0; i <= k; i++) c.close(ref::norm(where[fg[i]] - (m.pts[l[0]] + g[i]*(m.pts[l[1]] - m.pts[l[0]]))), 0, 1e-12, bigg, "face-numbering", cat("face ", q)); std::set<size_t> s1(fg.begin(), fg.end()), s2(bg.begin(), bg.end()); if (o.size() == 1) { c.check(s1 == s2 && bg.size() == fg.size(), "boundary-numbering", cat("face ", q)); for (auto d : bg) dir[d] = 1; bool along = false; for (size_t ci = 0; ci < nc && !along; ci++) { auto cg = dm_.cell_to_global(ci); auto it = std::find(cg.begin(), cg.end(), bg[0]); if (it == cg.end()) continue; size_t at = it - cg.begin(); along = true; for (size_t j = 0; j < bg.size(); j++) along = along && bg[j] == cg[(at + j) % cg.size()]; } c.check(along, "boundary-numbering-order", cat("the unknowns of face ", q, " are not in the order in which its cell walks along it")); } else c.check(bg.empty(), "boundary-numbering-internal", cat("face ", q)); }
    if (run && tol < 1e-6) { Vec U(N); for (size_t i = 0; i < N; i++) U(i) = u(where[i]); Vec r = A*U - b; for (size_t i = 0; i < N; i++) if (!dir[i]) c.close(r(i), 0, tol*100, 20*mag(i), "patch-test", cat("unknown ", i, " k=", k)); }
    bool thrown = false; try { dof_mapper<M> d0(msh, 0); } catch (const std::invalid_argument&) { thrown = true; } c.check(thrown, "degree-zero-accepted", "");
}
#define RV(k) [](Ctx& c, auto& m, auto& msh, auto& cm) { vem_case(c, m, msh, cm, k); }
PROP("vem_g2", 12000, 400000) { on_g2(c, RV(5), 3); }
PROP("vem_s2", 8000, 300000) { on_s2(c, RV(5), 3); }
PROP("vem_c2", 6000, 200000) { on_c2(c, RV(5), 3); }
