// H02: stabilizations against their defining formulas, their kernels and their polynomial consistency.
#include "hho.hpp"
using namespace hh;
template<typename M> struct St { const Cell<M>& C; const Hyb<M,1>& H; std::vector<double> w; // weight of each face (1/h, times n.Kn)
    // coefficients of the L2 projection of g on the face basis of degree deg
    template<typename F> Vec proj(size_t f, int deg, int gdeg, F g) const { auto b = make_scalar_monomial_basis(C.msh, C.fcs[f], size_t(deg)); size_t N = b.size(); Mat G = Mat::Zero(N, N); Vec r = Vec::Zero(N); for (auto& q : C.fq(f, deg + std::max(deg, gdeg))) { Vec p = b.eval_functions(D<M>(q.x)); G += q.w*p*p.transpose(); r += q.w*p*g(q.x); } return G.ldlt().solve(r); }
    double energy(size_t f, int deg, const Vec& a, const Vec& b, double* ab = nullptr) const { auto fb = make_scalar_monomial_basis(C.msh, C.fcs[f], size_t(deg)); double s = 0; for (auto& q : C.fq(f, 2*deg)) { Vec p = fb.eval_functions(D<M>(q.x)); double t = q.w*p.dot(a)*p.dot(b); s += t; if (ab) *ab += std::fabs(t); } return s; }
};
// eigenvalues of the form scaled to unit diagonal
static Vec eigs(const Mat& S) { Vec s = S.diagonal().cwiseAbs().cwiseSqrt(); for (int i = 0; i < s.size(); i++) s(i) = s(i) > 0 ? 1/s(i) : 0; Mat N = s.asDiagonal()*(0.5*(S+S.transpose()))*s.asDiagonal(); return Eigen::SelfAdjointEigenSolver<Mat>(N).eigenvalues(); }
template<typename M> static void go(Ctx& c, const Cell<M>& C, int fmax, const std::string& w0) {
    constexpr int d = M::dimension; using Kt = typename Cell<M>::Kt; const M& msh = C.msh; const auto& cl = C.cl; size_t nf = C.fcs.size();
    static const char* names[] = {"hdg", "dg", "hdg-tensor", "hho", "hho-faceh", "hho-tensor", "difference", "fluxes"}; int var = (int)c.draw(8); std::string key = names[var]; c.label(key);
    bool mixed = (var == 0 || var == 1 || var == 4 || var == 6) && c.chance(50); auto dg = degrees(c, fmax); int cd = dg.first, fd0 = dg.second; std::vector<int> fd(nf, fd0); std::vector<bool> has(nf, true); int rd = fd0 + 1;
    bool viamesh = c.draw(2); if (mixed) { if (viamesh) cd = (int)c.range(0, rd); else { cd = (int)c.range(0, fmax); rd = (int)c.range(std::max(1, cd), fmax+1); } for (size_t f = 0; f < nf; f++) { fd[f] = (int)c.range(0, fmax); has[f] = f == 0 || c.chance(80); } }
    if (var == 7) cd = std::min(cd, fd0);
    std::string w = cat(w0, " cd=", cd, " rd=", rd, " fd="); for (size_t f = 0; f < nf; f++) w += cat(fd[f], has[f] ? "," : "(no unknowns),"); std::vector<DegreeInfo> fi; for (size_t f = 0; f < nf; f++) fi.push_back(DegreeInfo(bool(has[f]), size_t(fd[f])));
    hho_degree_info hdi(cd, fd0); CellDegreeInfo<M> cdi(size_t(cd), size_t(rd), size_t(rd), fi); MeshDegreeInfo<M> mdi(msh, size_t(cd), size_t(fd0)); for (size_t f = 0; f < nf; f++) { mdi.degree(msh, C.fcs[f], fd[f]); mdi.hasUnknowns(msh, C.fcs[f], has[f]); }
    Hyb<M,1> H(C, cd, fd, has); bool hF = c.draw(2); St<M> S{C, H, {}}; Kt K = C.spd(c); bool tens = var == 2 || var == 5; bool facesize = (var == 0 || var == 1 || var == 4 || var == 6 || var == 7) && hF; for (size_t f = 0; f < nf; f++) { double h = facesize ? C.hf[f] : C.h; auto n = C.nv(f); S.w.push_back((tens ? n.dot(K*n) : 1.0)/h); } if (facesize) w += " face diameters";
    double tol = C.tol(); Vec x = rnd(c, H.n), y = rnd(c, H.n); auto uT = [&](const Vec& v, P p) { return C.val(H.cb(), H.cell(v), p)(0); };
    auto sz = [&](const Mat& A, size_t r, size_t k, const std::string& what) { c.check((size_t)A.rows() == r && (size_t)A.cols() == k, key + "-size", cat(w, " ", what, ": ", A.rows(), "x", A.cols(), " expected ", r, "x", k)); };
    auto hdg = [&](const Vec& a, const Vec& b, double* ab) { double s = 0; for (size_t f = 0; f < nf; f++) if (has[f]) { Vec da = S.proj(f, fd[f], cd, [&](P p) { return uT(a, p); }) - H.face(a, f), db = S.proj(f, fd[f], cd, [&](P p) { return uT(b, p); }) - H.face(b, f); double t = 0; s += S.w[f]*S.energy(f, fd[f], da, db, &t); *ab += t*S.w[f]; } return s; };
    auto dgf = [&](const Vec& a, const Vec& b, double* ab) { double s = 0; for (size_t f = 0; f < nf; f++) if (has[f]) { auto fb = H.fb(f); Vec af = H.face(a, f), bf = H.face(b, f); for (auto& q : C.fq(f, 2*std::max(cd, fd[f]))) { double ta = uT(a, q.x), tb = uT(b, q.x), va = C.val(fb, af, q.x)(0), vb = C.val(fb, bf, q.x)(0); s += S.w[f]*q.w*(ta-va)*(tb-vb); *ab += S.w[f]*std::fabs(q.w)*(std::fabs(ta)+std::fabs(va))*(std::fabs(tb)+std::fabs(vb)); } } return s; };
    // promised consistency degree ku, kernel of form + stabilization
    auto consistent = [&](const Mat& St, int ku, double st, const std::string& k2) { Sum u = poly(c, ku, C.v, d); double kc; Vec v = H.interpolate({u}, ku, &kc); double tl = std::max({tol, 1e-13*kc, C.q*kc, st}); double m = std::max(St.cwiseAbs().maxCoeff(), 1e-300); c.close((St*v).norm(), 0, tl, m*(1 + v.norm()), key + k2 + "-polynomial", cat(w, " degree ", ku)); double sw = 0; for (size_t f = 0; f < nf; f++) if (has[f]) sw += S.w[f]*(d == 2 ? C.hf[f] : ref::area(C.fv[f])); c.close(v.dot(St*v), 0, tl, sw*9 + 1e-300, key + k2 + "-polynomial-energy", cat(w, " degree ", ku)); };
    auto kernel = [&](const Mat& St, const Mat& data) { if (mixed || cd > 3) return; Mat T = data + St; Vec e = eigs(T); c.check(e(0) > -1e-9, key + "-total-negative", cat(w, ": ", e(0))); c.check(e(1) > 1e-12, key + "-kernel-too-large", cat(w, ": second smallest eigenvalue ", e(1), " of ", e(e.size()-1))); };
    auto rec = [&](const Kt* k) { return k ? make_scalar_hho_laplacian(msh, cl, hdi, diffusion_tensor<M>(*k)) : make_scalar_hho_laplacian(msh, cl, hdi); };
    if (var == 0 || var == 1) {
        Mat A; if (var == 0) A = mixed ? (viamesh ? make_scalar_hdg_stabilization(msh, cl, mdi, hF) : make_scalar_hdg_stabilization(msh, cl, cdi, hF)) : make_scalar_hdg_stabilization(msh, cl, hdi, hF); else A = mixed ? (viamesh ? make_scalar_dg_stabilization(msh, cl, mdi, hF) : make_scalar_dg_stabilization(msh, cl, cdi, hF)) : make_scalar_dg_stabilization(msh, cl, hdi, hF);
        sz(A, H.n, H.n, "matrix"); spsd(c, A, tol, key, w); double ab = 0, ex = var == 0 ? hdg(x, y, &ab) : dgf(x, y, &ab); c.close(x.dot(A*y), ex, tol, ab + A.cwiseAbs().maxCoeff()*1e-2, key + "-definition", w); int mn = cd; for (size_t f = 0; f < nf; f++) if (has[f]) mn = std::min(mn, fd[f]); if (var == 0) mn = cd; consistent(A, mn, 0, ""); if (!mixed) kernel(A, rec(nullptr).second);
    } else if (var == 2) {
        Mat A = make_scalar_hdg_stabilization2(msh, cl, hdi, static_matrix<double, d, d>(K)); sz(A, H.n, H.n, "matrix"); spsd(c, A, tol, key, w); double ab = 0, ex = hdg(x, y, &ab); c.close(x.dot(A*y), ex, tol, ab + A.cwiseAbs().maxCoeff()*1e-2, key + "-definition", w); consistent(A, cd, 0, ""); kernel(A, rec(&K).second);
    } else if (var <= 5) {
        // any reconstruction matrix, then the real one
        bool harm = var == 3 && c.chance(30); int rdd = harm ? cd + 2 + (int)c.range(0, 2) : rd; auto mb = make_scalar_monomial_basis(msh, cl, rdd); auto hb = make_scalar_harmonic_top_basis(msh, cl, rdd); hb.maximum_polynomial_degree(cd+2); size_t rbs = harm ? hb.size() : mb.size(); Mat R = Mat::Zero(rbs-1, H.n); for (int i = 0; i < R.size(); i++) R(i) = c.chance(30) ? 0 : c.sym(); hho_degree_info hd2(priv::hdi_named_args{.rd = size_t(rdd), .cd = size_t(cd), .fd = size_t(fd0)});
        auto lib = [&](const Mat& r, const hho_degree_info& hh) -> Mat { if (var == 3) return harm && r.rows() == R.rows() && &hh == &hd2 ? Mat(make_scalar_hho_stabilization(msh, cl, hb, r, hh)) : Mat(make_scalar_hho_stabilization(msh, cl, r, hh)); if (var == 5) return make_scalar_hho_stabilization2(msh, cl, r, hh, static_matrix<double, d, d>(K)); return viamesh ? make_scalar_hho_stabilization(msh, cl, r, mdi, hF) : make_scalar_hho_stabilization(msh, cl, r, cdi, hF); };
        Mat A = lib(R, hd2); sz(A, H.n, H.n, "matrix"); spsd(c, A, tol, key, w);
        auto rv = [&](const Vec& a, P p) { Vec f(rbs); f(0) = 0; f.tail(rbs-1) = R*a; return harm ? C.val(hb, f, p)(0) : C.val(mb, f, p)(0); };
        auto cb = H.cb(); size_t N = H.cbs; Mat G = Mat::Zero(N, N); Vec ga = Vec::Zero(N), gb = ga; for (auto& q : C.cq(cd + std::max(cd, rdd))) { Vec p = cb.eval_functions(D<M>(q.x)); G += q.w*p*p.transpose(); ga += q.w*p*rv(x, q.x); gb += q.w*p*rv(y, q.x); } Vec pa = G.ldlt().solve(ga), pb = G.ldlt().solve(gb); double kc = cond(G);
        double ex = 0, ab = 0; for (size_t f = 0; f < nf; f++) if (has[f]) { auto del = [&](const Vec& a, const Vec& pT) { return Vec(S.proj(f, fd[f], std::max(cd, rdd), [&](P p) { return rv(a, p) + uT(a, p) - C.val(cb, pT, p)(0); }) - H.face(a, f)); }; double t = 0; ex += S.w[f]*S.energy(f, fd[f], del(x, pa), del(y, pb), &t); ab += S.w[f]*t; }
        c.close(x.dot(A*y), ex, std::max(tol, 1e-13*kc), ab + A.cwiseAbs().maxCoeff()*1e-2, key + "-definition", w);
        if (!mixed) { auto [oper, data] = rec(var == 5 ? &K : nullptr); Mat A2 = lib(oper, hdi); double sc = var == 5 ? K.norm()*K.inverse().norm() : 1.0; consistent(A2, rd, 1e-12*kc*sc, "-real"); spsd(c, A2, tol, key + "-real", w); kernel(A2, data); }
    } else if (var == 6) {
        Mat Df = mixed ? make_scalar_hho_difference(msh, cl, cdi) : make_scalar_hho_difference(msh, cl, hdi); size_t nd = 0; std::vector<size_t> od; for (size_t f = 0; f < nf; f++) { od.push_back(nd); if (has[f]) nd += bs::dimP(std::max(cd, fd[f]), d-1); } sz(Df, nd, H.n, "difference"); Vec dx = Df*x;
        for (size_t f = 0; f < nf; f++) if (has[f]) { int dd = std::max(cd, fd[f]); auto db = make_scalar_monomial_basis(msh, C.fcs[f], size_t(dd)); auto fb = H.fb(f); Vec s = dx.segment(od[f], db.size()), xf = H.face(x, f); for (auto& q : C.fq(f, 2)) { double a = C.val(fb, xf, q.x)(0), b = uT(x, q.x); c.close(C.val(db, s, q.x)(0), a - b, std::max(tol, 1e-9), 1 + std::fabs(a) + std::fabs(b) + x.lpNorm<1>(), key + "-definition", cat(w, " face ", f)); } }
        CellDegreeInfo<M> cd2 = mixed ? cdi : CellDegreeInfo<M>(msh, cl, size_t(cd), size_t(fd0), size_t(fd0)); Mat Sh = (mixed || viamesh) ? make_scalar_hdg_stabilization_diff(msh, cl, cd2, hF) : make_scalar_hdg_stabilization_diff(msh, cl, hdi, hF), Sd = make_scalar_dg_stabilization_diff(msh, cl, cd2, hF); sz(Sh, nd, nd, "hdg"); sz(Sd, nd, nd, "dg"); spsd(c, Sh, tol, key + "-hdg", w); spsd(c, Sd, tol, key + "-dg", w);
        Mat T1 = Df.transpose()*Sh*Df, T2 = Df.transpose()*Sd*Df; double a1 = 0, a2 = 0, e1 = hdg(x, y, &a1), e2 = dgf(x, y, &a2); c.close(x.dot(T1*y), e1, std::max(tol, 1e-8), a1 + T1.cwiseAbs().maxCoeff()*1e-1, key + "-hdg-definition", w); c.close(x.dot(T2*y), e2, std::max(tol, 1e-8), a2 + T2.cwiseAbs().maxCoeff()*1e-1, key + "-dg-definition", w);
        Mat F = mixed || viamesh ? make_scalar_dg_stabilization_fluxes(msh, cl, cd2, hF) : make_scalar_dg_stabilization_fluxes(msh, cl, hdi, hF); sz(F, nd, H.n, "dg fluxes"); double m = std::max(T2.cwiseAbs().maxCoeff(), 1e-300); c.close((Df.transpose()*Sd*F - T2).cwiseAbs().maxCoeff(), 0, 1e-7, m, key + "-dg-fluxes", w);
    } else {
        auto [oper, data] = rec(nullptr); Mat A = make_scalar_hho_stabilization(msh, cl, oper, CellDegreeInfo<M>(msh, cl, size_t(cd), size_t(fd0), size_t(fd0)), hF), F = make_scalar_hho_stabilization_fluxes(msh, cl, oper, hdi, hF); sz(F, H.n - H.cbs, H.n, "fluxes");
        // the stabilization is the work of the fluxes on the jumps of the test function
        double ex = 0, ab = 0; for (size_t f = 0; f < nf; f++) { auto fb = H.fb(f); Vec fl = (F*x).segment(H.ofs[f] - H.cbs, H.fbs[f]), yf = H.face(y, f); for (auto& q : C.fq(f, 2*fd0 + 1)) { double p = C.val(fb, fl, q.x)(0), a = C.val(fb, yf, q.x)(0), b = uT(y, q.x); ex += S.w[f]*q.w*p*(a - b); ab += S.w[f]*std::fabs(q.w*p)*(std::fabs(a) + std::fabs(b)); } } c.close(ex, x.dot(A.transpose()*y), std::max(1e-7, tol), ab + A.cwiseAbs().maxCoeff()*1e-1, key + "-definition", w);
    }
}
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int fmax) { size_t i = c.draw(msh.cells_size()); Cell<M> C(m, msh, cm, i); c.note << ref::describe(m) << " cell " << i; c.label(m.kind); c.nontrivial(); go(c, C, fmax, cat("cell ", i)); }
#if FAM == 1
PROP("stabilization_g2", 12000, 800000) { on_g2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 4); }); }
#elif FAM == 2
PROP("stabilization_s2", 6000, 320000) { on_s2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 4); }); }
PROP("stabilization_c2", 4000, 320000) { on_c2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 4); }); }
#elif FAM == 3
PROP("stabilization_g3", 3000, 240000) { on_g3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 2); }); }
#elif FAM == 4
PROP("stabilization_s3", 3000, 240000) { on_s3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 2); }); }
#elif FAM == 5
PROP("stabilization_c3", 2000, 240000) { on_c3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 2); }); }
#endif
