// H05: gradient and divergence reconstructions: defining identity on any hybrid unknown, commutation with the L2 projection, exact polynomials.
#include "hho.hpp"
using namespace hh;
static Mat sym(const Mat& g) { return 0.5*(g + g.transpose()); }
template<typename M> static void go(Ctx& c, const Cell<M>& C, int fmax, const std::string& w0) {
    static constexpr int d = M::dimension; using Kt = typename Cell<M>::Kt; const M& msh = C.msh; const auto& cl = C.cl; size_t nf = C.fcs.size(); static const char* names[] = {"gradient", "gradient-tensor", "rt", "rt-tensor", "matrix", "symmetric", "symmetric-rt", "divergence"}; int var = (int)c.draw(8); if (C.v.size() != size_t(d+1) || nf != size_t(d+1)) { if (var == 2) var = 0; if (var == 3) var = 1; if (var == 6) var = 5; } std::string key = names[var]; c.label(key);
    bool rt = var == 2 || var == 3 || var == 6; int how = (int)c.draw(3); if (var == 6) how = 0; if ((var == 1 || var == 2 || var == 3 || var == 4) && how == 1) how = 2; // 0 hho_degree_info, 1 cell degrees, 2 mesh degrees
    auto [cd, fd0] = degrees(c, fmax); int gd = fd0; std::vector<int> fd(nf, fd0); std::vector<bool> has(nf, true); if (how == 0) { if (c.chance(30)) gd = fd0 + (int)c.range(0, 2); if (rt) { gd = (int)c.range(std::max(1, fd0), fd0+1); } }
    else { if (how == 1) gd = (int)c.range(0, fmax+1); cd = (int)c.range(0, fmax+1); if (rt && how == 2) fd0 = std::max(fd0, 1), gd = fd0; bool all = c.chance(50); for (size_t f = 0; f < nf; f++) { fd[f] = c.chance(50) ? std::max(gd, 0) : (int)c.range(0, fmax); has[f] = all || c.chance(70); } }
    std::string w = cat(w0, " cd=", cd, " gd=", gd, " fd="); std::vector<DegreeInfo> fi; for (size_t f = 0; f < nf; f++) { fi.push_back(DegreeInfo(bool(has[f]), size_t(fd[f]))); w += cat(fd[f], has[f] ? "," : "(no unknowns),"); } static const char* hn[] = {"", " cell degrees", " mesh degrees"}; w += hn[how];
    hho_degree_info hdi(cd, fd0, gd); CellDegreeInfo<M> cdi(size_t(cd), size_t(fd0+1), size_t(gd), fi); MeshDegreeInfo<M> mdi(msh, size_t(cd), size_t(fd0), size_t(gd)); if (how == 2) for (size_t f = 0; f < nf; f++) { mdi.degree(msh, C.fcs[f], fd[f]); mdi.hasUnknowns(msh, C.fcs[f], has[f]); }
    int mf = 99, mn = cd; for (size_t f = 0; f < nf; f++) { if (has[f]) { mf = std::min(mf, fd[f]); mn = std::min(mn, fd[f]); } else mf = -1; }
    double tol = C.tol(); Kt K = C.spd(c); auto kf = [K](const typename M::point_type&) { return K; };
    auto judge = [&](auto& H, const auto& gb, int comps, auto field, auto value, bool sy, const Mat& oper, const Mat& data, const Mat& kk, bool rank2) {
        // field(coefficients, point): comps x d matrix (or 1x1 for the divergence)
        size_t nd = H.n, gbs = gb.size(); c.check((size_t)oper.rows() == gbs && (size_t)oper.cols() == nd, key + "-operator-size", cat(w, ": ", oper.rows(), "x", oper.cols(), " expected ", gbs, "x", nd)); c.check((size_t)data.rows() == nd && (size_t)data.cols() == nd, key + "-form-size", w);
        Mat G = Mat::Zero(gbs, gbs); auto bas = [&](P p) { Mat r(gbs, rank2 ? comps*d : 1); for (size_t i = 0; i < gbs; i++) { Vec e = Vec::Zero(gbs); e(i) = 1; Mat f = field(e, p); r.row(i) = f.reshaped().transpose(); } return r; }; for (auto& q : C.cq(2*gd)) { Mat b = bas(q.x); G += q.w*b*b.transpose(); } double kg = cond(G); if (!(kg < 1e10)) throw pbt::Discard(); double st = std::max(tol, 2e-14*kg);
        Vec x = rnd(c, nd), y = rnd(c, nd), t = rnd(c, gbs), gx = oper*x, gy = oper*y; auto div = [&](P p) { return Mat(field(t, p)); }; double lhs = 0, a1 = 0, a2 = 0, e = 0, e1 = 0;
        for (auto& q : C.cq(2*gd)) { Mat fx = field(gx, q.x), fy = field(gy, q.x), ft = field(t, q.x); lhs += q.w*(fx.array()*ft.array()).sum(); a1 += q.w*fx.norm()*ft.norm(); Mat kx = fx; if (rank2 && sy) kx = sym(fx); else if (rank2) kx = fx*kk; e += q.w*(kx.array()*fy.array()).sum(); e1 += q.w*kx.norm()*fy.norm(); }
        double rhs; if (rank2) rhs = H.gradrhs(x, div, gd, &a2); else rhs = H.gradrhs(x, [&](P p) -> Mat { return div(p)(0, 0)*Mat::Identity(d, d); }, gd, &a2);
        c.close(lhs, rhs, st, a1 + a2 + 0.1*C.A/C.h*x.norm()*t.norm(), key + "-definition", w); double m = data.cwiseAbs().maxCoeff(), m0 = C.A/C.h/C.h*1e-3; if (m > 1e-6*m0) spsd(c, data, st, key + "-form", w); m = std::max(m, m0); c.close(x.dot(data*y), e, st, e1 + m*x.norm()*y.norm(), key + "-form-energy", w);
        // commutation with the projection and exactness
        bool commute = mf >= (rt && var != 6 ? gd-1 : gd) && cd >= gd-1; int ku = commute ? (int)c.range(0, gd+3) : std::min(mn, (int)c.range(0, gd+3)); value.gen(ku); double kc; Vec v = H.interpolate(value.u, ku, &kc), gv = oper*v; double tl = std::max({tol, 1e-13*kc, C.q*kc, st}); double s = 0, a = 0; for (auto& q : C.cq(std::max(0, ku-1) + gd)) { Mat g = field(gv, q.x), z = value(q.x), ft = field(t, q.x); s += q.w*((g-z).array()*ft.array()).sum(); a += q.w*(g.norm()+z.norm())*ft.norm(); } c.close(s, 0, tl, a + C.A/C.h*t.norm(), key + "-commutation", cat(w, " degree ", ku));
        int full = rt ? gd : gd+1; if (ku <= full) for (int i = 0; i < 2; i++) { P p = C.at(c); c.close((field(gv, p) - value(p)).norm()*C.h, 0, tl, 3.0 + 3*comps, key + "-reproduces", cat(w, " degree ", ku)); }
        Vec one = H.constant(rnd(c, comps)); c.close((data*one).norm(), 0, std::max(tl, 1e-12), m*(1 + one.norm()), key + "-form-constants", w);
    };
    struct Val { Ctx& c; const Cell<M>& C; int comps, kind; std::vector<Sum> u; void gen(int k) { u.clear(); for (int i = 0; i < comps; i++) u.push_back(poly(c, k, C.v, d)); } Mat operator()(P p) const { Mat g(comps, d); for (int i = 0; i < comps; i++) { P t = u[i].grad(p); for (int b = 0; b < d; b++) g(i, b) = t[b]; } if (kind == 1) return sym(g); if (kind == 2) { Mat r(1, 1); r(0, 0) = g.trace(); return r; } return g; } };
    auto gval = [&](const auto& gb) { return [&](const Vec& a, P p) -> Mat { auto f = gb.eval_functions(D<M>(p)); if constexpr (requires { f.rows(); }) { Mat F = f; return a.transpose()*F; } else { Mat r = Mat::Zero(d, d); for (size_t i = 0; i < f.size(); i++) r += a(i)*f[i]; return r; } }; };
    Mat I = Mat::Identity(d, d);
    if (var <= 3) {
        Hyb<M,1> H(C, cd, fd, has); Val v{c, C, 1, 0, {}}; std::pair<Mat, Mat> r; bool T = var == 1 || var == 3; Mat k = T ? Mat(K) : I;
        if (var == 0) r = how == 0 ? make_vector_hho_gradrec(msh, cl, hdi) : how == 1 ? make_vector_hho_gradrec(msh, cl, cdi) : make_vector_hho_gradrec(msh, cl, mdi);
        if (var == 1) r = how == 0 ? make_vector_hho_gradrec(msh, cl, hdi, kf) : make_vector_hho_gradrec(msh, cl, mdi, kf); if (var == 2) r = how == 0 ? make_vector_hho_gradrec_RT(msh, cl, hdi) : make_vector_hho_gradrec_RT(msh, cl, mdi); if (var == 3) r = how == 0 ? make_vector_hho_gradrec_RT(msh, cl, hdi, kf) : make_vector_hho_gradrec_RT(msh, cl, mdi, kf);
        if (rt) { auto gb = make_vector_monomial_basis_RT(msh, cl, gd); judge(H, gb, 1, gval(gb), v, false, r.first, r.second, k, true); } else { auto gb = make_vector_monomial_basis(msh, cl, gd); judge(H, gb, 1, gval(gb), v, false, r.first, r.second, k, true); }
    } else if (var <= 6) {
        Hyb<M,d> H(C, cd, fd, has); Val v{c, C, d, var >= 5 ? 1 : 0, {}}; std::pair<Mat, Mat> r;
        if (var == 4) { r = how == 0 ? make_matrix_hho_gradrec(msh, cl, hdi) : make_matrix_hho_gradrec(msh, cl, mdi); auto gb = make_matrix_monomial_basis(msh, cl, gd); bool s = how == 0 && c.chance(50); if (s) { auto r2 = make_matrix_hho_symmetric_gradrec(msh, cl, hdi, r.first); c.check((Mat(r2.first) - r.first).norm() == 0, "symmetrized-operator", w); r = r2; key = "symmetrized"; } judge(H, gb, d, gval(gb), v, s, r.first, r.second, I, true); }
        if (var == 5) { r = how == 0 ? make_matrix_hho_symmetric_gradrec(msh, cl, hdi) : how == 1 ? make_matrix_hho_symmetric_gradrec(msh, cl, cdi) : make_matrix_hho_symmetric_gradrec(msh, cl, mdi); auto gb = make_sym_matrix_monomial_basis(msh, cl, gd); judge(H, gb, d, gval(gb), v, true, r.first, r.second, I, true); }
        if (var == 6) { r = make_matrix_hho_symmetric_gradrec_RT(msh, cl, hdi); auto gb = make_sym_matrix_monomial_basis_RT(msh, cl, gd); judge(H, gb, d, gval(gb), v, true, r.first, r.second, I, true); }
    } else {
        Hyb<M,d> H(C, cd, fd, has); Val v{c, C, d, 2, {}}; auto r = how == 0 ? make_hho_divergence_reconstruction(msh, cl, hdi) : how == 1 ? make_hho_divergence_reconstruction(msh, cl, cdi) : make_hho_divergence_reconstruction(msh, cl, mdi); Mat rh = how == 0 ? make_hho_divergence_reconstruction_rhs(msh, cl, hdi) : how == 1 ? make_hho_divergence_reconstruction_rhs(msh, cl, cdi) : make_hho_divergence_reconstruction_rhs(msh, cl, mdi);
        auto gb = make_scalar_monomial_basis(msh, cl, gd); judge(H, gb, d, [&](const Vec& a, P p) -> Mat { Mat o(1, 1); o(0, 0) = C.val(gb, a, p)(0); return o; }, v, false, r.first, r.second, I, false);
        Vec x = rnd(c, H.n), t = rnd(c, gb.size()); double ab = 0, ex = H.gradrhs(x, [&](P p) -> Mat { return C.val(gb, t, p)(0)*I; }, gd, &ab); ab += 0.1*C.A/C.h*x.norm()*t.norm(); c.check((size_t)rh.rows() == gb.size() && (size_t)rh.cols() == H.n, key + "-rhs-size", w); c.close(t.dot(rh*x), ex, tol, ab + rh.norm()*1e-3, key + "-rhs", w);
    }
}
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int fmax) { size_t i = c.draw(msh.cells_size()); Cell<M> C(m, msh, cm, i); c.note << ref::describe(m) << " cell " << i; c.label(m.kind); c.nontrivial(); go(c, C, fmax, cat("cell ", i)); }
#if FAM == 1
PROP("gradient_g2", 8000, 500000) { on_g2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 3); }); }
#elif FAM == 2
PROP("gradient_s2", 4000, 240000) { on_s2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 3); }); }
PROP("gradient_c2", 4000, 240000) { on_c2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 3); }); }
#elif FAM == 3
PROP("gradient_g3", 1000, 60000) { on_g3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 1); }); }
#elif FAM == 4
PROP("gradient_s3", 1000, 60000) { on_s3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 1); }); }
#elif FAM == 5
PROP("gradient_c3", 1000, 60000) { on_c3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 1); }); }
#endif
