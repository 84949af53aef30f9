// H04: reconstructions and stabilizations for vector unknowns: defining problems, rigid motions or constants in the kernel and nothing else, exact polynomials.
#include "hho.hpp"
using namespace hh;
template<int d> struct Fld { std::vector<Sum> u; P at(P x) const { P r{0,0,0}; for (int a = 0; a < d; a++) r[a] = u[a](x); return r; } Mat grad(P x) const { Mat g(d, d); for (int a = 0; a < d; a++) { P t = u[a].grad(x); for (int b = 0; b < d; b++) g(a, b) = t[b]; } return g; } };
template<int d> static Fld<d> field(Ctx& c, int k, const std::vector<P>& v) { Fld<d> f; for (int a = 0; a < d; a++) f.u.push_back(poly(c, k, v, d)); return f; }
// linear field x -> t + W (x - o)
template<int d> static Fld<d> affine(const Vec& t, const Mat& W, P o) { Fld<d> f; for (int a = 0; a < d; a++) { pl::Poly p0, p1; p0.o = p1.o = o; p0.a = p0.b = p1.b = P{0,0,0}; p0.i = p0.j = p1.j = 0; p1.i = 1; p1.a = P{0,0,0}; for (int b = 0; b < d; b++) p1.a[b] = W(a, b); Sum s; s.p = {p0, p1}; s.a = {t(a), 1.0}; f.u.push_back(s); } return f; }
static Mat sym(const Mat& g) { return 0.5*(g + g.transpose()); }
static Vec eigs(const Mat& S) { Vec s = S.diagonal().cwiseAbs().cwiseSqrt(); for (int i = 0; i < s.size(); i++) s(i) = s(i) > 0 ? 1/s(i) : 0; Mat N = s.asDiagonal()*(0.5*(S+S.transpose()))*s.asDiagonal(); return Eigen::SelfAdjointEigenSolver<Mat>(N).eigenvalues(); }
template<typename M> static double accuracy(const Cell<M>& C, int rd, bool symm) { constexpr int d = M::dimension; auto rb = make_vector_monomial_basis(C.msh, C.cl, size_t(rd)); size_t n = rb.size(), l = symm ? (d == 2 ? 1 : 3) : 0; Mat S = Mat::Zero(n - d + l, n - d + l); for (auto& q : C.cq(2*(rd-1))) { auto g = rb.eval_gradients(D<M>(q.x)); for (size_t i = d; i < n; i++) { for (size_t j = d; j < n; j++) S(i-d, j-d) += q.w*(symm ? (sym(Mat(g[i])).array()*sym(Mat(g[j])).array()).sum() : (g[i].array()*g[j].array()).sum()); size_t p = 0; if (symm) for (int a = 0; a < d; a++) for (int b = a+1; b < d; b++, p++) { double t = q.w*(g[i](a,b)-g[i](b,a)); S(i-d, n-d+p) += t; S(n-d+p, i-d) += t; } } }
    Eigen::JacobiSVD<Mat> sv(S); double t = 4e-14*sv.singularValues()(0)/std::max(sv.singularValues()(S.rows()-1), 1e-300); if (!(t < 1e-4)) throw pbt::Discard(); return t; }
template<typename M> static void go(Ctx& c, const Cell<M>& C, int fmax, const std::string& w0) {
    constexpr int d = M::dimension; const M& msh = C.msh; const auto& cl = C.cl; size_t nf = C.fcs.size(); static const char* names[] = {"symmetric", "full", "hho-stabilization", "hdg", "dg", "hho-optim"}; int var = (int)c.draw(6); std::string key = names[var]; c.label(key);
    bool mixed = c.chance(40), viamesh = c.draw(2), hF = c.draw(2); auto dg = degrees(c, fmax); int cd = dg.first, fd0 = dg.second, rd = fd0+1; std::vector<int> fd(nf, fd0); std::vector<bool> has(nf, true);
    bool celldeg = mixed && !viamesh && (var == 0 || var == 2); if (mixed && !celldeg) viamesh = true;
    if (mixed) { if (celldeg) { cd = (int)c.range(0, fmax); rd = (int)c.range(std::max(1, cd), fmax+1); } else cd = (int)c.range(0, rd); for (size_t f = 0; f < nf; f++) { fd[f] = (int)c.range(0, fmax); has[f] = f == 0 || c.chance(80); } }
    std::vector<DegreeInfo> fi; std::string w = cat(w0, " cd=", cd, " rd=", rd, " fd="); for (size_t f = 0; f < nf; f++) { fi.push_back(DegreeInfo(bool(has[f]), size_t(fd[f]))); w += cat(fd[f], has[f] ? "," : "(no unknowns),"); } if (hF) w += " face diameters";
    hho_degree_info hdi(cd, fd0); CellDegreeInfo<M> cdi(size_t(cd), size_t(rd), size_t(rd), fi); MeshDegreeInfo<M> mdi(msh, size_t(cd), size_t(fd0)); for (size_t f = 0; f < nf; f++) { mdi.degree(msh, C.fcs[f], fd[f]); mdi.hasUnknowns(msh, C.fcs[f], has[f]); }
    bool mesh = viamesh, usecell = celldeg; Hyb<M,d> H(C, cd, fd, has); double tol = C.tol(); size_t nd = H.n; auto rb = make_vector_monomial_basis(msh, cl, size_t(rd)); size_t rbs = rb.size(); auto full = [&](const Vec& v) { Vec f = Vec::Zero(rbs); f.tail(rbs-d) = v; return f; };
    bool symm = var == 0 || (var == 2 && c.draw(2)); int mf = 99, mn = cd; for (size_t f = 0; f < nf; f++) { if (has[f]) { mf = std::min(mf, fd[f]); mn = std::min(mn, fd[f]); } else mf = -1; } bool exact = mf >= rd-1 && cd >= rd-2; int ku = exact ? rd : std::min(mn, rd);
    auto rec = [&](bool s) -> std::pair<Mat, Mat> { if (s) return usecell ? make_vector_hho_symmetric_laplacian(msh, cl, cdi) : mesh ? make_vector_hho_symmetric_laplacian(msh, cl, mdi) : make_vector_hho_symmetric_laplacian(msh, cl, hdi);
        if (usecell) { auto sc = make_scalar_hho_laplacian(msh, cl, cdi); return {priv::compute_grad_vector(msh, cl, cdi, sc.first), priv::compute_lhs_vector(msh, cl, cdi, sc.second)}; }
        if (mesh) return c.draw(2) ? make_vector_hho_laplacian(msh, cl, mdi) : make_vector_hho_laplacian(msh, cl, mdi, make_scalar_hho_laplacian(msh, cl, mdi)); return c.draw(2) ? make_vector_hho_laplacian(msh, cl, hdi) : make_vector_hho_laplacian(msh, cl, hdi, make_scalar_hho_laplacian(msh, cl, hdi)); };
    auto motion = [&]() { Mat W = Mat::Zero(d, d); for (int a = 0; a < d; a++) for (int b = a+1; b < d; b++) { W(a, b) = c.sym()/C.h; W(b, a) = -W(a, b); } return affine<d>(rnd(c, d), W, C.v[0]); };
    double kc = 1; Vec x = rnd(c, nd), y = rnd(c, nd);
    if (var <= 1) {
        double st = std::max(tol, accuracy(C, rd, symm)); auto [oper, data] = rec(symm); c.check((size_t)oper.rows() == rbs-d && (size_t)oper.cols() == nd, key + "-operator-size", cat(w, ": ", oper.rows(), "x", oper.cols())); c.check((size_t)data.rows() == nd && (size_t)data.cols() == nd, key + "-form-size", w); auto E = [&](const Vec& f, P p) { Mat g = C.grad(rb, f, p); return symm ? sym(g) : g; };
        Vec t = full(rnd(c, rbs-d)), rx = full(oper*x), ry = full(oper*y); double lhs = 0, a1 = 0, a2 = 0, exy = 0, e1 = 0; Mat sk = Mat::Zero(d, d); double gn = 0; for (auto& q : C.cq(2*(rd-1))) { Mat gx = E(rx, q.x), gy = E(ry, q.x), gt = E(t, q.x); lhs += q.w*(gx.array()*gt.array()).sum(); a1 += q.w*gx.norm()*gt.norm(); exy += q.w*(gx.array()*gy.array()).sum(); e1 += q.w*gx.norm()*gy.norm(); Mat g = C.grad(rb, rx, q.x); sk += q.w*(g - g.transpose()); gn += q.w*g.norm(); }
        double rhs = H.gradrhs(x, [&](P p) -> Mat { return E(t, p); }, rd-1, &a2); c.close(lhs, rhs, st, a1 + a2, key + "-definition", w); if (symm) c.close(sk.norm(), 0, st, gn + 1e-300, key + "-mean-rotation", w); double m = spsd(c, data, st, key + "-form", w); c.close(x.dot(data*y), exy, st, e1 + m*x.norm()*y.norm(), key + "-form-energy", w);
        auto f = field<d>(c, ku, C.v); Vec v = H.interpolate(f.u, ku, &kc), r = full(oper*v); double tl = std::max({tol, 1e-13*kc, C.q*kc, st}); for (int i = 0; i < 2; i++) { P p = C.at(c); Mat a = E(r, p), b = f.grad(p); if (symm) b = sym(b); c.close((a-b).norm()*C.h, 0, tl, 3 + 3*d, key + "-reproduces", cat(w, " degree ", ku)); } double ex = 0, s = 0; for (auto& q : C.cq(2*std::max(0, ku-1))) { Mat b = f.grad(q.x); if (symm) b = sym(b); ex += q.w*b.squaredNorm(); s += q.w*b.squaredNorm(); } c.close(v.dot(data*v), ex, tl, s + C.A/C.h/C.h, key + "-energy", cat(w, " degree ", ku));
        Vec ct = H.constant(rnd(c, d)); c.close((data*ct).norm(), 0, tl, m*(1 + ct.norm()), key + "-form-constants", w); if (symm && (exact || mn >= 1)) { auto rm = motion(); Vec z = H.interpolate(rm.u, 1, &kc); c.close((data*z).norm(), 0, std::max(st, 1e-13*kc), m*(1 + z.norm()), key + "-form-rigid", w); }
        return;
    }
    auto weight = [&](size_t f) { bool face = var == 5 && !mesh ? false : hF; return 1/(face ? C.hf[f] : C.h); }; auto cb = H.cb(); size_t N = H.cbs; Mat R, S, rdata;
    // L2 projection on a face and energies
    auto proj = [&](size_t f, int gd, auto g) { auto b = H.fb(f); size_t n = b.size(); Mat G = Mat::Zero(n, n); Vec r = Vec::Zero(n); for (auto& q : C.fq(f, fd[f] + std::max(fd[f], gd))) { auto p0 = b.eval_functions(D<M>(q.x)); Mat p = p0; G += q.w*p*p.transpose(); r += q.w*p*g(q.x); } return Vec(G.ldlt().solve(r)); };
    auto dot = [&](size_t f, const Vec& a, const Vec& b, double& ab) { auto B = H.fb(f); double s = 0; for (auto& q : C.fq(f, 2*fd[f])) { double t = C.val(B, a, q.x).dot(C.val(B, b, q.x)); s += q.w*t; ab += q.w*std::fabs(t); } return s; };
    double ex = 0, ab = 0, extra = 1, st = 0;
    if (var == 2 || var == 5) {
        bool real = c.draw(2); if (var == 5) { size_t sr = bs::dimP(rd, d); Mat sc; std::pair<Mat, Mat> lap; if (real) { lap = mesh ? make_scalar_hho_laplacian(msh, cl, mdi) : make_scalar_hho_laplacian(msh, cl, hdi); sc = lap.first; } else { sc = Mat(sr-1, nd/d); for (int i = 0; i < sc.size(); i++) sc(i) = c.chance(30) ? 0 : c.sym(); } R = Mat::Zero((sr-1)*d, nd); for (int i = 0; i < sc.rows(); i++) for (int j = 0; j < sc.cols(); j++) for (int k = 0; k < d; k++) R(i*d+k, j*d+k) = sc(i, j); S = mesh ? make_vector_hho_stabilization_optim(msh, cl, sc, mdi, hF) : make_vector_hho_stabilization_optim(msh, cl, sc, hdi, hF); if (real) { rdata = Mat::Zero(nd, nd); for (size_t i = 0; i < nd/d; i++) for (size_t j = 0; j < nd/d; j++) for (int k = 0; k < d; k++) rdata(i*d+k, j*d+k) = lap.second(i, j); } }
        else { if (real) { auto r = rec(symm); R = r.first; rdata = r.second; } else { R = Mat(rbs-d, nd); for (int i = 0; i < R.size(); i++) R(i) = c.chance(30) ? 0 : c.sym(); } S = usecell ? make_vector_hho_stabilization(msh, cl, R, cdi, hF) : mesh ? make_vector_hho_stabilization(msh, cl, R, mdi, hF) : make_vector_hho_stabilization(msh, cl, R, hdi, hF); }
        auto cell = [&](const Vec& a) { Vec f = full(R*a), g = Vec::Zero(N); Mat G = Mat::Zero(N, N); for (auto& q : C.cq(cd + std::max(cd, rd))) { auto p0 = cb.eval_functions(D<M>(q.x)); Mat p = p0; G += q.w*p*p.transpose(); g += q.w*p*C.val(rb, f, q.x); } extra = cond(G); return Vec(G.ldlt().solve(g)); };
        Vec px = cell(x), py = cell(y), fx = full(R*x), fy = full(R*y); for (size_t f = 0; f < nf; f++) if (has[f]) { auto del = [&](const Vec& a, const Vec& pT, const Vec& fr) { return Vec(proj(f, std::max(cd, rd), [&](P p) -> Vec { return C.val(rb, fr, p) + C.val(cb, H.cell(a), p) - C.val(cb, pT, p); }) - H.face(a, f)); }; double t = 0; ex += weight(f)*dot(f, del(x, px, fx), del(y, py, fy), t); ab += weight(f)*t; }
        if (real) { st = accuracy(C, rd, symm); } else R.resize(0, 0);
    } else {
        bool hdg = var == 3; S = hdg ? (mesh ? make_vector_hdg_stabilization(msh, cl, mdi, hF) : make_vector_hdg_stabilization(msh, cl, hdi, hF)) : (mesh ? make_vector_dg_stabilization(msh, cl, mdi, hF) : make_vector_dg_stabilization(msh, cl, hdi, hF));
        for (size_t f = 0; f < nf; f++) if (has[f]) { double t = 0; if (hdg) { auto del = [&](const Vec& a) { return Vec(proj(f, cd, [&](P p) { return C.val(cb, H.cell(a), p); }) - H.face(a, f)); }; ex += weight(f)*dot(f, del(x), del(y), t); ab += weight(f)*t; } else { auto fb = H.fb(f); for (auto& q : C.fq(f, 2*std::max(cd, fd[f]))) { Vec tx = C.val(cb, H.cell(x), q.x) - C.val(fb, H.face(x, f), q.x), ty = C.val(cb, H.cell(y), q.x) - C.val(fb, H.face(y, f), q.x); ex += weight(f)*q.w*tx.dot(ty); ab += weight(f)*q.w*tx.norm()*ty.norm(); } } }
        auto r = mesh ? make_vector_hho_laplacian(msh, cl, mdi) : make_vector_hho_laplacian(msh, cl, hdi); R = r.first; rdata = r.second;
    }
    c.check((size_t)S.rows() == nd && (size_t)S.cols() == nd, key + "-size", cat(w, ": ", S.rows(), "x", S.cols())); double sw = 0; for (size_t g = 0; g < nf; g++) if (has[g]) sw += weight(g)*(d == 2 ? C.hf[g] : ref::area(C.fv[g])); double m = S.cwiseAbs().maxCoeff(); if (m > 1e-9*sw) spsd(c, S, tol, key, w); m = std::max(m, sw*1e-3); c.close(x.dot(S*y), ex, std::max(tol, 1e-13*extra), ab + m*1e-2, key + "-definition", w);
    if (!R.size()) return;
    // polynomials of the promised degree
    int kp = var == 3 ? cd : var == 4 ? mn : ku; bool ok = !(var == 2 && symm && cd < 1 && kp >= 1); if (var == 2 || var == 5) { if (!exact && !(mn >= rd)) kp = std::min({mn, rd}); } if (!ok) kp = 0;
    auto f = field<d>(c, kp, C.v); Vec v = H.interpolate(f.u, kp, &kc); double tl = std::max({tol, 1e-13*kc, C.q*kc, st*kc}); c.close((S*v).norm(), 0, tl, m*(1 + v.norm()), key + "-polynomial", cat(w, " degree ", kp));
    c.close(v.dot(S*v), 0, tl, sw*9*d + 1e-300, key + "-polynomial-energy", cat(w, " degree ", kp));
    // kernel of the whole local form
    if (mixed || cd > 2 || (symm && (fd0 < 1 || cd < 1))) return; Mat T = rdata + S; Vec e = eigs(T); int nk = symm ? (d == 2 ? 3 : 6) : d; c.check(e(0) > -1e-9, key + "-total-negative", cat(w, ": ", e(0))); if (std::max(st, kc*1e-13) < 1e-10) c.check(e(nk) > 1e-12, key + "-kernel-too-large", cat(w, ": eigenvalue ", nk, " is ", e(nk), " of ", e(e.size()-1)));
    if (symm) { auto rm = motion(); Vec z = H.interpolate(rm.u, 1, &kc); c.close((T*z).norm(), 0, tl, T.cwiseAbs().maxCoeff()*(1 + z.norm()), key + "-rigid", w); }
}
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int fmax) { size_t i = c.draw(msh.cells_size()); Cell<M> C(m, msh, cm, i); c.note << ref::describe(m) << " cell " << i; c.label(m.kind); c.nontrivial(); go(c, C, fmax, cat("cell ", i)); }
#if FAM == 1
PROP("vector_g2", 20000, 250000) { on_g2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 3); }); }
#elif FAM == 2
PROP("vector_s2", 8000, 120000) { on_s2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 3); }); }
PROP("vector_c2", 6000, 120000) { on_c2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 3); }); }
#elif FAM == 3
PROP("vector_g3", 2800, 60000) { on_g3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 1); }); }
#elif FAM == 4
PROP("vector_s3", 3200, 60000) { on_s3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 1); }); }
#elif FAM == 5
PROP("vector_c3", 2000, 60000) { on_c3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 1); }); }
#endif
