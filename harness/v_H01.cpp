// H01: potential reconstructions satisfy their defining problem on any hybrid unknown, reproduce polynomials, and give symmetric non-negative forms that vanish on constants.
#include "hho.hpp"
using namespace hh;

// accuracy lost in solving with the stiffness matrix of the reconstruction basis
template<typename M, typename RB, typename K> static double solvetol(const Cell<M>& C, const RB& rb, int rd, const K& k) { size_t n = rb.size(); Mat S = Mat::Zero(n-1, n-1); for (auto& q : C.cq(2*(rd-1))) { auto g0 = rb.eval_gradients(D<M>(q.x)); Mat g = g0; g = g.bottomRows(n-1).eval(); S += q.w*(g*k.transpose())*g.transpose(); } Eigen::SelfAdjointEigenSolver<Mat> es(S); double t = 2e-14*es.eigenvalues()(n-2)/std::max(es.eigenvalues()(0), 1e-300); if (!(t < 1e-4)) throw pbt::Discard(); return t; }
// rb: reconstruction basis (constant first); oper/data returned by the library
// W: weak right hand side for x tested with K grad(w), with its scale
template<typename M, typename RB, typename K, typename W> static double definition(Ctx& c, const Cell<M>& C, const RB& rb, int rd, const K& k, const Mat& oper, const Mat& data, size_t nd, W weak, const std::string& key, const std::string& w) {
    size_t rbs = rb.size(); c.check((size_t)oper.rows() == rbs-1 && (size_t)oper.cols() == nd, key + "-operator-size", cat(w, ": ", oper.rows(), "x", oper.cols(), " expected ", rbs-1, "x", nd)); c.check((size_t)data.rows() == nd && (size_t)data.cols() == nd, key + "-form-size", w);
    Vec x = rnd(c, nd), y = rnd(c, nd), t = rnd(c, rbs-1), rx = oper*x, ry = oper*y; auto full = [&](const Vec& v) { Vec f(rbs); f(0) = 0; f.tail(rbs-1) = v; return f; };
    auto G = [&](const Vec& v, P p) -> Mat { return C.grad(rb, full(v), p); };
    double st = std::max(C.tol(), solvetol(C, rb, rd, k)), lhs = 0, a1 = 0, a2 = 0, e1 = 0, exy = 0; for (auto& q : C.cq(2*(rd-1))) { Mat gx = G(rx, q.x), gy = G(ry, q.x), gt = G(t, q.x); Mat kx = gx*k.transpose(); double s = q.w*(kx.array()*gt.array()).sum(); lhs += s; a1 += std::fabs(q.w)*kx.norm()*gt.norm(); double u = q.w*(kx.array()*gy.array()).sum(); exy += u; e1 += std::fabs(q.w)*kx.norm()*gy.norm(); }
    double rhs = weak(x, [&](P p) -> Mat { return G(t, p)*k.transpose(); }, rd-1, &a2); c.close(lhs, rhs, st, a1 + a2, key + "-definition", w);
    double m = spsd(c, data, st, key + "-form", w); c.close(x.dot(data*y), exy, st, e1 + m*x.norm()*y.norm(), key + "-form-energy", w); return st;
}
template<typename M, typename RB, typename K> static void reproduces(Ctx& c, const Cell<M>& C, const RB& rb, const K& k, const Hyb<M,1>& H, const Mat& oper, const Mat& data, int ku, double extra, double st, const std::string& key, const std::string& w) {
    Sum u = poly(c, ku, C.v, M::dimension); double kc; Vec x = H.interpolate({u}, ku, &kc), full(rb.size()); full(0) = 0; full.tail(rb.size()-1) = oper*x; double tol = std::max({C.tol(), 1e-13*kc*extra, C.q*kc, st});
    for (int i = 0; i < 2; i++) { P p = C.at(c); P g = u.grad(p); Mat r = C.grad(rb, full, p); for (int a = 0; a < M::dimension; a++) c.close(r(0, a)*C.h, g[a]*C.h, tol, 3, key + "-reproduces", cat(w, " polynomial of degree ", ku, " direction ", a)); }
    double ex = 0, s = 0; for (auto& q : C.cq(2*std::max(0, ku-1))) { P g = u.grad(q.x); Vec gv(int(M::dimension)); for (int a = 0; a < M::dimension; a++) gv(a) = g[a]; ex += q.w*gv.dot(Mat(k)*gv); s += q.w*gv.squaredNorm(); }
    c.close(x.dot(data*x), ex, tol, k.norm()*(s + C.A/C.h/C.h), key + "-energy", cat(w, " polynomial of degree ", ku));
    // constants
    Vec one = H.constant(Vec::Constant(1, 1.0)); c.close((oper*one).norm(), 0, tol, 1 + oper.norm()*1e-2, key + "-constants", w); c.close((data*one).norm(), 0, tol, data.norm() + 1e-300, key + "-form-constants", w);
}
// elliptic projection of polynomials beyond the reconstruction space
template<typename M, typename RB, typename K> static void elliptic(Ctx& c, const Cell<M>& C, const RB& rb, int rd, const K& k, const Hyb<M,1>& H, const Mat& oper, int hi, const std::string& key, const std::string& w) {
    Sum u = poly(c, hi, C.v, M::dimension); double kc; Vec x = H.interpolate({u}, hi, &kc), full(rb.size()), t(rb.size()); full(0) = 0; full.tail(rb.size()-1) = oper*x; t << 0, rnd(c, rb.size()-1); double s = 0, a = 0;
    for (auto& q : C.cq(hi + rd - 2)) { Mat e = C.grad(rb, full, q.x); P g = u.grad(q.x); double n0 = e.norm() + ref::norm(g); for (int i = 0; i < M::dimension; i++) e(0, i) -= g[i]; Mat kt = C.grad(rb, t, q.x)*k.transpose(); s += q.w*(e.array()*kt.array()).sum(); a += std::fabs(q.w)*n0*kt.norm(); }
    c.close(s, 0, std::max({C.tol(), 1e-13*kc*100, C.q*kc}), a, key + "-elliptic-projection", cat(w, " polynomial of degree ", hi));
}
template<typename M> static void go(Ctx& c, const Cell<M>& C, int fmax, const std::string& w0) {
    constexpr int d = M::dimension; using Kt = typename Cell<M>::Kt; const M& msh = C.msh; const auto& cl = C.cl; size_t nf = C.fcs.size();
    int var = (int)c.draw(8); static const char* names[] = {"standard", "tensor", "per-face", "mesh-degrees", "face-projection", "harmonic", "face-projection-harmonic", "stabilization-free"}; std::string key = names[var]; c.label(key);
    if (var == 0 || var == 1) {
        auto [cd, fd] = degrees(c, fmax); hho_degree_info hdi(cd, fd); int rd = fd+1; c.check((int)hdi.cell_degree() == cd && (int)hdi.face_degree() == fd && (int)hdi.reconstruction_degree() == rd, key + "-degrees", w0); Kt k = var ? C.spd(c) : Kt(Kt::Identity()); std::string w = cat(w0, " cd=", cd, " fd=", fd); Hyb<M,1> H(C, cd, std::vector<int>(nf, fd));
        auto [oper, data] = var ? make_scalar_hho_laplacian(msh, cl, hdi, diffusion_tensor<M>(k)) : make_scalar_hho_laplacian(msh, cl, hdi); auto rb = make_scalar_monomial_basis(msh, cl, rd);
        double st = definition(c, C, rb, rd, k, oper, data, H.n, [&](const Vec& x, auto tau, int td, double* a) { return H.gradrhs(x, tau, td, a); }, key, w); reproduces(c, C, rb, k, H, oper, data, (int)c.range(0, rd), k.norm(), st, key, w); elliptic(c, C, rb, rd, k, H, oper, rd + 1 + (int)c.draw(2), key, w);
    } else if (var == 2 || var == 3) {
        int cd = (int)c.range(0, fmax), rd = (int)c.range(std::max(1, cd), fmax+1); std::vector<int> fd; std::vector<bool> has; std::vector<DegreeInfo> fi; bool allhas = c.chance(50); int mn = cd, mf = 99; for (size_t f = 0; f < nf; f++) { fd.push_back((int)c.range(0, fmax)); has.push_back(allhas || c.chance(70)); if (has[f]) { mn = std::min(mn, fd[f]); mf = std::min(mf, fd[f]); } else mf = -1; fi.push_back(DegreeInfo(has[f], size_t(fd[f]))); }
        std::pair<Mat, Mat> r; Kt k = Kt::Identity();
        if (var == 2) r = make_scalar_hho_laplacian(msh, cl, CellDegreeInfo<M>(size_t(cd), size_t(rd), size_t(rd), fi)); else { int f = (int)c.range(0, fmax); rd = f+1; cd = (int)c.range(0, rd); MeshDegreeInfo<M> mdi(msh, cd, f); for (size_t q = 0; q < nf; q++) { mdi.degree(msh, C.fcs[q], fd[q]); mdi.hasUnknowns(msh, C.fcs[q], has[q]); } mn = std::min(mn, cd); mn = cd; for (size_t q = 0; q < nf; q++) if (has[q]) mn = std::min(mn, fd[q]); r = make_scalar_hho_laplacian(msh, cl, mdi); }
        std::string w = cat(w0, " cd=", cd, " rd=", rd, " fd="); for (size_t f = 0; f < nf; f++) w += cat(fd[f], has[f] ? "," : "(no unknowns),"); Hyb<M,1> H(C, cd, fd, has); auto rb = make_scalar_monomial_basis(msh, cl, rd);
        double st = definition(c, C, rb, rd, k, r.first, r.second, H.n, [&](const Vec& x, auto tau, int td, double* a) { return H.gradrhs(x, tau, td, a); }, key, w); if (mn >= 0) reproduces(c, C, rb, k, H, r.first, r.second, (int)c.range(0, std::min(mn, rd)), 1, st, key, w); if (mf >= rd-1 && cd >= rd-2) reproduces(c, C, rb, k, H, r.first, r.second, rd, 1, st, key + "-full", w);
    } else {
        bool hm = var >= 5, proj = var == 4 || var == 6, sfl = var == 7; int fd = (int)c.range(0, fmax), cd = (int)c.range(fd > 0 ? fd-1 : 0, fd+1), rd = (hm || c.chance(30)) ? (int)c.range(std::max(cd, fd)+1, (d == 2 ? 6 : 4)) : fd+1; rd = std::max(rd, std::max(1, cd)); priv::hdi_named_args na{.rd = size_t(rd), .cd = size_t(cd), .fd = size_t(fd)}; hho_degree_info hdi(na);
        bool tens = sfl || c.draw(2); Kt k = tens ? C.spd(c) : Kt(Kt::Identity()); std::string w = cat(w0, " cd=", cd, " fd=", fd, " rd=", rd, tens ? " K" : ""); Hyb<M,1> H(C, cd, std::vector<int>(nf, fd)); diffusion_tensor<M> kk = k;
        // L2 projection of the cell unknowns on the faces
        auto faceproj = [&](const Vec& x) { std::vector<Vec> r; for (size_t f = 0; f < nf; f++) { auto fb = H.fb(f); auto cb = H.cb(); Mat G = Mat::Zero(fb.size(), fb.size()); Vec g = Vec::Zero(fb.size()); for (auto& q : C.fq(f, fd + std::max(cd, fd))) { Vec p = fb.eval_functions(D<M>(q.x)); G += q.w*p*p.transpose(); g += q.w*p*C.val(cb, H.cell(x), q.x)(0); } r.push_back(G.ldlt().solve(g)); } return r; };
        auto weak = [&](const Vec& x, auto tau, int td, double* a) {
            if (sfl) { Hyb<M,1> Hi(C, cd, std::vector<int>(nf, fd)); hho_degree_info hin(priv::hdi_named_args{.rd = size_t(fd+1), .cd = size_t(cd), .fd = size_t(fd)}); auto ri = make_scalar_hho_laplacian(msh, cl, hin, kk).first; auto ib = make_scalar_monomial_basis(msh, cl, fd+1); Vec R(ib.size()); R(0) = 0; R.tail(ib.size()-1) = ri*x; double s = H.gradrhs(x, tau, td, a); // u_F replaced by u_F + R - pi_F R
                for (size_t f = 0; f < nf; f++) { auto fb = H.fb(f); Mat G = Mat::Zero(fb.size(), fb.size()); Vec g = Vec::Zero(fb.size()); auto qq = C.fq(f, td + fd + 1 + cd); for (auto& q : qq) { Vec p = fb.eval_functions(D<M>(q.x)); G += q.w*p*p.transpose(); g += q.w*p*C.val(ib, R, q.x)(0); } Vec pr = G.ldlt().solve(g); Vec nn = C.nv(f); for (auto& q : qq) { double e = C.val(ib, R, q.x)(0), b = C.val(fb, pr, q.x)(0), tn = (Mat(tau(q.x))*nn)(0); s += q.w*(e-b)*tn; *a += q.w*(std::fabs(e)+std::fabs(b))*std::fabs(tn); } } return s; }
            if (!proj) return H.gradrhs(x, tau, td, a);
            double s = 0, ab = 0; auto cb = H.cb(); for (auto& q : C.cq(td + cd)) { double t = q.w*(C.grad(cb, H.cell(x), q.x).array()*Mat(tau(q.x)).array()).sum(); s += t; ab += std::fabs(t); } auto pr = faceproj(x); for (size_t f = 0; f < nf; f++) { auto fb = H.fb(f); Vec nn = C.nv(f), dx = H.face(x, f) - pr[f]; for (auto& q : C.fq(f, td + std::max(cd, fd))) { double tn = (Mat(tau(q.x))*nn)(0); s += q.w*C.val(fb, dx, q.x)(0)*tn; ab += q.w*(std::fabs(C.val(fb, H.face(x, f), q.x)(0)) + std::fabs(C.val(fb, pr[f], q.x)(0)))*std::fabs(tn); } } *a = ab; return s; };
        std::pair<Mat, Mat> r; bool htop = hm; auto monob = make_scalar_monomial_basis(msh, cl, rd); auto harmb = make_scalar_harmonic_top_basis(msh, cl, rd); harmb.maximum_polynomial_degree(cd+2);
        if (var == 4) r = tens ? make_shl_face_proj(msh, cl, hdi, kk) : make_shl_face_proj(msh, cl, hdi); if (var == 5) r = tens ? make_shl_harmonic(msh, cl, hdi, kk) : make_shl_harmonic(msh, cl, hdi); if (var == 6) r = tens ? make_shl_face_proj_harmonic(msh, cl, hdi, kk) : make_shl_face_proj_harmonic(msh, cl, hdi); if (sfl) r = make_sfl(msh, cl, hdi, kk);
        auto fin = [&](const auto& rb) { double st = definition(c, C, rb, rd, k, r.first, r.second, H.n, weak, key, w);
            int lo = std::min(cd, fd); if (proj) lo = std::min(lo, (int)rd); reproduces(c, C, rb, k, H, r.first, r.second, (int)c.range(0, std::min(lo, rd)), k.norm(), st, key, w);
            if (sfl && rd >= fd+1 && rd <= cd+2) reproduces(c, C, rb, k, H, r.first, r.second, fd+1, k.norm()*10, st, key + "-full", w);
            if (!sfl && rd == fd+1 && rd <= cd+2) { reproduces(c, C, rb, k, H, r.first, r.second, rd, k.norm(), st, key + "-full", w); elliptic(c, C, rb, rd, k, H, r.first, rd+1, key, w); } };
        if (htop) fin(harmb); else fin(monob);
    }
}
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int fmax) { size_t i = c.draw(msh.cells_size()); Cell<M> C(m, msh, cm, i); c.note << ref::describe(m) << " cell " << i; c.label(m.kind); c.nontrivial(); go(c, C, fmax, cat("cell ", i)); }
// boundary terms imposed weakly: for u of the reconstruction degree the added terms on exact data only leave the flux
template<typename M> static void nitsche(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int fmax) {
    size_t i = c.draw(msh.cells_size()); Cell<M> C(m, msh, cm, i); c.note << ref::describe(m) << " cell " << i; auto [cd, fd] = degrees(c, fmax); hho_degree_info hdi(cd, fd); size_t nf = C.fcs.size(), nb = 0; Hyb<M,1> H(C, cd, std::vector<int>(nf, fd)); auto [oper, data] = make_scalar_hho_laplacian(msh, C.cl, hdi); std::string w = cat("cell ", i, " cd=", cd, " fd=", fd);
    int rd = fd+1; Sum u = poly(c, rd, C.v, M::dimension); double pen = 0.1 + 3*c.unit(), kc; Mat op = oper, lhs = data; Vec rhs = Vec::Zero(H.n); apply_dirichlet_via_nitsche(msh, C.cl, op, lhs, rhs, hdi, C.sfun(u), pen); Mat dl = lhs - data; c.close((dl - dl.transpose()).norm(), 0, 1e-12, dl.norm() + 1e-300, "nitsche-not-symmetric", w);
    Vec x = H.interpolate({u}, rd, &kc), v = rnd(c, H.n); double got = v.dot(dl*x - rhs), ex = 0, ab = 0;
    for (size_t f = 0; f < nf; f++) { if (!msh.is_boundary(C.fcs[f])) continue; nb++; auto fb = H.fb(f); for (auto& q : C.fq(f, rd-1 + fd)) { double t = ref::dot(u.grad(q.x), C.n[f]), vf = C.val(fb, H.face(v, f), q.x)(0); ex -= q.w*t*vf; ab += q.w*(1 + std::fabs(t)*1.0 + 3/C.hf[f])*std::fabs(vf); } }
    // terms -(grad Rv.n)(u - pi u) vanish because grad Rv.n has degree fd; the penalty vanishes for the same reason
    if (nb) c.nontrivial(); c.label(nb ? "boundary" : "interior"); c.close(got, ex, std::max({C.tol(), 1e-13*kc*10, C.q*kc}), ab + dl.norm()*1e-3 + rhs.norm(), "nitsche-consistency", w); if (!nb) c.check(dl.norm() == 0 && rhs.norm() == 0, "nitsche-interior", w);
}
#if FAM == 1
PROP("potential_g2", 7000, 300000) { on_g2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 4); }); }
PROP("nitsche_g2", 3000, 75000) { on_g2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { nitsche(c, m, msh, cm, 4); }); }
#elif FAM == 2
PROP("potential_s2", 3000, 120000) { on_s2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 4); }); }
PROP("potential_c2", 2000, 120000) { on_c2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 4); }); }
#elif FAM == 3
PROP("potential_g3", 1200, 60000) { on_g3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 2); }); }
PROP("nitsche_g3", 600, 22500) { on_g3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { nitsche(c, m, msh, cm, 2); }); }
#elif FAM == 4
PROP("potential_s3", 1200, 60000) { on_s3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 2); }); }
#elif FAM == 5
PROP("potential_c3", 1200, 60000) { on_c3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 2); }); }
#endif
