// A03: whole discrete problems (local operators, condensation, boundary conditions, assembly, solution, recovery) with polynomial solutions.
#include "hho.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
#if FAM >= 3
#include "diskpp/methods/hho_assemblers.hpp"
#include "diskpp/methods/hho_slapl.hpp"
#endif
using namespace disk; using namespace hh;
using M3 = Eigen::Matrix3d;
static M3 hess(const Sum& s, P x) { M3 H = M3::Zero(); for (size_t t = 0; t < s.p.size(); t++) { auto& q = s.p[t]; P dd = x - q.o; double A = ref::dot(q.a, dd), B = ref::dot(q.b, dd); int i = q.i, j = q.j; Eigen::Vector3d a(q.a[0], q.a[1], q.a[2]), b(q.b[0], q.b[1], q.b[2]);
    if (i > 1) H += s.a[t]*i*(i-1)*ref::ipow(A, i-2)*ref::ipow(B, j)*a*a.transpose(); if (i && j) H += s.a[t]*i*j*ref::ipow(A, i-1)*ref::ipow(B, j-1)*(a*b.transpose() + b*a.transpose()); if (j > 1) H += s.a[t]*j*(j-1)*ref::ipow(A, i)*ref::ipow(B, j-2)*b*b.transpose(); } return H; }
template<typename M> struct Pb {
    static constexpr int d = M::dimension; using pt = typename M::point_type; std::vector<Cell<M>> C; std::vector<long> label; std::vector<P> nrm; double q = 1e-13, h = 1e300, H = 0, A = 0;
    Pb(const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm) { size_t nf = msh.faces_size(); label.assign(nf, -1); nrm.assign(nf, P{0,0,0}); for (size_t i = 0; i < msh.cells_size(); i++) { C.emplace_back(m, msh, cm, i); auto& x = C.back(); q = std::max(q, x.q); h = std::min(h, x.h); H = std::max(H, x.h); A += x.A; for (size_t f = 0; f < x.fcs.size(); f++) { size_t g = msh.lookup(x.fcs[f]); Loop k; for (auto& p : x.fcs[f].point_ids()) k.push_back(size_t(p)); auto b = m.bnd.find(ref::sorted(k)); if (b != m.bnd.end()) { label[g] = b->second; nrm[g] = x.n[f]; } } } }
};
// one Dirichlet part (id 0) and other boundary faces with an id each
static size_t parts(Ctx& c, ref::Mesh& m) { auto own = ref::face_owners(m); m.bnd.clear(); size_t id = 1, nb = 0; int p = c.chance(30) ? 0 : c.chance(50) ? 40 : 90; bool first = true; std::vector<Loop> b; for (auto& [f, o] : own) if (o.size() == 1) b.push_back(f); c.shuffle(b); for (auto& f : b) { nb++; if (first || !c.chance(p)) m.bnd[f] = 0; else m.bnd[f] = id++; first = false; } return id; }
// solution of a symmetric definite system with an estimate of its conditioning
static Vec solve(const Mat& L, const Vec& R, double& cond, const std::string& w, Ctx& c) { c.close((L - L.transpose()).cwiseAbs().maxCoeff(), 0, 1e-8, L.cwiseAbs().maxCoeff(), "global-matrix-not-symmetric", w); Vec s = L.diagonal(); c.check(s.minCoeff() > 0, "global-matrix-not-definite", w); s = s.cwiseSqrt().cwiseInverse(); Mat N = s.asDiagonal()*(0.5*(L + L.transpose()))*s.asDiagonal(); Eigen::LLT<Mat> f(N); if (f.info() != Eigen::Success || f.rcond() < 1e-9) { Eigen::SelfAdjointEigenSolver<Mat> es(N, Eigen::EigenvaluesOnly); c.check(es.eigenvalues()(0) > -1e-9, "global-matrix-not-definite", cat(w, ": ", es.eigenvalues()(0))); throw pbt::Discard(); } cond = 1/f.rcond(); return s.asDiagonal()*f.solve(s.asDiagonal()*R); }

#if FAM <= 2
template<typename M> static void diffusion(Ctx& c, ref::Mesh& m, M& msh, const std::vector<size_t>& cm, int fmax, size_t nid) {
    constexpr int d = M::dimension; using Kt = typename Cell<M>::Kt; using pt = typename M::point_type; Pb<M> B(m, msh, cm); auto dg = degrees(c, fmax); int cd = dg.first, fd = dg.second, meth = c.draw(4); if (meth == 2) cd = fd + 1; hho_degree_info hdi(cd, fd); int ku = fd + 1; double tau = 1;
    Kt K = Kt::Identity(); bool tens = meth <= 1 && c.chance(50); if (tens) K = B.C[0].spd(c); static const char* nm[] = {"laplacian+hho", "gradrec+hho", "laplacian+hdg", "laplacian+hho-faceh"}; c.label(nm[meth]); c.label(m.kind);
    Sum u = poly(c, c.chance(80) ? ku : (int)c.range(0, ku), m.pts, d); auto flux = [=](P x) { P g = u.grad(x), r{0,0,0}; for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) r[a] += K(a, b)*g[b]; return r; }; auto f = [=](const pt& p) { M3 Hs = hess(u, dm::toP(p)); double s = 0; for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) s -= K(a, b)*Hs(a, b); return s; };
    using BC = scalar_boundary_conditions<M>; BC bnd(msh); bool anyN = false, anyR = false; auto uf = B.C[0].sfun(u); bnd.addDirichletBC(DIRICHLET, 0, uf); int mix = c.draw(3); std::vector<P> nid2n(nid); for (size_t g = 0; g < B.label.size(); g++) if (B.label[g] >= 0) nid2n[B.label[g]] = B.nrm[g];
    for (size_t i = 1; i < nid; i++) { P n = nid2n[i]; bool rob = mix == 2 || (mix == 1 && c.chance(50)); auto gN = [=](const pt& p) { P x = dm::toP(p); return ref::dot(flux(x), n) + (rob ? u(x) : 0.0); }; if (rob) { bnd.addRobinBC(ROBIN, i, gN); anyR = true; } else { bnd.addNeumannBC(NEUMANN, i, gN); anyN = true; } }
    int odi = 2; bool primal = c.chance(50), withM = c.chance(50); std::string w = cat(nm[meth], " cd=", cd, " fd=", fd, tens ? " tensor" : "", anyN ? " Neumann" : "", anyR ? " Robin" : "", primal ? " primal" : ""); c.note << " " << w;
    std::vector<Mat> L, AL; std::vector<Vec> R, bL; std::vector<std::pair<Mat, Vec>> sc; Kt Kc = K;
    for (auto& x : B.C) { auto [oper, data] = tens ? make_scalar_hho_laplacian(msh, x.cl, hdi, diffusion_tensor<M>(K)) : make_scalar_hho_laplacian(msh, x.cl, hdi); Mat A = data; if (meth == 1) A = tens ? make_vector_hho_gradrec(msh, x.cl, hdi, [Kc](const pt&) -> static_matrix<double, d, d> { return Kc; }).second : make_vector_hho_gradrec(msh, x.cl, hdi).second;
        if (meth == 2) A += make_scalar_hdg_stabilization(msh, x.cl, hdi); else if (tens && c.chance(50)) A += make_scalar_hho_stabilization2(msh, x.cl, oper, hdi, static_matrix<double, d, d>(K)); else if (meth == 3) A += make_scalar_hho_stabilization(msh, x.cl, oper, CellDegreeInfo<M>(msh, x.cl, size_t(cd), size_t(fd), size_t(fd)), true); else A += make_scalar_hho_stabilization(msh, x.cl, oper, hdi);
        auto cb = make_scalar_monomial_basis(msh, x.cl, size_t(cd)); Vec r = make_rhs(msh, x.cl, cb, f, odi); L.push_back(A); R.push_back(r); if (withM) { auto t = make_scalar_static_condensation_withMatrix(msh, x.cl, hdi, A, r); sc.push_back(std::get<0>(t)); AL.push_back(std::get<1>(t)); bL.push_back(std::get<2>(t)); } else sc.push_back(make_scalar_static_condensation(msh, x.cl, hdi, A, r)); }
    double cond = 1; std::vector<Vec> full; size_t nc = B.C.size();
    auto finish = [&](auto& as, auto local) { if (as.LHS.rows() > 700) throw pbt::Discard(); Vec s = as.RHS; if (as.LHS.rows()) s = solve(Mat(as.LHS), as.RHS, cond, w, c); for (size_t i = 0; i < nc; i++) { Vec xf = local(i, s); full.push_back(withM ? Vec(make_scalar_static_decondensation_withMatrix(AL[i], bL[i], xf)) : Vec(make_scalar_static_decondensation(msh, B.C[i].cl, hdi, L[i], R[i], xf))); } };
    if (primal) { auto as = make_scalar_primal_hho_assembler(msh, hdi, bnd); for (size_t i = 0; i < nc; i++) as.assemble(msh, B.C[i].cl, bnd, sc[i].first, sc[i].second, odi); as.impose_neumann_boundary_conditions(msh, bnd, odi); as.impose_robin_boundary_conditions(msh, bnd, odi); as.finalize(); finish(as, [&](size_t i, const Vec& s) { return Vec(as.take_local_solution(msh, B.C[i].cl, bnd, s, odi)); }); }
    else if (nid == 1 && c.chance(50)) { auto as = make_diffusion_assembler(msh, hdi); for (size_t i = 0; i < nc; i++) as.assemble(msh, B.C[i].cl, sc[i].first, sc[i].second, uf, odi); as.finalize(); finish(as, [&](size_t i, const Vec& s) { return Vec(as.take_local_solution(msh, B.C[i].cl, s, uf, odi)); }); }
    else { auto as = make_diffusion_assembler(msh, hdi, bnd); for (size_t i = 0; i < nc; i++) as.assemble(msh, B.C[i].cl, bnd, sc[i].first, sc[i].second, odi); if (anyN) as.impose_neumann_boundary_conditions(msh, bnd, odi); if (anyR) as.impose_robin_boundary_conditions(msh, bnd, odi); as.finalize(); finish(as, [&](size_t i, const Vec& s) { return Vec(as.take_local_data(msh, B.C[i].cl, bnd, s, odi)); }); }
    c.nontrivial(nc > 1); double kmax = 1; std::vector<Vec> ex; for (auto& x : B.C) { Hyb<M,1> Hy(x, cd, std::vector<int>(x.fcs.size(), fd)); double kc; ex.push_back(Hy.interpolate({u}, ku, &kc)); kmax = std::max(kmax, kc); }
    double tol = std::max(1e-8, 20*B.q)*std::max(1.0, 1e-5*cond)*std::max(1.0, 1e-4*kmax)*std::max(1.0, tens ? K.norm()*K.inverse().norm()*1e-2 : 1.0); if (tol > 1e-3) throw pbt::Discard();
    for (size_t i = 0; i < nc; i++) { auto& x = B.C[i]; Hyb<M,1> Hy(x, cd, std::vector<int>(x.fcs.size(), fd)); auto ww = cat(w, " cell ", i, " cond ", cond); c.check(full[i].size() == ex[i].size(), "solution-size", ww); auto cb = Hy.cb(); Vec dT = Hy.cell(full[i]) - Hy.cell(ex[i]); for (auto& p : x.cq(1)) c.close(x.val(cb, dT, p.x)(0), 0, tol, 1 + 3*1.0, "cell-solution", ww); for (size_t f = 0; f < x.fcs.size(); f++) { auto fb = Hy.fb(f); Vec dF = Hy.face(full[i], f) - Hy.face(ex[i], f); for (auto& p : x.fq(f, 1)) c.close(x.val(fb, dF, p.x)(0), 0, tol, 4, "face-solution", cat(ww, " face ", f)); }
        // the reconstruction of the discrete solution is the exact one, up to its mean
        auto [oper, data] = tens ? make_scalar_hho_laplacian(msh, x.cl, hdi, diffusion_tensor<M>(K)) : make_scalar_hho_laplacian(msh, x.cl, hdi); auto rb = make_scalar_monomial_basis(msh, x.cl, size_t(fd + 1)); Vec rr = Vec::Zero(rb.size()); rr.tail(rb.size() - 1) = oper*full[i]; for (auto& p : x.cq(1)) { Mat g = x.grad(rb, rr, p.x); P e = u.grad(p.x); for (int a = 0; a < d; a++) c.close(g(0, a), e[a], tol, 10*(1/x.h + 1)*(1 + x.hf[0]/x.h), "reconstruction", ww); } }
}
#endif
#if FAM >= 3
// ------------------------------------------------------------ the self-contained Laplacian pipeline
template<typename M> static void slapl(Ctx& c, ref::Mesh& m, M& msh, const std::vector<size_t>& cm, int fmax, size_t) {
    constexpr int d = M::dimension; using pt = typename M::point_type; namespace SL = hho::slapl; using Space = SL::hho_space<M>; Pb<M> B(m, msh, cm); auto dg = degrees(c, fmax); int fd = dg.second, cd = dg.first; bool same = c.chance(40); if (same) cd = fd; SL::degree_info di = same ? SL::degree_info(fd) : SL::degree_info(cd, fd); int ku = fd + 1; Sum u = poly(c, ku, m.pts, d); std::string w = cat("slapl cd=", cd, " fd=", fd); c.note << " " << w; c.label(m.kind);
    auto [szT, szF, szR] = SL::space_dimensions<Space>(di); c.check(szT == bs::dimP(cd, d) && szF == bs::dimP(fd, d-1) && szR == bs::dimP(fd+1, d), "space-dimensions", w); auto uf = [u](const pt& p) { return u(dm::toP(p)); }; auto as = SL::make_assembler(msh, di); size_t nc = B.C.size(); std::vector<Mat> L; std::vector<Vec> R, G, I; double kmax = 1;
    // inhomogeneous conditions through a lifting of the boundary values
    for (auto& x : B.C) { auto [oper, data] = SL::local_operator(msh, x.cl, di); Mat A = data + SL::local_stabilization(msh, x.cl, di, oper); Vec r = Vec::Zero(A.rows()), I0 = SL::local_reduction(msh, x.cl, di, uf); c.check(size_t(I0.size()) == szT + x.fcs.size()*szF && A.rows() == I0.size() && A.cols() == I0.size() && size_t(oper.rows()) == szR - 1 && oper.cols() == I0.size(), "local-size", w);
        // exact reduction
        Vec ie = Vec::Zero(I0.size()); auto pr = [&](auto phi, const Q& q) { size_t n = phi.size(); Mat Gm = Mat::Zero(n, n); Vec g = Vec::Zero(n); for (auto& y : q) { auto v0 = phi(D<M>(y.x)); Vec v = v0; Gm += y.w*v*v.transpose(); g += y.w*v*u(y.x); } kmax = std::max(kmax, hh::cond(Gm)); return Vec(Gm.ldlt().solve(g)); }; ie.head(szT) = pr(typename Space::cell_basis_type(msh, x.cl, di.cell), x.cq(cd + std::max(cd, ku))); for (size_t f = 0; f < x.fcs.size(); f++) ie.segment(szT + f*szF, szF) = pr(typename Space::face_basis_type(msh, x.fcs[f], di.face), x.fq(f, fd + std::max(fd, ku)));
        auto phiT = typename Space::cell_basis_type(msh, x.cl, di.cell); for (auto& q : x.cq(cd + fd)) { auto v0 = phiT(D<M>(q.x)); Vec v = v0; double lap = 0; M3 Hs = hess(u, q.x); for (int a = 0; a < d; a++) lap += Hs(a, a); r.head(szT) -= q.w*lap*v; }
        // the reduction integrates with a rule for the space: the boundary data of the problem are the exact ones
        Vec g = Vec::Zero(A.rows()); for (size_t f = 0; f < x.fcs.size(); f++) if (B.label[msh.lookup(x.fcs[f])] >= 0) g.segment(szT + f*szF, szF) = ie.segment(szT + f*szF, szF);
        Vec rr = r - A*g; auto [lc, rc] = hho::schur(Mat(A), rr, phiT); as.assemble(msh, x.cl, lc, rc); L.push_back(A); R.push_back(rr); G.push_back(g); I.push_back(ie);
        // reconstruction of the interpolate, energy and stabilization vanish as promised
        Vec re = oper*ie; auto phiR = typename Space::reco_basis_type(msh, x.cl, di.reco); Vec rf = Vec::Zero(szR); rf.tail(szR - 1) = re; double tl = std::max(1e-8, 20*B.q)*std::max(1.0, 1e-4*kmax); P x0 = x.v[0]; auto v0 = phiR(D<M>(x0)); Vec f0 = v0; for (auto& q : x.cq(2)) { auto v1 = phiR(D<M>(q.x)); Vec f1 = v1; c.close(rf.dot(f1) - rf.dot(f0), u(q.x) - u(x0), tl, 4, "slapl-reconstruction", w); } }
    as.finalize(); if (as.LHS.rows() > 700) throw pbt::Discard(); double cond = 1; Vec s = as.RHS; if (as.LHS.rows()) s = solve(Mat(as.LHS), as.RHS, cond, w, c); c.nontrivial(nc > 1); double tol = std::max(1e-8, 20*B.q)*std::max(1.0, 1e-5*cond)*std::max(1.0, 1e-4*kmax); if (tol > 1e-3) throw pbt::Discard();
    for (size_t i = 0; i < nc; i++) { auto& x = B.C[i]; auto phiT = typename Space::cell_basis_type(msh, x.cl, di.cell); Vec xf = as.take_local_solution(msh, x.cl, s); Vec t = hho::deschur(L[i], R[i], xf, phiT); Vec e = t + G[i] - I[i]; auto ww = cat(w, " cell ", i, " cond ", cond); for (auto& q : x.cq(1)) { auto v0 = phiT(D<M>(q.x)); Vec v = v0; c.close(e.head(szT).dot(v), 0, tol, 4, "slapl-cell-solution", ww); } for (size_t f = 0; f < x.fcs.size(); f++) { auto phiF = typename Space::face_basis_type(msh, x.fcs[f], di.face); for (auto& q : x.fq(f, 1)) { auto v0 = phiF(D<M>(q.x)); Vec v = v0; c.close(e.segment(szT + f*szF, szF).dot(v), 0, tol, 4, "slapl-face-solution", cat(ww, " face ", f)); } } }
}
#endif
#if FAM <= 2
// ------------------------------------------------------------ linear elasticity
template<typename M> static void elasticity(Ctx& c, ref::Mesh& m, M& msh, const std::vector<size_t>& cm, int fmax, size_t nid) {
    constexpr int d = M::dimension; using pt = typename M::point_type; using Vd = Eigen::Matrix<double, d, 1>; using Md = Eigen::Matrix<double, d, d>; Pb<M> B(m, msh, cm); int fd = c.range(1, fmax), cd = c.chance(50) ? fd : fd + 1; hho_degree_info hdi(cd, fd); int ku = fd + 1; double mu = 0.3 + c.unit(), la = c.chance(20) ? 0 : 2*c.unit(); int asmk = c.draw(2), rec = c.draw(2), stab = c.draw(cd == fd + 1 ? 3 : 2); // gradient reconstruction, stabilization
    std::vector<Sum> u; for (int a = 0; a < d; a++) u.push_back(poly(c, a == 0 ? ku : (int)c.range(0, ku), m.pts, d)); auto sig = [=](P x) { Md g; for (int a = 0; a < d; a++) { P t = u[a].grad(x); for (int b = 0; b < d; b++) g(a, b) = t[b]; } Md s = mu*(g + g.transpose()) + la*g.trace()*Md::Identity(); return s; };
    auto f = [=](const pt& p) { P x = dm::toP(p); Vd r = Vd::Zero(); for (int i = 0; i < d; i++) { M3 Hi = hess(u[i], x); for (int j = 0; j < d; j++) { r(i) -= mu*Hi(j, j); M3 Hj = hess(u[j], x); r(i) -= (la + mu)*Hj(j, i); } } return r; };
    using BC = vector_boundary_conditions<M>; BC bnd(msh); auto uf = B.C[0].vfun(u); bnd.addDirichletBC(DIRICHLET, 0, uf); std::vector<P> nn(nid); for (size_t g = 0; g < B.label.size(); g++) if (B.label[g] >= 0) nn[B.label[g]] = B.nrm[g]; std::vector<size_t> part = d == 2 ? std::vector<size_t>{DX, DY} : std::vector<size_t>{DX, DY, DZ, DXDY, DXDZ, DYDZ}; bool pd = false;
    for (size_t i = 1; i < nid; i++) { P n = nn[i]; auto g = [=](const pt& p) { Md s = sig(dm::toP(p)); Vd nv; for (int a = 0; a < d; a++) nv(a) = n[a]; Vd r = s*nv; return r; }; bnd.addNeumannBC(NEUMANN, i, g); if (c.chance(30)) { bnd.addDirichletBC(part[c.draw(part.size())], i, uf); pd = true; } }
    std::string w = cat("elasticity cd=", cd, " fd=", fd, asmk ? " primal" : " mechanics", rec ? " gradrec" : " sym-laplacian", stab == 2 ? " hdg" : stab ? " optim" : " hho", nid > 1 ? " Neumann" : "", pd ? " partial" : ""); c.note << " " << w; c.label(m.kind); c.label(stab == 2 ? "hdg" : stab ? "hho-optim" : "hho"); if (pd) c.label("partial"); std::vector<Mat> AL; std::vector<Vec> bL; std::vector<std::pair<dynamic_matrix<double>, dynamic_vector<double>>> sc; size_t nc = B.C.size();
    for (auto& x : B.C) { auto [oper, data] = make_vector_hho_symmetric_laplacian(msh, x.cl, hdi); Mat A = rec ? make_matrix_hho_symmetric_gradrec(msh, x.cl, hdi).second : data; if (stab == 0) A += make_vector_hho_stabilization(msh, x.cl, oper, hdi); else if (stab == 1) { auto so = make_scalar_hho_laplacian(msh, x.cl, hdi); A += make_vector_hho_stabilization_optim(msh, x.cl, so.first, hdi); } else A += make_vector_hdg_stabilization(msh, x.cl, hdi); A *= 2*mu; A += la*make_hho_divergence_reconstruction(msh, x.cl, hdi).second; auto cb = make_vector_monomial_basis(msh, x.cl, size_t(cd)); Vec r = make_rhs(msh, x.cl, cb, f, 2); auto t = make_vector_static_condensation_withMatrix(msh, x.cl, hdi, A, r); auto p = std::get<0>(t); sc.push_back({p.first, p.second}); AL.push_back(std::get<1>(t)); bL.push_back(std::get<2>(t)); }
    double cond = 1; std::vector<Vec> full; auto finish = [&](auto& as, auto local) { if (as.LHS.rows() > 700) throw pbt::Discard(); Vec s = as.RHS; if (as.LHS.rows()) s = solve(Mat(as.LHS), as.RHS, cond, w, c); for (size_t i = 0; i < nc; i++) full.push_back(make_vector_static_decondensation_withMatrix(AL[i], bL[i], local(i, s))); };
    if (asmk) { auto as = make_vector_primal_hho_assembler(msh, hdi, bnd); for (size_t i = 0; i < nc; i++) as.assemble(msh, B.C[i].cl, bnd, sc[i].first, sc[i].second, 2); as.impose_neumann_boundary_conditions(msh, bnd, 2); as.finalize(); finish(as, [&](size_t i, const Vec& s) { return Vec(as.take_local_solution(msh, B.C[i].cl, bnd, s, 2)); }); }
    else { auto as = make_mechanics_assembler(msh, hdi, bnd); for (size_t i = 0; i < nc; i++) as.assemble(msh, B.C[i].cl, bnd, sc[i], 2); as.impose_neumann_boundary_conditions(msh, bnd, 2); as.finalize(); finish(as, [&](size_t i, const Vec& s) { return Vec(as.take_local_data(msh, B.C[i].cl, bnd, s, 2)); }); }
    c.nontrivial(nc > 1); double kmax = 1; std::vector<Vec> ex; for (auto& x : B.C) { Hyb<M,d> Hy(x, cd, std::vector<int>(x.fcs.size(), fd)); double kc; ex.push_back(Hy.interpolate(u, ku, &kc)); kmax = std::max(kmax, kc); } double tol = std::max(1e-8, 20*B.q)*std::max(1.0, 1e-5*cond)*std::max(1.0, 1e-4*kmax); if (tol > 1e-3) throw pbt::Discard();
    for (size_t i = 0; i < nc; i++) { auto& x = B.C[i]; Hyb<M,d> Hy(x, cd, std::vector<int>(x.fcs.size(), fd)); auto ww = cat(w, " cell ", i, " cond ", cond); c.check(full[i].size() == ex[i].size(), "displacement-size", ww); auto cb = Hy.cb(); Vec dT = Hy.cell(full[i]) - Hy.cell(ex[i]); for (auto& p : x.cq(1)) c.close(x.val(cb, dT, p.x).norm(), 0, tol, 4, "cell-displacement", ww); for (size_t f = 0; f < x.fcs.size(); f++) { auto fb = Hy.fb(f); Vec dF = Hy.face(full[i], f) - Hy.face(ex[i], f); for (auto& p : x.fq(f, 1)) c.close(x.val(fb, dF, p.x).norm(), 0, tol, 4, "face-displacement", cat(ww, " face ", f)); } }
}
#endif
template<typename Run> static void any(Ctx& c, int which, Run run) { std::vector<size_t> cm; auto go = [&](ref::Mesh m, auto mk) { size_t n = parts(c, m); auto msh = mk(m, &cm); c.note << ref::describe(m); run(c, m, msh, cm, n); };
    switch (which) { case 0: go(ref::gen_poly2d(c, 3, ref::ANY), [](auto& m, auto* p) { return dm::make_g2(m, p); }); break; case 1: go(ref::gen_tri2d(c, 3), [](auto& m, auto* p) { return dm::make_s2(m, p); }); break; case 2: go(ref::gen_rect2d(c, 3), [](auto& m, auto* p) { return dm::make_c2(m, p); }); break; case 3: go(ref::gen_poly3d(c, 2), [](auto& m, auto* p) { return dm::make_g3(m, p); }); break; case 4: go(ref::gen_tet3d(c, 2), [](auto& m, auto* p) { return dm::make_s3(m, p); }); break; default: go(ref::gen_hex3d(c, 2), [](auto& m, auto* p) { return dm::make_c3(m, p); }); } }
#define RUN(f, k) [](Ctx& c, auto& m, auto& msh, auto& cm, size_t n) { f(c, m, msh, cm, k, n); }
#if FAM == 1
PROP("diffusion_g2", 10000, 60000) { any(c, 0, RUN(diffusion, 3)); }
PROP("diffusion_s2", 6000, 40000) { any(c, 1, RUN(diffusion, 3)); }
PROP("elasticity_g2", 4800, 30000) { any(c, 0, RUN(elasticity, 2)); }
#elif FAM == 2
PROP("diffusion_g3", 1000, 8000) { any(c, 3, RUN(diffusion, 1)); }
PROP("diffusion_s3", 1000, 8000) { any(c, 4, RUN(diffusion, 1)); }
PROP("elasticity_s3", 480, 4000) { any(c, 4, RUN(elasticity, 1)); }
#elif FAM == 3
PROP("slapl_g2", 8000, 50000) { any(c, 0, RUN(slapl, 3)); }
PROP("slapl_s2", 4800, 30000) { any(c, 1, RUN(slapl, 3)); }
PROP("slapl_s3", 1000, 8000) { any(c, 4, RUN(slapl, 1)); }
#endif
