// A04: conforming P1 elements and discontinuous Galerkin: exact kernels, coupling of neighbours, consistency with polynomial solutions.
#include "hho.hpp"
#include "diskpp/cfem/cfem.hpp"
#include "diskpp/methods/dg"
#include <complex>
using namespace disk; using namespace hh;
using M3d = Eigen::Matrix3d; static M3d hessp(const Sum& s, P x);
// ------------------------------------------------------------ P1 conforming elements
static void cfem_case(Ctx& c) {
    auto m = ref::gen_tri2d(c, 4); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); using M = std::decay_t<decltype(msh)>; using pt = M::point_type; c.note << ref::describe(m); c.label(m.kind); size_t n = msh.points_size(); c.nontrivial(msh.cells_size() > 1);
    double a0 = c.sym(), a1 = c.sym(), a2 = c.sym(), b0 = c.sym(), b1 = c.sym(), b2 = c.sym(); bool tens = c.chance(60); static_matrix<double,2,2> K = static_matrix<double,2,2>::Identity(); bool sym = c.chance(50); if (tens) { double l1 = 0.1 + c.unit(), l2 = 0.1 + 5*c.unit(), t = 3*c.unit(); Eigen::Rotation2D<double> R(t); K = R.toRotationMatrix()*Eigen::Vector2d(l1, l2).asDiagonal()*R.toRotationMatrix().transpose(); if (!sym) K(0,1) += 0.1*c.sym(); }
    // translations of the mesh make the origin arbitrary: values relative to the first point
    P o = m.pts[0]; auto u = [&](P x) { return a0 + a1*(x[0]-o[0]) + a2*(x[1]-o[1]); }; auto v = [&](P x) { return b0 + b1*(x[0]-o[0]) + b2*(x[1]-o[1]); }; Eigen::Vector2d gu(a1, a2), gv(b1, b2); Eigen::MatrixXd G = Eigen::MatrixXd::Zero(n, n); Eigen::VectorXd U(n), V(n); double scaleG = 0; std::vector<char> bnd(n, 0);
    size_t ci = 0; for (auto& cl : msh) { auto ids = cl.point_ids(); std::array<P, 3> p; Eigen::Vector3d lu, lv; for (int i = 0; i < 3; i++) { p[i] = m.pts[size_t(ids[i])]; lu(i) = u(p[i]); lv(i) = v(p[i]); U(size_t(ids[i])) = lu(i); V(size_t(ids[i])) = lv(i); }
        double s2 = (p[1][0]-p[0][0])*(p[2][1]-p[0][1]) - (p[1][1]-p[0][1])*(p[2][0]-p[0][0]); double A = std::abs(s2)/2, h = std::max({ref::norm(p[0] - p[1]), ref::norm(p[1] - p[2]), ref::norm(p[2] - p[0])}), big = 1 + ref::norm(p[0]); double q = big*h/A*1e-3; // amplification of coordinate round-off
        std::string w = cat("cell ", ci); c.label(s2 > 0 ? "ccw" : "cw");
        for (int k = 0; k < 4; k++) { double l0 = c.unit(), l1 = (1-l0)*c.unit(), l2 = 1-l0-l1; if (k == 0) { l0 = 1; l1 = l2 = 0; } if (k == 3) { l0 = 2*c.sym(); l1 = 2*c.sym(); l2 = 1 - l0 - l1; } P x{l0*p[0][0]+l1*p[1][0]+l2*p[2][0], l0*p[0][1]+l1*p[1][1]+l2*p[2][1], 0}; auto phi = cfem::eval_basis(msh, cl, pt(x[0], x[1])); double tol = 1e-11*(1 + q*big); c.close(phi(0), l0, tol, 4, "barycentric", w); c.close(phi(1), l1, tol, 4, "barycentric", w); c.close(phi(2), l2, tol, 4, "barycentric", w); c.close(phi.dot(lu), u(x), tol, 4*(1 + h*8), "affine-value", w); }
        auto dphi = cfem::eval_basis_grad(msh, cl); Eigen::Vector2d g = dphi.transpose()*lu; double tg = 1e-11*(1 + q); c.close((g - gu).norm(), 0, tg, (1 + h)*h/A*4, "affine-gradient", w); for (int k = 0; k < 2; k++) c.close(dphi.col(k).sum(), 0, tg, h/A, "gradient-sum", w);
        auto mm = cfem::mass_matrix(msh, cl); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.close(mm(i, j), A/12*(i == j ? 2 : 1), 1e-11*(1 + q*big), A, "mass", cat(w, " ", i, ",", j));
        double Kn = K.norm(); static_matrix<double,3,3> S = tens ? cfem::stiffness_matrix(msh, cl, K) : cfem::stiffness_matrix(msh, cl); double es = Kn*h*h/A; c.close(lv.dot(S*lu), A*gv.dot(K*gu), 1e-11*(1 + q), es*(1 + h)*(1 + h)*10, "stiffness", w);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { P ei = p[(i+2)%3] - p[(i+1)%3], ej = p[(j+2)%3] - p[(j+1)%3]; Eigen::Vector2d ni(-ei[1], ei[0]), nj(-ej[1], ej[0]); c.close(S(i, j), ni.dot(K*nj)/(4*A), 1e-10*(1 + q), es, "stiffness-entry", cat(w, " ", i, ",", j, tens ? " tensor" : "")); G(size_t(ids[i]), size_t(ids[j])) += S(i, j); } scaleG = std::max(scaleG, es*(1 + q));
        double mean = u((1.0/3)*(p[0] + p[1] + p[2])); auto r = cfem::make_rhs(msh, cl, [&](const pt& y) { return u(P{y.x(), y.y(), 0}); }); for (int i = 0; i < 3; i++) c.close(r(i), mean*A/3, 1e-11*(1 + q), A*(1 + std::abs(mean)), "rhs", w); c.close(r.dot(Eigen::Vector3d::Ones()), mean*A, 1e-11*(1 + q), A*4, "rhs-total", w); ci++; }
    auto own = ref::face_owners(m); for (auto& [f, o2] : own) if (o2.size() == 1) for (auto k : f) bnd[k] = 1; Eigen::VectorXd R = G*U; double H = 1; for (auto& p : m.pts) H = std::max(H, ref::norm(p - o)); for (size_t i = 0; i < n; i++) if (!bnd[i]) c.close(R(i), 0, 1e-10, scaleG*10*(1 + H), "patch-test", cat("point ", i)); double area = 0; for (auto& cl : msh) area += measure(msh, cl); c.close(V.dot(R), area*gv.dot(K*gu), 1e-10, scaleG*double(n)*10*(1 + H)*(1 + H), "energy", "whole mesh");
}
PROP("cfem", 60000, 500000) { cfem_case(c); }

// ------------------------------------------------------------ assembler of discontinuous Galerkin
template<typename T> static T num(Ctx& c) { if constexpr (std::is_same_v<T, double>) return c.sym(); else return T(c.sym(), c.sym()); }
template<typename T, typename M> static void blocks(Ctx& c, M& msh, size_t cbs) {
    using Mt = Eigen::Matrix<T, -1, -1>; using Vt = Eigen::Matrix<T, -1, 1>; size_t nc = msh.cells_size(), N = nc*cbs; std::vector<typename M::cell_type> cl(msh.cells_begin(), msh.cells_end()); auto as = make_discontinuous_galerkin_assembler<T>(msh, cbs); c.check(as.syssz == N && size_t(as.LHS.rows()) == N && size_t(as.LHS.cols()) == N && size_t(as.RHS.size()) == N && as.RHS.norm() == 0, "system-size", "");
    Mt L = Mt::Zero(N, N); Vt R = Vt::Zero(N); auto rm = [&](Mt& A) { A.resize(cbs, cbs); for (size_t i = 0; i < cbs; i++) for (size_t j = 0; j < cbs; j++) A(i, j) = num<T>(c); }; size_t ops = c.range(1, 20); for (size_t k = 0; k < ops; k++) { Mt A; rm(A); size_t i = c.draw(nc), j = c.draw(nc); if (c.chance(40)) { Vt b(cbs); for (size_t q = 0; q < cbs; q++) b(q) = num<T>(c); as.assemble(msh, cl[i], A, b); L.block(i*cbs, i*cbs, cbs, cbs) += A; R.segment(i*cbs, cbs) += b; } else { as.assemble(msh, cl[i], cl[j], A); L.block(i*cbs, j*cbs, cbs, cbs) += A; } }
    c.nontrivial(nc > 1 && ops > 2); as.finalize(); c.close((Mt(as.LHS) - L).cwiseAbs().maxCoeff(), 0, 1e-13, double(ops), "assembled-matrix", cat(nc, " cells of ", cbs)); c.close((as.RHS - R).cwiseAbs().maxCoeff(), 0, 1e-13, double(ops), "assembled-rhs", "");
    if constexpr (std::is_same_v<T, double>) { auto ae = make_discontinuous_galerkin_eigenvalue_assembler(msh, cbs); Mt gK = Mt::Zero(N, N), gM = gK; for (size_t k = 0; k < ops; k++) { Mt A; rm(A); size_t i = c.draw(nc), j = c.draw(nc); if (c.chance(40)) { ae.assemble(msh, cl[i], A); gM.block(i*cbs, i*cbs, cbs, cbs) += A; } else { ae.assemble(msh, cl[i], cl[j], A); gK.block(i*cbs, j*cbs, cbs, cbs) += A; } } ae.finalize(); c.check(ae.syssz == N, "system-size", "eigenvalue"); c.close((Mt(ae.gK) - gK).cwiseAbs().maxCoeff(), 0, 1e-13, double(ops), "assembled-stiffness", ""); c.close((Mt(ae.gM) - gM).cwiseAbs().maxCoeff(), 0, 1e-13, double(ops), "assembled-mass", ""); }
}
template<typename M> static void asm_case(Ctx& c, ref::Mesh& m, M& msh, const std::vector<size_t>&) { c.label(m.kind); size_t cbs = c.range(1, 6); if (msh.cells_size()*cbs > 300) cbs = 1; if (c.chance(40)) { c.label("complex"); blocks<std::complex<double>>(c, msh, cbs); } else blocks<double>(c, msh, cbs); }

// ------------------------------------------------------------ symmetric interior penalty
template<typename M> static void sip(Ctx& c, ref::Mesh& m, M& msh, const std::vector<size_t>& cm, int kmax) {
    constexpr int d = M::dimension; using pt = typename M::point_type; int k = c.range(1, kmax); Sum u = poly(c, c.chance(80) ? k : (int)c.range(0, k), m.pts, d); double eta = 0.5 + 20*c.unit(); size_t nc = msh.cells_size(), cbs = scalar_basis_size(k, d); c.label(m.kind); c.note << " k=" << k; c.nontrivial(nc > 1); auto own = ref::face_owners(m); auto cvf = connectivity_via_faces(msh); auto as = make_discontinuous_galerkin_assembler(msh, cbs);
    std::vector<Cell<M>> C; for (size_t i = 0; i < nc; i++) C.emplace_back(m, msh, cm, i); std::vector<double> mag(nc, 0); Vec U(nc*cbs); double q = 1e-13, kc = 1; std::map<Loop, std::vector<std::pair<size_t, size_t>>> adj; for (size_t i = 0; i < nc; i++) for (size_t f = 0; f < C[i].fcs.size(); f++) { Loop l; for (auto& p : C[i].fcs[f].point_ids()) l.push_back(size_t(p)); adj[ref::sorted(l)].push_back({i, f}); }
    for (size_t i = 0; i < nc; i++) { auto& x = C[i]; q = std::max(q, x.q); auto cb = make_scalar_monomial_basis(msh, x.cl, size_t(k)); auto pr = [&](Mat& G, Vec& g) { G = Mat::Zero(cbs, cbs); g = Vec::Zero(cbs); for (auto& y : x.cq(2*k)) { Vec v = cb.eval_functions(D<M>(y.x)); G += y.w*v*v.transpose(); g += y.w*v*u(y.x); } }; Mat G; Vec g; pr(G, g); kc = std::max(kc, hh::cond(G)); U.segment(i*cbs, cbs) = G.ldlt().solve(g); }
    for (size_t i = 0; i < nc; i++) { auto& x = C[i]; auto tb = make_scalar_monomial_basis(msh, x.cl, size_t(k)); Mat Kt = Mat::Zero(cbs, cbs); Vec rhs = Vec::Zero(cbs); auto vol = integrate(msh, x.cl, 2*k); for (auto& qp : vol) { auto dphi = tb.eval_gradients(qp.point()); auto phi = tb.eval_functions(qp.point()); Kt += qp.weight()*dphi*dphi.transpose(); mag[i] += std::abs(qp.weight())*dphi.squaredNorm(); } { auto f = [&](P y) { double lap = 0; double e = 1e-4; (void)e; auto H = hessp(u, y); for (int a = 0; a < d; a++) lap += H(a, a); return -lap; }; for (auto& y : x.cq(2*k)) { Vec v = tb.eval_functions(D<M>(y.x)); rhs += y.w*v*f(y.x); } }
        for (size_t f = 0; f < x.fcs.size(); f++) { auto& fc = x.fcs[f]; auto nv = cvf.neighbour_via(msh, x.cl, fc); Loop l; for (auto& p : fc.point_ids()) l.push_back(size_t(p)); auto& A = adj[ref::sorted(l)]; bool inner = A.size() == 2; c.check(nv.second == inner, "neighbour-existence", cat("cell ", i, " face ", f)); if (inner) { size_t other = A[0].first == i ? A[1].first : A[0].first; c.check(offset(msh, nv.first) == other, "neighbour", cat("cell ", i, " face ", f, ": reported ", offset(msh, nv.first), ", sharing cell is ", other)); }
            auto n = normal(msh, x.cl, fc); double el = eta/diameter(msh, fc); Mat Att = Mat::Zero(cbs, cbs), Atn = Att; auto fq = integrate(msh, fc, 2*k); for (auto& qp : fq) { auto ep = qp.point(); Vec tp = tb.eval_functions(ep); Mat tg = tb.eval_gradients(ep); Vec tn = tg*n; double w = qp.weight(), s = inner ? 0.5 : 1; Att += w*(el*tp*tp.transpose() - s*tp*tn.transpose() - s*tn*tp.transpose()); mag[i] += std::abs(w)*(el*tp.squaredNorm() + tp.norm()*tn.norm()); if (!inner) { double gd = u(dm::toP(ep)); rhs += w*gd*(el*tp - tn); continue; } auto nb = make_scalar_monomial_basis(msh, nv.first, size_t(k)); Vec np = nb.eval_functions(ep); Mat ng = nb.eval_gradients(ep); Vec nn = ng*n; Atn += w*(-el*tp*np.transpose() - 0.5*tp*nn.transpose() + 0.5*tn*np.transpose()); mag[i] += std::abs(w)*(el*tp.norm()*np.norm() + tp.norm()*nn.norm() + tn.norm()*np.norm()); }
            as.assemble(msh, x.cl, x.cl, Att); if (inner) as.assemble(msh, x.cl, nv.first, Atn); }
        as.assemble(msh, x.cl, Kt, rhs); }
    as.finalize(); Mat L = as.LHS; Vec R = L*U - as.RHS; double sc = 0; for (double v : mag) sc = std::max(sc, v); sc *= 1 + U.cwiseAbs().maxCoeff(); double tol = std::max(1e-10, 5*q)*std::max(1.0, 1e-5*kc); if (tol > 1e-4) throw pbt::Discard(); for (size_t i = 0; i < nc; i++) c.close(R.segment(i*cbs, cbs).cwiseAbs().maxCoeff(), 0, tol, sc, "patch-test", cat("cell ", i, " k=", k)); c.close((L - L.transpose()).cwiseAbs().maxCoeff(), 0, std::max(1e-10, 5*q), sc, "symmetry", "");
}

static M3d hessp(const Sum& s, P x) { M3d H = M3d::Zero(); for (size_t t = 0; t < s.p.size(); t++) { auto& q = s.p[t]; P dd = x - q.o; double A = ref::dot(q.a, dd), B = ref::dot(q.b, dd); int i = q.i, j = q.j; Eigen::Vector3d a(q.a[0], q.a[1], q.a[2]), b(q.b[0], q.b[1], q.b[2]); if (i > 1) H += s.a[t]*i*(i-1)*ref::ipow(A, i-2)*ref::ipow(B, j)*a*a.transpose(); if (i && j) H += s.a[t]*i*j*ref::ipow(A, i-1)*ref::ipow(B, j-1)*(a*b.transpose() + b*a.transpose()); if (j > 1) H += s.a[t]*j*(j-1)*ref::ipow(A, i)*ref::ipow(B, j-2)*b*b.transpose(); } return H; }
#define RA [](Ctx& c, auto& m, auto& msh, auto& cm) { asm_case(c, m, msh, cm); }
#define RS(k) [](Ctx& c, auto& m, auto& msh, auto& cm) { sip(c, m, msh, cm, k); }
PROP("assembler_g2", 30000, 200000) { on_g2(c, RA, 3); }
PROP("assembler_s3", 6000, 50000) { on_s3(c, RA, 2); }
PROP("sip_g2", 4000, 40000) { on_g2(c, RS(4), 3); }
PROP("sip_s2", 4000, 40000) { on_s2(c, RS(4), 3); }
PROP("sip_c2", 2400, 25000) { on_c2(c, RS(4), 3); }
PROP("sip_g3", 600, 6000) { on_g3(c, RS(2), 2); }
PROP("sip_s3", 800, 8000) { on_s3(c, RS(3), 2); }
