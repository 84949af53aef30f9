// L02: hardening plasticity along loading histories against an independent return mapping in extended precision.
#include "mech.hpp"
#include <iostream>
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
using namespace disk; using namespace me;
template<int D> using SM = static_matrix<double,D,D>; using S3 = SM<3>;
struct Mat { bool lin; L lam, mu, H = 0, K = 0, sy = 0; std::vector<std::pair<L,L>> R;
    L yield(L p) const { if (lin) return sy + H*p; size_t i = 0; while (i + 2 < R.size() && p >= R[i+1].first) i++; return R[i].second + (R[i+1].second - R[i].second)/(R[i+1].first - R[i].first)*(p - R[i].first); } };
struct St { M3 ep = M3::Zero(); L p = 0; };
struct Out { M3 s, n; St st; bool plastic; L phi; };
static M3 dev(const M3& m) { return M3(m - m.trace()/3*M3::Identity()); }
static L eqv(const M3& m) { return std::sqrt(1.5L)*m.norm(); }
static Out solve(const Mat& m, const St& st, const M3& e) { Out o; o.st = st; M3 se = 2*m.mu*(dev(e) - st.ep) - m.K*st.ep; L q = eqv(se); o.phi = q - m.yield(st.p); o.plastic = o.phi >= 0; o.n = M3::Zero(); if (o.plastic) { o.n = M3(1.5L/q*se); L a = 0, b = 1; auto f = [&](L dp) { return q - (3*m.mu + 1.5L*m.K)*dp - m.yield(st.p + dp); }; b = o.phi/m.mu; while (f(b) > 0) b *= 2; for (int it = 0; it < 90; it++) { L x = (a + b)/2; (f(x) > 0 ? a : b) = x; } L dp = (a + b)/2; o.st.p += dp; o.st.ep += dp*o.n; } M3 ee = e - o.st.ep; o.s = 2*m.mu*ee + m.lam*ee.trace()*M3::Identity(); return o; }
static Mat material(Ctx& c, bool lin, bool finite) { Mat m; m.lin = lin; m.mu = double(std::pow(10.0L, L(c.range(-1, 3)))*(1 + 8*L(c.unit()))); m.lam = double(m.mu*std::pow(10.0L, L(c.range(-1, 2)))*(0.2L + L(c.unit()))); L y = std::pow(10.0L, L(-c.range(1, finite ? 2 : 4)))*(0.3L + 0.7L*L(c.unit())); m.sy = double(m.mu*y); if (lin) { if (c.chance(70)) m.H = double(m.mu*std::pow(10.0L, L(-c.range(0, 3)))*L(c.unit())); if (c.chance(60)) m.K = double(m.mu*std::pow(10.0L, L(-c.range(0, 2)))*L(c.unit())); } else { int n = c.range(2, 6); L p = 0, r = m.sy; bool soft = c.chance(25); if (c.chance(20)) p = double(y*0.1L*L(c.unit())); m.R.push_back({p, r}); for (int i = 1; i < n; i++) { L dp = y*(0.05L + 2*L(c.unit())); L sl = m.mu*std::pow(10.0L, L(-c.range(0, 3)))*L(c.unit()); L dr = sl*dp; if (soft && i + 1 < n && c.chance(50)) dr = -std::min(0.4L*r, 1.5L*m.mu*dp*L(c.unit())); if (c.chance(10)) dr = 0; p = double(p + dp); r = double(r + dr); m.R.push_back({p, r}); } } return m; }
static MaterialData<double> data(Ctx& c, const Mat& m) { MaterialData<double> d(double(m.lam), double(m.mu), double(m.H), double(m.K), double(m.sy)); if (!m.lin) { if (c.chance(50)) { auto r = m.R; c.shuffle(r); for (auto& [p, v] : r) d.addCurvePoint(double(p), double(v)); d.checkRpCurve(); } else { std::vector<curve_point<double>> v; for (auto& [p, r] : m.R) v.emplace_back(double(p), double(r)); d.setRpCurve(v); d.checkRpCurve(); } } return d; }
template<int D> static M3 up(const SM<D>& x) { M3 m = M3::Zero(); m.template block<D,D>(0, 0) = x.template cast<L>(); return m; }
// next strain of a history: increments, proportional loading, reversals, hydrostatic, repetitions
template<int D> static SM<D> next(Ctx& c, const SM<D>& last, const SM<D>& dir, double y, std::string& h) { auto sym = [&](double a) { SM<D> x; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) x(i, j) = x(j, i) = a*c.sym(); return x; }; SM<D> I = SM<D>::Identity(); switch (c.draw(9)) { case 0: h += "increment "; return last + sym(y); case 1: h += "small "; return last + sym(0.05*y); case 2: h += "large "; return last + sym(20*y); case 3: h += "along "; return last + 2*y*c.sym()*dir; case 4: h += "reverse "; return -last; case 5: h += "zero "; return SM<D>::Zero(); case 6: h += "hydrostatic "; return std::pow(10.0, c.range(-3, 2))*y*c.sym()*I; case 7: h += "repeat "; return last; default: h += "volumetric "; return last + y*c.sym()*I; } }
template<class Q, int D> static void history(Ctx& c, bool lin) { Mat m = material(c, lin, false); auto md = data(c, m); double y = double(m.sy/m.mu); Q q(point<double,D>(), 1); St st; SM<D> last = SM<D>::Zero(), dir; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) dir(i, j) = dir(j, i) = c.sym(); int steps = c.range(1, c.thorough ? 24 : 12); std::string h; bool was = false; double amp = 0; M3 e0 = M3::Zero(); double hmax = double(m.mu + m.lam), sold = 0; (void)e0;
    for (int s = 0; s < steps; s++) { SM<D> E = next<D>(c, last, dir, y, h); if (E.norm() > 0.5) E *= 0.5/E.norm(); M3 e = up<D>(E); amp = std::max(amp, E.norm()); Out o = solve(m, st, e); c.label(o.plastic ? "plastic" : "elastic"); was = was || (o.plastic && s > 0); double sc = hmax*(amp + 1e-30), ts = 1e-12*(1 + s); bool tg = c.chance(80); SM<D> P; static_tensor<double,D> A; try { auto r = q.compute_whole(E, md, tg); P = r.first; A = r.second; } catch (const std::exception& x) { c.fail("refused", cat(lin ? "linear" : "curve", " hardening: ", x.what(), " after ", h)); }
        std::string w = cat(lin ? "linear" : "curve", " hardening, ", D, "D, step ", s, ": ", h); c.note.str(w); c.close((P - SM<D>(o.s.block<D,D>(0, 0).template cast<double>())).norm(), 0, ts, sc, "stress", w); S3 F = q.compute_stress3D(md); c.close((F - o.s.cast<double>()).norm(), 0, ts, sc, "stress-3D", w); c.close((q.compute_stress(md) - P).norm(), 0, 1e-15, sc, "stress-of-state", w); double tp = ts*sc/double(m.mu); c.close(q.getEquivalentPlasticStrain(), double(o.st.p), 1, tp, "cumulated-plastic-strain", w); c.close((q.getPlasticStrain() - o.st.ep.cast<double>()).norm(), 0, 1, tp, "plastic-strain", w); c.close((q.getElasticStrain() - M3(e - o.st.ep).cast<double>()).norm(), 0, 1, tp, "elastic-strain", w); c.close((q.getTotalStrain() - E).norm(), 0, 1e-14, amp*(1 + s), "total-strain", w); if (std::abs(double(o.phi)) > ts*sc) c.check(q.is_plastic() == o.plastic, "is-plastic", w);
        // admissibility straight from the returned state
        M3 sl = F.template cast<L>(), ep = q.getPlasticStrain().template cast<L>(); L p = q.getEquivalentPlasticStrain(), ys = m.yield(p); c.check(double(eqv(dev(sl) - m.K*ep) - ys) <= ts*sc, "outside-yield-surface", w); c.check(double(p - st.p) >= -tp, "plastic-strain-decreases", w); c.close(double(ep.trace()), 0, 1, tp, "plastic-flow-changes-volume", w); if (q.is_plastic()) c.close(double(eqv(dev(sl) - m.K*ep)), double(ys), ts, sc, "plastic-off-yield-surface", w);
        if (tg) { auto At = get<double,D>(A); L hh = std::max<L>(1e-7L*y, 1e-9L*amp); for (int rep = 0; rep < 2; rep++) { SM<D> Hd; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) Hd(i, j) = Hd(j, i) = c.sym(); M3 H = up<D>(Hd); auto side = [&](L t) { return solve(m, st, M3(e + t*H)); }; Out a = side(4*hh), b = side(-4*hh); auto seg = [&](L pp) { int i = 0; if (!m.lin) while (i + 2 < int(m.R.size()) && pp >= m.R[i+1].first) i++; return i; }; if (a.plastic != b.plastic || a.plastic != o.plastic || seg(a.st.p) != seg(b.st.p) || std::abs(o.phi) < ts*sc) { c.label("at a kink"); continue; } M3 g = M3((8*(side(hh).s - side(-hh).s) - (side(2*hh).s - side(-2*hh).s))/(12*hh)); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { L v = 0; for (int k = 0; k < D; k++) for (int l = 0; l < D; l++) v += At(i,j,k,l)*H(k,l); c.close(double(v), double(g(i,j)), 1e-7, hmax, "consistent-tangent", w); } } }
        auto prev = q.getTotalStrainPrev(); if (c.chance(60)) { q.update(); c.close((q.getTotalStrainPrev() - E).norm(), 0, 1e-14, amp*(1 + s), "update-commits", w); c.close((q.compute_stress3DPrev(md) - F).norm() + (q.compute_stressPrev(md) - P).norm(), 0, 1e-14, sc, "previous-stress", w); st.ep = q.getPlasticStrain().template cast<L>(), st.p = q.getEquivalentPlasticStrain(); last = E; h += "COMMIT "; } else { c.close((prev - last).norm(), 0, 1e-13, amp*(1 + s) + 1e-30, "trial-does-not-commit", w); (void)sold; } }
    c.nontrivial(was); }
PROP("linear2", 30000, 2000000) { history<LinearIsotropicAndKinematicHardening_qp<double,2>,2>(c, true); }
PROP("linear3", 30000, 2000000) { history<LinearIsotropicAndKinematicHardening_qp<double,3>,3>(c, true); }
PROP("curve2", 30000, 2000000) { history<IsotropicHardeningVMis_qp<double,2>,2>(c, false); }
PROP("curve3", 30000, 2000000) { history<IsotropicHardeningVMis_qp<double,3>,3>(c, false); }
// the same laws in logarithmic strain
template<class Q, int D> static void finite(Ctx& c, bool lin) { Mat m = material(c, lin, true); auto md = data(c, m); double y = double(m.sy/m.mu); mechanics::LogarithmicStrain_qp<Q> q(point<double,D>(), 1); St st; int steps = c.range(1, 5); std::string h; bool was = false; SM<D> F = SM<D>::Identity(); double hm = double(m.mu + m.lam);
    for (int s = 0; s < steps; s++) { SM<D> G; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) G(i, j) = c.sym(); SM<D> F1 = SM<D>::Identity() + std::min(0.25, (c.chance(40) ? 8 : 1.5)*y)*G; if (c.chance(30)) F1 = SM<D>(F*F1); if (!(F1.determinant() > 0.1) || F1.norm() > 4) continue; M3 F3 = up<D>(F1); if (D == 2) F3(2,2) = 1; M3 C = F3.transpose()*F3, E = 0.5L*log0(C); Out o = solve(m, st, E); was = was || (s > 0 && o.plastic); c.label(o.plastic ? "plastic" : "elastic"); std::string w = cat(lin ? "linear" : "curve", " hardening in log strain, ", D, "D, step ", s, ": ", h); c.note.str(w); auto [P, A] = q.compute_whole(F1, md, true); double amp = double(C.norm()), am2 = double(C.inverse().norm()), sc = hm*amp*am2*am2*10; auto At = get<double,D>(A);
        c.close(q.getEquivalentPlasticStrain(), double(o.st.p), 1e-12*amp*am2*hm/double(m.mu), 10, "cumulated-plastic-strain", w); c.close((q.compute_stress3D_T(md) - o.s.cast<double>()).norm(), 0, 1e-12, 10*sc, "log-stress", w); c.check(double(eqv(dev(q.compute_stress3D_T(md).template cast<L>()) - m.K*q.getPlasticStrain().template cast<L>()) - m.yield(q.getEquivalentPlasticStrain())) < 1e-11*sc, "outside-yield-surface", w);
        Q z(point<double,D>(), 1); (void)z; for (int rep = 0; rep < 2; rep++) { M3 H1 = up<D>(SM<D>(rmat<D>(c).template cast<double>())), H2 = up<D>(SM<D>(rmat<D>(c).template cast<double>())); M3 C1 = H1.transpose()*F3 + F3.transpose()*H1, C2 = H2.transpose()*F3 + F3.transpose()*H2, C12 = H1.transpose()*H2 + H2.transpose()*H1; M3 E1 = 0.5L*log1(C, C1), E2 = 0.5L*log1(C, C2); L g = o.s.cwiseProduct(E1).sum(), v = 0; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) v += L(P(i,j))*H1(i,j); c.close(double(v), double(g), 1e-11, 10*sc, "stress-from-log-stress", w);
            L hh = 1e-7L*y; auto side = [&](L t) { return solve(m, st, M3(E + t*E2)); }; Out a = side(4*hh), b = side(-4*hh); auto seg = [&](L pp) { int i = 0; if (!m.lin) while (i + 2 < int(m.R.size()) && pp >= m.R[i+1].first) i++; return i; }; if (a.plastic != b.plastic || a.plastic != o.plastic || seg(a.st.p) != seg(b.st.p) || std::abs(o.phi) < 1e-11*sc) continue; M3 dT = M3((8*(side(hh).s - side(-hh).s) - (side(2*hh).s - side(-2*hh).s))/(12*hh)); L t2 = dT.cwiseProduct(E1).sum() + o.s.cwiseProduct(0.5L*(log2(C, C1, C2) + log1(C, C12))).sum(), r = 0; FOR4(D) r += H1(i,j)*At(i,j,k,l)*H2(k,l); c.close(double(r), double(t2), 1e-7, 10*sc*am2, "consistent-tangent", w); }
        if (c.chance(60)) { q.update(); st.ep = q.getPlasticStrain().template cast<L>(), st.p = q.getEquivalentPlasticStrain(); F = F1; h += "COMMIT "; } else h += "trial "; }
    c.nontrivial(was); }
PROP("log-linear2", 1500, 100000) { finite<LinearIsotropicAndKinematicHardening_qp<double,2>,2>(c, true); }
PROP("log-linear3", 1500, 100000) { finite<LinearIsotropicAndKinematicHardening_qp<double,3>,3>(c, true); }
PROP("log-curve2", 1500, 100000) { finite<IsotropicHardeningVMis_qp<double,2>,2>(c, false); }
PROP("log-curve3", 1500, 100000) { finite<IsotropicHardeningVMis_qp<double,3>,3>(c, false); }
// material parameters
PROP("material", 20000, 500000) { c.nontrivial(); double E = std::pow(10.0, c.range(-3, 6))*(1 + c.unit()), nu = 0.49*c.unit(), K = E*0.3*c.unit()*(c.chance(50)), ET = E*(0.001 + 0.9*c.unit()); MaterialData<double> d; d.setMu(E, nu); d.setLambda(E, nu); d.setK(K); c.close(d.getE(), E, 1e-13, E*100, "young-modulus"); c.close(d.getNu(), nu, 1e-13, 100, "poisson-ratio"); double b = d.getMu()*3 + d.getLambda() - d.getMu(); (void)b; c.close(d.getLambda() + 2*d.getMu()/3, E/(3*(1 - 2*nu)), 1e-13, 100*E, "bulk-modulus"); d.setH(E, ET, K); c.close(d.getET(), ET, 1e-12, 100*E, "tangent-modulus"); double H = d.getH(); if (H + 1.5*K > 1e-3*E) { // uniaxial slope: E ET/(E-ET) is the plastic modulus
        c.close(1/ET, 1/E + 1/(H + 1.5*K), 1e-10, 1/ET, "plastic-modulus"); }
    int n = c.range(1, 6); std::vector<std::pair<double,double>> pts; double p = c.chance(50) ? 0 : c.unit(); for (int i = 0; i < n; i++) { pts.push_back({p, 10*c.unit()}); p += 0.01 + c.unit(); } bool dup = n > 1 && c.chance(30); if (dup) { size_t k = c.draw(n - 1); pts[k+1].first = pts[k].first; } auto sh = pts; c.shuffle(sh); MaterialData<double> r; for (auto& q : sh) r.addCurvePoint(q.first, q.second); bool ex = false; try { r.checkRpCurve(); } catch (const std::invalid_argument&) { ex = true; } c.check(ex == dup, "duplicate-curve-points"); auto cv = r.getRpCurve(); c.check(cv.size() == pts.size(), "curve-size"); if (!dup) for (int i = 0; i < n; i++) c.check(cv[i].getP() == pts[i].first && cv[i].getRp() == pts[i].second, "curve-order"); }
// cell projections of the plastic state
template<int D, template<typename> class Law, class Q> static void cells(Ctx& c, bool lin) { using M = simplicial_mesh<double,D>; M msh; auto mesher = make_simple_mesher(msh); if (c.chance(30)) mesher.refine(); size_t gd = c.range(0, 2), deg = 2*gd + c.range(0, 1); Mat m = material(c, lin, false); auto md = data(c, m); Law<M> law(msh, deg); law.addMaterialData(md); c.check(law.getMaterialData().getSigma_y0() == md.getSigma_y0() && law.getMaterialData().getRpCurve().size() == md.getRpCurve().size(), "material-stored"); size_t ce = c.draw(msh.cells_size()); auto& cq = law.getCellQPs(int(ce)); auto cl = *std::next(msh.cells_begin(), ce); auto qps = integrate(msh, cl, deg); c.check(size_t(cq.getNumberOfQP()) == qps.size(), "number-of-quadrature-points"); double y = double(m.sy/m.mu); c.nontrivial(); c.note << D << "D cell " << ce << " degree " << gd;
    for (size_t q = 0; q < qps.size(); q++) { SM<D> E; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) E(i, j) = E(j, i) = 2*y*c.sym(); cq.getQP(q).compute_whole(E, md, false); } if (c.chance(50)) law.update(); hho_degree_info hdi(hho_degree_info(gd, gd, gd)); if (hdi.grad_degree() != gd) return; const auto& ccq = law.getCellQPs(int(ce)); auto pb = make_scalar_monomial_basis(msh, cl, gd); for (int what = 0; what < 2; what++) { Eigen::VectorXd v = what ? ccq.projectStateOnCell(msh, cl, hdi) : ccq.projectPOnCell(msh, cl, hdi); Eigen::VectorXd res = Eigen::VectorXd::Zero(pb.size()); double sc = 1e-300; for (size_t q = 0; q < qps.size(); q++) { auto& k = ccq.getQPs()[q]; Eigen::VectorXd phi = pb.eval_functions(qps[q].point()); double f = what ? double(k.is_plastic()) : k.getEquivalentPlasticStrain(); res += qps[q].weight()*(phi.dot(v) - f)*phi; sc += qps[q].weight()*std::abs(f); } c.close(res.cwiseAbs().maxCoeff(), 0, 1e-10, sc, what ? "plastic-state-projection" : "plastic-strain-projection"); } }
PROP("cells2", 1500, 60000) { if (c.chance(50)) cells<2,LinearIsotropicAndKinematicHardening,LinearIsotropicAndKinematicHardening_qp<double,2>>(c, true); else cells<2,IsotropicHardeningVMis,IsotropicHardeningVMis_qp<double,2>>(c, false); }
PROP("cells3", 800, 30000) { if (c.chance(50)) cells<3,LinearIsotropicAndKinematicHardening,LinearIsotropicAndKinematicHardening_qp<double,3>>(c, true); else cells<3,IsotropicHardeningVMis,IsotropicHardeningVMis_qp<double,3>>(c, false); }
