// L01: elastic and hyperelastic laws against their stored energies; dispatch through Behavior.
#include "mech.hpp"
#include <iostream>
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
using namespace disk; using namespace me;
template<typename T, int D> using SM = static_matrix<T,D,D>; template<typename T, int D> using ST = static_tensor<T,D>;
template<int D> using LM = Eigen::Matrix<L,D,D>;
template<int D> static M3 with(const LM<D>& F, L one) { M3 m = one*M3::Identity(); m.template block<D,D>(0, 0) = F; return m; }
// value, first and second directional derivatives by central differences of order six in extended precision
static const L W1[3] = {0.75L, -0.15L, 1.0L/60};
template<class F> static L d1(F&& f, L h) { L s = 0; for (int k = 1; k <= 3; k++) s += W1[k-1]*(f(k*h) - f(-k*h)); return s/h; }
template<class F> static L d2(F&& f, L h) { return d1([&](L t) { return d1([&](L s) { return f(s, t); }, h); }, h); }
static L Uvol(int type, L J) { switch (type) { case 1: return std::log(J); case 2: return J - 1; case 3: return std::log(J)/std::log(10.0L); case 4: return 1 - 1/J; case 5: return J*J - 1; default: { L x = J - 1; L l = std::log1p(x); return std::sqrt(std::max(0.0L, (x*(x + 2) - 2*l)/2)); } } }
struct Mat { L lam, mu; int type; }; static Mat material(Ctx& c) { Mat m; m.mu = std::pow(10.0L, L(c.range(-2, 2)))*(1 + 8*L(c.unit())); m.lam = c.chance(10) ? 0 : m.mu*std::pow(10.0L, L(c.range(-1, 2)))*(0.2L + L(c.unit())); m.type = c.range(1, 6); m.lam = double(m.lam); m.mu = double(m.mu); return m; }
template<typename T> static MaterialData<T> data(const Mat& m) { MaterialData<T> d{T(m.lam), T(m.mu)}; d.setType(m.type); return d; }
enum Law { NEO, CAV, LIN, LOG };
static L energy(int law, const Mat& m, const M3& F) { M3 C = F.transpose()*F; L J = F.determinant(), U = law <= CAV ? Uvol(m.type, J) : 0; switch (law) { case NEO: return m.mu/2*(C.trace() - 3) + m.lam/2*U*U - m.mu*std::log(J); case CAV: return 2*m.mu/std::pow(3.0L, 1.25L)*std::pow(C.trace(), 0.75L) + m.lam/2*U*U - m.mu*std::log(J); case LIN: return m.lam/2*C.trace(); default: { M3 E = 0.5L*log0(C); return m.mu*E.squaredNorm() + m.lam/2*E.trace()*E.trace(); } } }
// DW.H1 and D2W.(H1,H2)
static std::pair<L,L> slopes(int law, const Mat& m, const M3& F, const M3& H1, const M3& H2, L smin) {
    if (law == LOG) { M3 C = F.transpose()*F, C1 = H1.transpose()*F + F.transpose()*H1, C2 = H2.transpose()*F + F.transpose()*H2, C12 = H1.transpose()*H2 + H2.transpose()*H1; M3 E = 0.5L*log0(C), E1 = 0.5L*log1(C, C1), E2 = 0.5L*log1(C, C2), E12 = 0.5L*(log2(C, C1, C2) + log1(C, C12)); auto S = [&](const M3& x) { return M3(2*m.mu*x + m.lam*x.trace()*M3::Identity()); }; return {S(E).cwiseProduct(E1).sum(), S(E1).cwiseProduct(E2).sum() + S(E).cwiseProduct(E12).sum()}; }
    L h = 1e-3L*smin; return {d1([&](L s) { return energy(law, m, M3(F + s*H1)); }, h), d2([&](L s, L t) { return energy(law, m, M3(F + s*H1 + t*H2)); }, h)}; }
template<typename Q, int D> static void finite(Ctx& c, int law) { c.label(law == NEO ? "neohookean" : law == CAV ? "cavitation" : law == LIN ? "linear" : "logarithmic"); Mat m = material(c); if (law <= CAV) c.label(cat("U", m.type)); auto md = data<double>(m); std::string kind; auto s = stretches(c, kind); if (D == 2) s[2] = 1; M3 V = D == 2 ? rot2(c) : rot(c), R = D == 2 ? rot2(c) : rot(c); M3 U = M3::Zero(); for (int i = 0; i < 3; i++) U(i,i) = s[i]; M3 F3 = R*V*U*V.transpose(); bool ref = c.chance(8); if (ref) F3 = M3::Identity(); LM<D> Fl = F3.block<D,D>(0, 0); SM<double,D> F = Fl.template cast<double>(); Fl = F.template cast<L>(); F3 = with<D>(Fl, law == LIN ? 0 : 1); c.nontrivial(!ref); c.note << c.labels[0] << " U" << m.type << " lambda " << double(m.lam) << " mu " << double(m.mu) << " stretches " << double(s[0]) << " " << double(s[1]) << " " << double(s[2]); std::string w = c.labels[0] + (law <= CAV ? cat(" U", m.type) : "");
    L smin = std::min({s[0], s[1], s[2], 1.0L}), smax = std::max({s[0], s[1], s[2], 1.0L}); double sc = double((m.lam + m.mu)*std::pow(smax, 6)/std::pow(smin, 4)); if (law != LIN && !(F3.determinant() > 0.02L)) throw pbt::Discard();
    Q q(point<double,D>(), 0.25); if (c.chance(50)) { LM<D> G = LM<D>(LM<D>::Identity() + 0.25L*rmat<D>(c)); q.compute_whole(SM<double,D>(G.template cast<double>()), md, c.chance(50)); c.label("reused"); } auto [P, A] = q.compute_whole(F, md, true); LM<D> Pl = P.template cast<L>(); auto At = get<double,D>(A);
    for (int rep = 0; rep < 2; rep++) { LM<D> H1, H2; if (rep == 0) { H1.setZero(); H2.setZero(); H1(c.draw(D), c.draw(D)) = 1; H2(c.draw(D), c.draw(D)) = 1; } else { H1 = rmat<D>(c); H2 = rmat<D>(c); } auto [g, h] = slopes(law, m, F3, with<D>(H1, 0), with<D>(H2, 0), smin); c.close(double(Pl.cwiseProduct(H1).sum()), double(g), 3e-13*(law == LOG ? 30 : 1), sc, "stress-is-derivative-of-energy", w); L a = 0; FOR4(D) a += H1(i,j)*At(i,j,k,l)*H2(k,l); c.close(double(a), double(h), 1e-10, 10*sc/double(smin), "tangent-is-derivative-of-stress", w); }
    // same stress without the tangent, from the state, after an update, and through the 3D routine
    double ts = 1e-13*(1 + 1/double(smin))*sc; { Q q2(point<double,D>(), 0.25); auto [P2, A2] = q2.compute_whole(F, md, false); c.close((P2 - P).norm(), 0, 1e-14*sc, 1, "stress-without-tangent", w); (void)A2; } c.close((q.compute_stress(md) - P).norm(), 0, 1e-14*sc, 1, "stress-of-state", w); auto S3 = q.compute_stress3D(md); c.close((S3.template block<D,D>(0, 0) - P).norm(), 0, 1e-14*sc, 1, "stress3D-of-state", w); if (law != LOG) { c.close((q.getTotalStrain() - F).norm(), 0, 0, 0, "state-strain", w); } else { M3 E = 0.5L*log0(M3(F3.transpose()*F3)); c.close((q.getTotalStrain() - LM<D>(E.block<D,D>(0, 0)).template cast<double>()).norm(), 0, 1e-13, 10*double(smax*smax/smin/smin), "state-strain", w); } c.close(q.getTotalStrainPrev().norm(), 0, 0, 0, "trial-does-not-commit", w); auto cur = q.getTotalStrain(); q.update(); c.close((q.getTotalStrainPrev() - cur).norm(), 0, 0, 0, "update-commits", w); c.check(!q.is_plastic() && q.getEquivalentPlasticStrain() == 0 && q.getPlasticStrain().norm() == 0, "elastic-law-is-plastic", w);
    if constexpr (std::is_same_v<Q, Neohookean_qp<double,D>> || std::is_same_v<Q, Cavitation_qp<double,D>>) { double W = q.compute_energy(md); c.close(W, double(energy(law, m, F3)), 1e-13, 20*sc, "energy", w); c.close((q.compute_stressPrev3D(md) - S3).norm(), 0, 1e-14*sc, 1, "previous-stress", w); if (m.type == 6) c.check(W == W, "energy-not-a-number", w); }
    if constexpr (std::is_same_v<Q, LinearLaw_qp<double,D>>) (void)0; else { // plane deformation is the plane part of the spatial law
        M3 F33 = F3; if constexpr (D == 2) { using Q3 = std::conditional_t<std::is_same_v<Q, Neohookean_qp<double,2>>, Neohookean_qp<double,3>, std::conditional_t<std::is_same_v<Q, Cavitation_qp<double,2>>, Cavitation_qp<double,3>, mechanics::LogarithmicStrain_qp<LinearElasticity_qp<double,3>>>>; Q3 q3(point<double,3>(), 1); auto [P3, A3] = q3.compute_whole(F33.cast<double>(), md, true); c.close((P3.template block<2,2>(0, 0) - P).norm(), 0, ts, 1, "plane-is-spatial", w); auto A3t = get<double,3>(A3); T4<2> r; FOR4(2) r(i,j,k,l) = A3t(i,j,k,l); c.close(diff(r, At), 0, 1e-11*sc/double(smin*smin), 1, "plane-tangent-is-spatial", w); c.close((S3 - P3).norm(), 0, ts, 1, "plane-3D-stress", w); } }
    { M3 Q3 = D == 2 ? rot2(c) : rot(c); LM<D> R2 = Q3.block<D,D>(0, 0); Q q2(point<double,D>(), 1); auto [P2, A2] = q2.compute_whole(SM<double,D>((R2*Fl).template cast<double>()), md, true); c.close((P2 - SM<double,D>((R2*Pl).template cast<double>())).norm(), 0, 30*ts, 1, "objectivity", w); (void)A2; Q q3(point<double,D>(), 1); auto [P4, A4] = q3.compute_whole(SM<double,D>((Fl*R2).template cast<double>()), md, true); c.close((P4 - SM<double,D>((Pl*R2).template cast<double>())).norm(), 0, 30*ts, 1, "isotropy", w); (void)A4; }
    if (ref && law != CAV && law != LIN) c.close(P.norm(), 0, 1e-14, double(m.lam + m.mu), "stress-free-reference", w);
    if (law != LIN && c.chance(30)) { SM<double,D> B = F; B.row(0) = -B.row(0); bool ex = false; try { q.compute_whole(B, md, true); } catch (const std::invalid_argument&) { ex = true; } c.check(ex, "inverted-deformation-accepted", w); }
}
template<int D> static void fin(Ctx& c) { switch (c.draw(6)) { case 0: case 1: finite<Neohookean_qp<double,D>,D>(c, NEO); break; case 2: case 3: finite<Cavitation_qp<double,D>,D>(c, CAV); break; case 4: finite<mechanics::LogarithmicStrain_qp<LinearElasticity_qp<double,D>>,D>(c, LOG); break; default: finite<LinearLaw_qp<double,D>,D>(c, LIN); } }
PROP("finite2", 20000, 2000000) { fin<2>(c); }
PROP("finite3", 20000, 2000000) { fin<3>(c); }
// small strain
template<int D> static void small(Ctx& c) { c.nontrivial(); Mat m = material(c); auto md = data<double>(m); double amp = std::pow(10.0, c.range(-6, 1)); LM<D> e = rmat<D>(c); e = LM<D>(L(amp)*(e + e.transpose())); if (c.chance(15)) e = LM<D>(LM<D>::Identity()*L(amp)); SM<double,D> E = e.template cast<double>(); e = E.template cast<L>(); LM<D> I = LM<D>::Identity(); SM<double,D> Id = SM<double,D>::Identity(); double n = double(e.norm()), sc = double(m.lam + m.mu)*n; auto dd = [](const LM<D>& x) { return SM<double,D>(x.template cast<double>()); }; T4<D> C; auto k = [](int i, int j) { return L(i == j); }; FOR4(D) C(i,j,k,l) = m.lam*(i == j)*(k == l) + m.mu*((i == k)*(j == l) + (i == l)*(j == k)); (void)k;
    LinearElasticity_qp<double,D> q(point<double,D>(), 1); auto [s, A] = q.compute_whole(E, md, c.chance(50)); LM<D> ref = 2*m.mu*e + m.lam*e.trace()*I; c.close((s - dd(ref)).norm(), 0, 1e-14, 10*sc, "elastic-stress"); c.close(diff(get<double,D>(A), C), 0, 1e-15, 9*double(m.lam + m.mu), "elastic-modulus"); M3 full = M3::Zero(); full.block<D,D>(0, 0) = ref; if (D == 2) full(2,2) = m.lam*e.trace(); c.close((q.compute_stress3D(md) - full.cast<double>()).norm(), 0, 1e-14, 10*sc, "elastic-stress-3D"); c.close((q.compute_stress3DPrev(md)).norm(), 0, 0, 0, "trial-does-not-commit"); q.update(); c.close((q.compute_stressPrev(md) - s).norm(), 0, 1e-14, 10*sc, "previous-stress"); c.close((q.compute_stress3DPrev(md) - full.cast<double>()).norm(), 0, 1e-14, 10*sc, "previous-stress-3D"); c.close((q.getTotalStrain() - E).norm() + (q.getTotalStrainPrev() - E).norm(), 0, 0, 0, "state-strain");
    // Hencky-Mises
    HenckyMises_qp<double,D> h(point<double,D>(), 1); auto [hs, hA] = h.compute_whole(E, md, true); LM<D> dev = e - e.trace()/D*I; L x = 1/std::sqrt(1 + dev.squaredNorm()), tm = m.mu*(1 + x), tl = m.lam + m.mu/2 - m.mu/2*x; LM<D> hr = tm*e + tl*e.trace()*I; c.close((hs - dd(hr)).norm(), 0, 1e-14, 10*sc, "hencky-stress"); c.close(diff(get<double,D>(hA), C), 0, 1e-15, 9*double(m.lam + m.mu), "hencky-modulus"); c.close((h.compute_stress(md) - hs).norm(), 0, 1e-15, sc, "hencky-stress-of-state"); if (D == 3) c.close((h.compute_stress3D(md).template block<D,D>(0, 0) - hs).norm(), 0, 1e-14, 10*sc, "hencky-stress-3D"); if (n < 1e-3) c.close((hs - s).norm(), 0, 1, sc*n*n, "hencky-is-linear-at-zero");
    M3 R3 = D == 2 ? rot2(c) : rot(c); LM<D> R = R3.block<D,D>(0, 0); HenckyMises_qp<double,D> h2(point<double,D>(), 1); auto [hs2, hA2] = h2.compute_whole(dd(LM<D>(R*e*R.transpose())), md, true); c.close((hs2 - dd(LM<D>(R*hs.template cast<L>()*R.transpose()))).norm(), 0, 1e-13, 10*sc, "hencky-isotropy"); (void)hA2;
    if constexpr (D == 2) { LM<D> H = rmat<D>(c); H = LM<D>(H + H.transpose()); auto W = [&](L t) { LM<D> y = e + t*H; LM<D> dv = y - y.trace()/2*I; L r = dv.squaredNorm(), tr = y.trace(); return m.mu/2*r + m.mu*std::sqrt(1 + r) + (m.lam + m.mu)/2*tr*tr; }; c.close(double(hs.template cast<L>().cwiseProduct(H).sum()), double(d1(W, 1e-3L)), 1e-12, 40*(sc + double(m.mu)*1e-2), "hencky-plane-energy"); }
}
PROP("small2", 20000, 3000000) { small<2>(c); }
PROP("small3", 20000, 3000000) { small<3>(c); }
// dispatch
template<int D, class Q> static void drive(Ctx& c, const char* name, Behavior<simplicial_mesh<double,D>>& B, simplicial_mesh<double,D>& msh, size_t deg, const MaterialData<double>& md, bool finite) {
    std::vector<Q> ref; std::vector<size_t> first; size_t tot = 0, ci = 0; for (auto& cl : msh) { first.push_back(tot); auto qps = integrate(msh, cl, deg); c.check(B.numberOfQP(ci) == qps.size() && B.numberOfQP(msh, cl) == qps.size(), "cell-quadrature-size", name); for (size_t i = 0; i < qps.size(); i++) { auto bq = B.quadrature_point(ci, i); c.check((bq.point() - qps[i].point()).to_vector().norm() == 0 && bq.weight() == qps[i].weight(), "quadrature-point", name); ref.emplace_back(qps[i].point(), qps[i].weight()); } tot += qps.size(); ci++; } first.push_back(tot); c.check(B.numberOfQP() == tot, "number-of-quadrature-points", name); std::vector<bool> seen(tot, false); int steps = c.range(1, 12); std::string hist;
    for (int s = 0; s < steps; s++) { size_t cell = c.draw(msh.cells_size()), q = c.draw(first[cell+1] - first[cell]), g = first[cell] + q; if (c.chance(20)) { B.update(); for (auto& r : ref) r.update(); hist += "U "; } else { SM<double,D> G = SM<double,D>::Zero(); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) G(i, j) = 0.2*c.sym(); if (!finite) G = SM<double,D>(G + G.transpose()); else G += SM<double,D>::Identity(); bool tg = c.chance(70); auto [a, A] = B.compute_whole(cell, q, G, tg); auto [r, R] = ref[g].compute_whole(G, md, tg); seen[g] = true; hist += cat(cell, ".", q, " "); c.check(a == r && (!tg || A == R), "behavior-result", cat(name, ": ", hist)); }
        for (size_t k = 0; k < std::min<size_t>(tot, 60); k++) { size_t ce = 0; while (first[ce+1] <= k) ce++; if (finite && !seen[k]) continue; c.check(B.compute_stress3D(ce, k - first[ce]) == ref[k].compute_stress3D(md), "behavior-state", cat(name, ": ", hist)); c.check(B.is_plastic(ce, k - first[ce]) == ref[k].is_plastic() && B.equivalentPlasticStrain(ce, k - first[ce]) == ref[k].getEquivalentPlasticStrain(), "behavior-plastic-state", cat(name, ": ", hist)); } }
    // projection of the stress on a cell
    size_t ce = c.draw(msh.cells_size()); size_t gd = deg/2; auto cl = *std::next(msh.cells_begin(), ce); for (size_t q = first[ce]; q < first[ce+1]; q++) { SM<double,D> G = SM<double,D>::Zero(); for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) G(i, j) = G(j, i) = 0.1*c.sym(); if (finite) G += SM<double,D>::Identity(); B.compute_whole(ce, q - first[ce], G, true); ref[q].compute_whole(G, md, true); } hho_degree_info hdi(hho_degree_info(gd, gd, gd)); if (hdi.grad_degree() == gd) { auto v = B.projectStressOnCell(msh, cl, hdi); auto gb = make_matrix_monomial_basis(msh, cl, gd); Eigen::VectorXd res = Eigen::VectorXd::Zero(gb.size()); double sc = 0; for (size_t q = first[ce]; q < first[ce+1]; q++) { auto bq = B.quadrature_point(ce, q - first[ce]); auto phi = gb.eval_functions(bq.point()); SM<double,D> s = ref[q].compute_stress(md), p = SM<double,D>::Zero(); for (size_t i = 0; i < phi.size(); i++) p += v(i)*phi[i]; for (size_t i = 0; i < phi.size(); i++) { res(i) += bq.weight()*disk::InnerProduct(SM<double,D>(p - s), SM<double,D>(phi[i])); sc += bq.weight()*s.norm(); } } c.close(res.cwiseAbs().maxCoeff(), 0, 1e-10, sc + 1e-30, "stress-projection", name); }
}
template<int D> static void behave(Ctx& c) { using M = simplicial_mesh<double,D>; M msh; auto mesher = make_simple_mesher(msh); for (int r = c.range(0, D == 2 ? 2 : 1); r > 0; r--) mesher.refine(); size_t deg = c.range(0, 4); int def = c.range(0, 3), law = c.range(0, 7); Mat m = material(c); MaterialData<double> md(double(m.lam), double(m.mu), 0.1*double(m.mu), 0.05*double(m.mu), 0.02*double(m.mu)); md.setType(m.type); md.addCurvePoint(0, 0.02*double(m.mu)); md.addCurvePoint(0.1, 0.05*double(m.mu)); md.addCurvePoint(0.3, 0.06*double(m.mu)); c.note << D << "D deformation " << def << " law " << law << " degree " << deg << " cells " << msh.cells_size(); c.label(cat("def", def, "-law", law));
    bool ok = (def == SMALL_DEF && law <= HENCKY_MISES) || (def == F_DEF && (law == NEOHOKEAN || law == CAVITATION)) || (def == LOGARITHMIC_DEF && law <= NONLINEAR_HARDENING); bool ex = false; try { Behavior<M> B(msh, deg, def, law); } catch (const std::invalid_argument&) { ex = true; } c.check(ex != ok, ok ? "valid-combination-refused" : "invalid-combination-accepted", cat("deformation ", def, " law ", law)); bool ex2 = false; try { size_t a = def, b = law; Behavior<M> B2(a, b); (void)B2; } catch (const std::invalid_argument&) { ex2 = true; } c.check(ex2 == ex, "constructors-disagree"); if (!ok) return; c.nontrivial();
    Behavior<M> B(msh, deg, def, law); B.addMaterialData(md); c.check(B.getMaterialData().getMu() == md.getMu() && B.getMaterialData().getLambda() == md.getLambda() && B.getDeformation() == size_t(def), "material-stored"); c.check(B.getLawName() == std::vector<std::string>{"ELASTIC", "LINEAR_HARDENING", "NONLINEAR_HARDENING", "HENCKY_MISES", "NEOHOKEAN", "CAVITATION"}[law] && B.getDeformationName() == std::vector<std::string>{"SMALL_DEF", "LOGARITHMIC_DEF", "F_DEF"}[def], "names"); using namespace mechanics;
    if (def == SMALL_DEF) { if (law == 0) drive<D,LinearElasticity_qp<double,D>>(c, "elastic", B, msh, deg, md, false); else if (law == 1) drive<D,LinearIsotropicAndKinematicHardening_qp<double,D>>(c, "linear hardening", B, msh, deg, md, false); else if (law == 2) drive<D,IsotropicHardeningVMis_qp<double,D>>(c, "nonlinear hardening", B, msh, deg, md, false); else drive<D,HenckyMises_qp<double,D>>(c, "Hencky-Mises", B, msh, deg, md, false); } else if (def == F_DEF) { if (law == NEOHOKEAN) drive<D,Neohookean_qp<double,D>>(c, "neohookean", B, msh, deg, md, true); else drive<D,Cavitation_qp<double,D>>(c, "cavitation", B, msh, deg, md, true); } else { if (law == 0) drive<D,LogarithmicStrain_qp<LinearElasticity_qp<double,D>>>(c, "log elastic", B, msh, deg, md, true); else if (law == 1) drive<D,LogarithmicStrain_qp<LinearIsotropicAndKinematicHardening_qp<double,D>>>(c, "log linear hardening", B, msh, deg, md, true); else drive<D,LogarithmicStrain_qp<IsotropicHardeningVMis_qp<double,D>>>(c, "log nonlinear hardening", B, msh, deg, md, true); }
}
PROP("behavior2", 1500, 300000) { behave<2>(c); }
PROP("behavior3", 600, 100000) { behave<3>(c); }
