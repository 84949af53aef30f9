// L03: tensor algebra, stress/strain conversions, vector forms, determinant derivatives, logarithmic strain transformation.
#include "mech.hpp"
#include <iostream>
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
#include "diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp"
using namespace disk; using namespace me;
template<typename T, int D> using SM = static_matrix<T,D,D>; template<typename T, int D> using ST = static_tensor<T,D>;
template<int D> static ST<double,D> put(const T4<D>& t) { ST<double,D> r; FOR4(D) r(i*D + k, j*D + l) = double(t(i,j,k,l)); return r; }
template<int D> static T4<D> rten(Ctx& c) { T4<D> t; FOR4(D) t(i,j,k,l) = c.sym(); return t; }
template<int D> static void algebra(Ctx& c) { using M = SM<double,D>; using T = ST<double,D>; c.nontrivial(); auto A = rten<D>(c), B = rten<D>(c); T a = put<D>(A), b = put<D>(B); auto Xl = rmat<D>(c), Yl = rmat<D>(c); M X = Xl.template cast<double>(), Y = Yl.template cast<double>(); auto G = [](const auto& t) { return get<double,D>(T(t)); }; double t = 1e-14; auto d = [](int i, int j) { return L(i == j); };
    { int i = c.draw(D), j = c.draw(D), k = c.draw(D), l = c.draw(D); c.check(coeff<double,D>(a, i, j, k, l) == double(A(i,j,k,l)), "coefficient"); T a2 = a; coeff<double,D>(a2, i, j, k, l, 7.0); auto A2 = A; A2(i,j,k,l) = 7; c.close(diff(G(a2), A2), 0, 0, 0, "set-coefficient"); int bad = c.draw(4); std::array<int,4> q{i, j, k, l}; q[bad] = c.chance(50) ? D : -1; bool ex = false; try { coeff<double,D>(a, q[0], q[1], q[2], q[3]); } catch (const std::invalid_argument&) { ex = true; } c.check(ex, "coefficient-out-of-range"); ex = false; try { coeff<double,D>(a2, q[0], q[1], q[2], q[3], 1.0); } catch (const std::invalid_argument&) { ex = true; } c.check(ex, "set-out-of-range"); }
    M r1 = M::Zero(), r2 = M::Zero(); FOR4(D) { r1(i,j) += double(A(i,j,k,l))*X(k,l); r2(k,l) += X(i,j)*double(A(i,j,k,l)); } c.close((tm_prod<double,D>(a, X) - r1).norm(), 0, t, 9, "tensor-matrix"); c.close((tm_prod<double,D>(X, a) - r2).norm(), 0, t, 9, "matrix-tensor"); c.close((ContractedProduct<double,D>(a, X) - r1).norm(), 0, t, 9, "contracted-tensor-matrix"); c.close((ContractedProduct<double,D>(X, a) - r2).norm(), 0, t, 9, "contracted-matrix-tensor"); { int k = c.draw(D), l = c.draw(D); M E = M::Zero(); E(k,l) = X(k,l); c.close((tm_prod<double,D>(a, X, k, l) - tm_prod<double,D>(a, E)).norm(), 0, t, 9, "tensor-single-entry"); }
    T4<D> kr, sup, inf, od, tr, cp, I, Is, II; FOR4(D) { kr(i,j,k,l) = X(i,j)*Y(k,l); sup(i,j,k,l) = X(i,k)*Y(j,l); inf(i,j,k,l) = X(i,l)*Y(j,k); od(i,j,k,l) = (X(i,k)*Y(j,l) + X(i,l)*Y(j,k))/2; tr(i,j,k,l) = A(k,l,i,j); for (int p = 0; p < D; p++) for (int q = 0; q < D; q++) cp(i,j,k,l) += A(i,j,p,q)*B(p,q,k,l); I(i,j,k,l) = d(i,k)*d(j,l); Is(i,j,k,l) = 0.5L*(d(i,k)*d(j,l) + d(i,l)*d(j,k)); II(i,j,k,l) = d(i,j)*d(k,l); }
    c.close(diff(G(Kronecker(X, Y)), kr), 0, t, 1, "kronecker"); c.close(diff(G(ProductSup(X, Y)), sup), 0, t, 1, "product-sup"); c.close(diff(G(ProductInf(X, Y)), inf), 0, t, 1, "product-inf"); c.close(diff(G(Odot(X, Y)), od), 0, t, 1, "odot"); c.close(diff(G(disk::transpose<double,D>(a)), tr), 0, 0, 0, "transpose"); c.close(diff(G(ContractedProduct<double,D>(a, b)), cp), 0, t, 9, "tensor-tensor"); c.close(diff(G(IdentityTensor4<double,D>()), I), 0, 0, 0, "identity"); c.close(diff(G(IdentitySymTensor4<double,D>()), Is), 0, 0, 0, "symmetric-identity"); c.close(diff(G(IxI<double,D>()), II), 0, 0, 0, "identity-kronecker");
    L ip = 0; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) ip += Xl(i,j)*Yl(i,j); c.close(disk::InnerProduct(X, Y), double(ip), t, 9, "inner-product"); static_vector<double,D> u = X.col(0), v = Y.col(0); c.close(disk::InnerProduct(u, v), double(Xl.col(0).dot(Yl.col(0))), t, 3, "vector-inner-product"); c.close((Kronecker(u, v) - M(u*v.transpose())).norm(), 0, t, 3, "vector-kronecker");
    M dv = deviator(X), sp = spheric(X); c.close((dv + sp - X).norm(), 0, t, 3, "deviator-plus-spheric"); c.close(dv.trace(), 0, t, 9, "deviator-trace"); c.close((sp - sp(0,0)*M::Identity()).norm(), 0, t, 3, "spheric-part"); double nd = dv.norm(); if (nd > 1e-3) { M H = Y, dH = deviator(H); M g = NormFroFirstDerivate(dv); c.close(disk::InnerProduct(g, H), disk::InnerProduct(dv, dH)/nd, 1e-12/nd, 9, "norm-derivative"); }
    // determinant: exact expansion
    auto det = [](const auto& m) { return m.determinant(); }; auto J1 = JacobianFirstDerivate(X); auto J2 = JacobianSecondDerivate(X); L h3 = D == 3 ? det(Yl) : 0; c.close(disk::InnerProduct(M(J1), Y), double((det((Xl + Yl).eval()) - det((Xl - Yl).eval()))/2 - h3), 1e-13, 30, "determinant-derivative"); auto Zl = rmat<D>(c); M Z = Zl.template cast<double>(); auto q = [&](const auto& H) { return det((Xl + H).eval()) + det((Xl - H).eval()) - 2*det(Xl); }; L bil = (q((Yl + Zl).eval()) - q((Yl - Zl).eval()))/4; c.close(disk::InnerProduct(Y, tm_prod<double,D>(ST<double,D>(J2), Z)), double(bil), 1e-13, 100, "determinant-second-derivative");
}
PROP("algebra2", 20000, 400000) { algebra<2>(c); }
PROP("algebra3", 20000, 400000) { algebra<3>(c); }
template<int D> static void conv(Ctx& c) { using M = SM<double,D>; c.nontrivial(); using LM = Eigen::Matrix<L,D,D>; LM G = rmat<D>(c); LM Id = LM::Identity(); LM F = Id + 0.9L*G; L J = F.determinant(); if (std::abs(J) < 0.05L) throw pbt::Discard(); c.label(J > 0 ? "J>0" : "J<0"); LM S = rmat<D>(c); if (c.chance(50)) S = LM(S + S.transpose()); LM Fi = F.inverse(); auto d = [](const auto& x) { return M(x.template cast<double>()); }; M f = d(F), g = d((F - Id).eval()), s = d(S); double n = double(Fi.norm()), t = 1e-14*(1 + n)*(1 + n), sc = 20*(1 + 1/std::abs(double(J)))*(1 + std::abs(double(J)));
    auto eq = [&](const M& x, const auto& y, const char* k) { c.close((x - d(LM(y))).norm(), 0, t, sc*(1 + double(LM(y).norm())), k); }; using namespace mechanics; LM g1 = F - Id; LM C = F.transpose()*F;
    eq(convertGtoLinearizedStrain(g), 0.5L*(g1 + g1.transpose()), "linearized-strain"); eq(convertGtoF(g), F, "gradient-to-F"); eq(convertFtoG(f), g1, "F-to-gradient"); eq(convertFtoCauchyGreenRight(f), C, "right-cauchy-green"); eq(convertGtoCauchyGreenRight(g), C, "right-cauchy-green-of-gradient"); eq(convertFtoCauchyGreenLeft(f), F*F.transpose(), "left-cauchy-green"); eq(convertGtoCauchyGreenLeft(g), F*F.transpose(), "left-cauchy-green-of-gradient"); eq(convertCauchyGreenRighttoGreenLagrange(d(C)), 0.5L*(C - Id), "green-lagrange-of-C"); eq(convertFtoGreenLagrange(f), 0.5L*(C - Id), "green-lagrange"); eq(convertGtoGreenLagrange(g), 0.5L*(C - Id), "green-lagrange-of-gradient"); eq(convertGtoGreenLagrange(g) - M(0.5*g.transpose()*g), d((0.5L*(g1 + g1.transpose())).eval()).template cast<L>(), "small-strain-limit");
    eq(convertPK1toPK2(s, f), Fi*S, "pk1-pk2"); eq(convertPK2toPK1(s, f), F*S, "pk2-pk1"); eq(convertPK1toCauchy(s, f), S*F.transpose()/J, "pk1-cauchy"); eq(convertCauchytoPK1(s, f), J*S*Fi.transpose(), "cauchy-pk1"); eq(convertCauchytoPK2(s, f), J*Fi*S*Fi.transpose(), "cauchy-pk2"); eq(convertPK2toCauchy(s, f), F*S*F.transpose()/J, "pk2-cauchy"); eq(convertPK2toCauchy(convertCauchytoPK2(s, f), f), S, "round-trip");
    LM dev = S - S.trace()/D*Id; c.close(VonMisesCriteria(s), double(std::sqrt(1.5L)*dev.norm()), 1e-14, 9, "von-mises");
    SM<double,3> m3 = convertMatrix3D(s), m1 = convertMatrix3DwithOne(s); SM<double,3> e3 = SM<double,3>::Zero(), e1 = SM<double,3>::Identity(); e3.block(0, 0, D, D) = s; e1.block(0, 0, D, D) = s; c.check(m3 == e3, "embed"); c.check(m1 == e1, "embed-with-one"); SM<double,3> w = rmat<3>(c).template cast<double>(); M back = convertMatrix<double,D>(w); c.check(back == M(w.block(0, 0, D, D)), "restrict"); auto W = rten<3>(c); auto wt = convertTensor<double,D>(put<3>(W)); T4<D> WD; FOR4(D) WD(i,j,k,l) = W(i,j,k,l); c.close(diff(get<double,D>(wt), WD), 0, 0, 0, "restrict-tensor");
}
PROP("conversions2", 15000, 300000) { conv<2>(c); }
PROP("conversions3", 15000, 300000) { conv<3>(c); }
// vector forms: ordered index pairs, sqrt 2 on the off-diagonal entries of symmetric forms
static const std::vector<std::array<int,2>> SY{{0,0},{1,1},{2,2},{0,1},{0,2},{1,2}}, FU{{0,0},{1,1},{2,2},{0,1},{1,0},{0,2},{2,0},{1,2},{2,1}};
static void vectors(Ctx& c) { c.nontrivial(); bool sym = c.chance(50), plane = c.chance(50); c.label(cat(sym ? "symmetric" : "full", plane ? "-plane" : "-3D")); int n = sym ? (plane ? 4 : 6) : (plane ? 5 : 9); auto& O = sym ? SY : FU; auto fac = [&](int q) { return sym && q > 2 ? std::sqrt(2.0) : 1.0; }; std::string w = cat(n, " components");
    // matrix
    SM<double,3> m = SM<double,3>::Zero(); std::vector<double> v(n), u(n); for (int q = 0; q < n; q++) { double x = c.sym(); v[q] = x*fac(q); m(O[q][0], O[q][1]) = x; if (sym) m(O[q][1], O[q][0]) = x; } convertMatrixToMgis(m, u); for (int q = 0; q < n; q++) c.close(u[q], v[q], 1e-15, 4, "matrix-to-vector", cat(w, ", component ", q)); SM<double,3> b; convertMatrixFromMgis(v, b); c.close((b - m).norm(), 0, 1e-15, 9, "vector-to-matrix", w); c.close(u.size() ? Eigen::Map<Eigen::VectorXd>(u.data(), n).squaredNorm() : 0, m.squaredNorm(), 1e-14, 9, "vector-form-isometry", w);
    // tensor
    T4<3> t; std::vector<double> tv(n*n); for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) { double x = c.sym(); tv[p*n + q] = x*fac(p)*fac(q); for (int s = 0; s < (sym ? 2 : 1); s++) for (int r = 0; r < (sym ? 2 : 1); r++) t(O[p][s], O[p][1-s], O[q][r], O[q][1-r]) = x; } ST<double,3> r; convertTensorFromMgis(tv, r); auto R = get<double,3>(r); FOR4(3) c.close(double(R(i,j,k,l)), double(t(i,j,k,l)), 1e-15, 4, "vector-to-tensor", cat(w, ", entry ", i, j, k, l));
    if (sym) { auto Mg = plane ? convertTensorNotationMangel<double,3>(put<3>(t)) : convertTensorNotationMangel<double,3>(r); for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) c.close(Mg(p, q), tv[p*n + q], 1e-15, 8, "mandel-matrix", cat(w, ", entry ", p, " ", q)); if (plane) { T4<2> t2; FOR4(2) t2(i,j,k,l) = t(i,j,k,l); auto M2 = convertTensorNotationMangel<double,2>(put<2>(t2)); for (int p : {0, 1, 3}) for (int q : {0, 1, 3}) c.close(M2(p, q), tv[p*n + q], 1e-15, 8, "mandel-matrix-2D", cat("entry ", p, " ", q)); } }
    std::vector<double> bad(size_t(c.pick(std::vector<int>{1, 2, 3, 7, 8, 10}))); bool ex = false; try { convertMatrixToMgis(m, bad); } catch (const std::runtime_error&) { ex = true; } c.check(ex, "wrong-size-accepted"); ex = false; try { convertMatrixFromMgis(bad, b); } catch (const std::runtime_error&) { ex = true; } c.check(ex, "wrong-size-accepted-back");
}
PROP("vectors", 20000, 400000) { vectors(c); }
// logarithmic strain
static void logstrain(Ctx& c) { std::string kind; auto s = stretches(c, kind); c.label(kind); c.nontrivial(); M3 V = rot(c), Q = rot(c); M3 D3 = M3::Zero(); for (int i = 0; i < 3; i++) D3(i,i) = s[i]; M3 U0 = V*D3*V.transpose(), F0 = c.chance(80) ? M3(Q*U0) : U0; using M = SM<double,3>; M F = F0.cast<double>(), Cd = mechanics::convertFtoCauchyGreenRight(F); Cd = M(0.5*(Cd + Cd.transpose())); M3 Fl = F.cast<L>(), C = Cd.cast<L>(); auto [lam, ev] = mechanics::compute_eigenvalues(Cd); double lm = std::max(lam.maxCoeff(), 1/lam.minCoeff()); c.note << "stretches " << double(s[0]) << " " << double(s[1]) << " " << double(s[2]) << " (differences " << double(s[1]-s[0]) << " " << double(s[2]-s[1]) << ")";
    for (int i = 0; i < 3; i++) c.close((Cd*ev.col(i) - lam(i)*ev.col(i)).norm(), 0, 1e-13, lm, "eigenvector", cat(i)); c.close((ev.transpose()*ev - M::Identity()).norm(), 0, 1e-13, 1, "eigenvectors-orthonormal"); double tol = 1e-11*lm*lm; M3 E = 0.5L*log0(C); M El = mechanics::compute_Elog(lam, ev); c.close((El - E.cast<double>()).norm(), 0, 1e-13, 10*lm, "log-strain"); double j = std::log(std::abs(F.determinant())); c.close(El.trace(), j, 1e-13, 10*lm, "trace-is-log-of-J");
    M3 Tl = rmat<3>(c); Tl = M3(Tl + Tl.transpose()); if (c.chance(30)) { M3 q = M3::Zero(); for (int i = 0; i < 3; i++) q(i,i) = Tl(i,i); Tl = M3(V*q*V.transpose()); } M T = Tl.cast<double>(); Tl = T.cast<L>(); auto [P, TL] = mechanics::compute_projector_PK2(T, lam, ev, true); auto [PF, TF] = mechanics::compute_projector(F, T, lam, ev, true); auto [P0, Z0] = mechanics::compute_projector(F, T, lam, ev, false); c.close((P0 - PF).norm(), 0, 1e-14, 1 + PF.norm(), "projector-without-second"); auto [P2, Z2] = mechanics::compute_projector_PK2(T, lam, ev, false); c.close((P2 - P).norm(), 0, 1e-14, 1 + P.norm(), "projector-PK2-without-second"); (void)Z0; (void)Z2;
    for (int rep = 0; rep < 2; rep++) { M3 H1 = rmat<3>(c), H2 = rmat<3>(c); if (rep == 0) { int a = c.draw(3), b = c.draw(3), a2 = c.draw(3), b2 = c.draw(3); H1 = M3(V.col(a)*V.col(b).transpose()); H2 = M3(V.col(a2)*V.col(b2).transpose()); } M3 S1 = M3(H1 + H1.transpose()), S2 = M3(H2 + H2.transpose()); auto D = [](const M3& x) { return M(x.cast<double>()); };
        M3 dE = 0.5L*log1(C, S1); M p = tm_prod<double,3>(P, D(S1)); c.close((0.5*p - D(dE)).norm(), 0, tol, 5, "first-derivative", kind); L d2 = (Tl.cwiseProduct(0.5L*log2(C, S1, S2))).sum(); c.close(0.25*disk::InnerProduct(D(S1), tm_prod<double,3>(TL, D(S2))), double(d2), tol, 20*lm, "second-derivative", kind);
        M3 C1 = H1.transpose()*Fl + Fl.transpose()*H1, C2 = H2.transpose()*Fl + Fl.transpose()*H2, C12 = H1.transpose()*H2 + H2.transpose()*H1; c.close((tm_prod<double,3>(PF, D(H1)) - D(0.5L*log1(C, C1))).norm(), 0, tol, 5*lm, "derivative-with-F", kind); L f2 = (Tl.cwiseProduct(0.5L*(log2(C, C1, C2) + log1(C, C12)))).sum(); c.close(disk::InnerProduct(D(H1), tm_prod<double,3>(TF, D(H2))), double(f2), tol, 50*lm*lm, "second-derivative-with-F", kind); }
}
PROP("log", 6000, 100000) { logstrain(c); }
