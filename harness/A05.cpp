// A05: discrete geometric approach on tetrahedra: incidences, primal and dual geometry, material matrices, discrete problems.
#include "diskmesh.hpp"
#include "basis.hpp"
#include "diskpp/methods/dga"
using namespace disk; using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop;
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d; using Mat = Eigen::MatrixXd; using Vec = Eigen::VectorXd;
static V3 e(P a) { return V3(a[0], a[1], a[2]); }
static V3 rv(Ctx& c) { double a = c.sym(), b = c.sym(), d = c.sym(); return V3(a, b, d); }
template<typename E> static Loop ids(const E& x) { Loop l; for (auto p : x.point_ids()) l.push_back(size_t(p)); return l; }
static void dga(Ctx& c) {
    auto m = c.chance(75) ? ref::gen_tet3d(c, 2) : ref::gen_tet3d(c, 3, false); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); using M = std::decay_t<decltype(msh)>; c.label(m.kind); c.note << ref::describe(m); size_t nc = msh.cells_size(), np = msh.points_size(), nf = msh.faces_size(); c.nontrivial(nc > 1);
    std::set<Loop> es; auto own = ref::face_owners(m); for (auto& v : m.verts) for (int i = 0; i < 4; i++) for (int j = i+1; j < 4; j++) es.insert(ref::sorted({v[i], v[j]})); size_t ne = 0; auto ep = edges(msh); for (auto& x : ep) { Loop l = ids(x); c.check(l.size() == 2 && es.count(ref::sorted(l)), "edges-unknown", cat("edge ", ne)); c.check(size_t(offset(msh, x)) == ne, "edge-offset", cat("edge ", ne)); auto pe = primal_edge_vectors(msh, x); c.close((pe - e(m.pts[l[1]] - m.pts[l[0]])).norm(), 0, 1e-14, 1 + pe.norm(), "edge-vector", ""); ne++; } c.check(ne == es.size() && size_t(ep.size()) == ne, "edges-count", cat(ne, " of ", es.size())); std::vector<Loop> ge; for (auto& x : edges(msh)) ge.push_back(ids(x));
    // fields: affine potential, linear vector potential, constant vectors
    P o = m.pts[0]; double a0 = c.sym(); V3 a = rv(c), b = rv(c), E = rv(c), B = rv(c); M3 S; for (int i = 0; i < 3; i++) S.col(i) = rv(c); V3 curlA(S(2,1) - S(1,2), S(0,2) - S(2,0), S(1,0) - S(0,1)); M3 F; for (int i = 0; i < 3; i++) F.col(i) = rv(c); auto phi = [&](size_t i) { return a0 + a.dot(e(m.pts[i] - o)); }; auto circ = [&](size_t i, size_t j) { return (b + S*e(0.5*(m.pts[i] + m.pts[j]) - o)).dot(e(m.pts[j] - m.pts[i])); };
    bool tens = c.chance(60); M3 K = M3::Identity(); double ks = 0.05 + 3*c.unit(); K *= ks; if (tens) { M3 R; for (int i = 0; i < 3; i++) R.col(i) = rv(c); K = R*R.transpose() + 0.1*M3::Identity(); } c.label(tens ? "tensor" : "scalar");
    Mat GG = Mat::Zero(np, np), CC = Mat::Zero(ne, ne); std::vector<std::map<size_t, double>> Cf(nf); std::vector<double> dual(ne, 0); double big = 1, sG = 0, sC = 0, q = 0; for (auto& p : m.pts) big = std::max(big, ref::norm(p - o)); double aw = 1; for (auto& p : m.pts) aw = std::max(aw, ref::norm(p)); bool dense = np <= 60; std::vector<V3> close(np, V3::Zero()); Vec flux(nf); std::vector<char> fs(nf, 0);
    size_t ci = 0; for (auto& cl : msh) { Loop v = ids(cl); std::array<P, 4> p; for (int i = 0; i < 4; i++) p[i] = m.pts[v[i]]; std::string w = cat("cell ", ci, tens ? " tensor" : ""); double six = ref::dot(p[1]-p[0], ref::cross(p[2]-p[0], p[3]-p[0])), vol = std::abs(six)/6, h = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) h = std::max(h, ref::norm(p[i]-p[j])); double amp = h*h*h/vol, t = 1e-13*(1 + aw/h)*amp; q = std::max(q, t); c.label(six > 0 ? "positive" : "negative"); P vb = 0.25*(p[0] + p[1] + p[2] + p[3]);
        c.close(priv::volume_signed(msh, cl), six/6, t, h*h*h, "signed-volume", w); c.close(priv::volume_unsigned(msh, cl), vol, t, h*h*h, "unsigned-volume", w);
        auto ed = edges(msh, cl); auto ei = edge_ids(msh, cl); auto fc = faces(msh, cl); auto pev = primal_edge_vectors(msh, cl); auto pav = primal_area_vectors(msh, cl); auto dev = dual_edge_vectors(msh, cl); auto dav = dual_area_vectors(msh, cl); auto nrm = priv::normals(msh, cl); auto G = grad_matrix(msh, cl); auto C = curl_matrix(msh, cl); c.close((C*G).cwiseAbs().maxCoeff(), 0, 0, 0, "curl-of-gradient", w);
        Eigen::Matrix<double,6,1> Ai, Ei; Eigen::Vector4d ph, Bi, Fi; std::array<size_t, 4> fi; for (int i = 0; i < 4; i++) ph(i) = phi(v[i]); auto g = (G*ph).eval(); auto iE = integrate_on_primal_edges<double>(msh, cl, E); auto iDE = integrate_on_dual_edges<double>(msh, cl, E); auto iB = integrate_on_primal_faces<double>(msh, cl, B); auto iDB = integrate_on_dual_faces<double>(msh, cl, B); std::set<Loop> seen;
        M3 I1 = M3::Zero(), I2 = I1; for (int i = 0; i < 6; i++) { Loop l = ids(ed[i]); seen.insert(l); auto ww = cat(w, " edge ", i); c.check(ge.at(ei[i]) == l, "edge-ids", ww); V3 d = e(m.pts[l[1]] - m.pts[l[0]]); c.close((pev[i] - d).norm(), 0, 1e-14, aw, "primal-edge-vector", ww); c.close(g(i), phi(l[1]) - phi(l[0]), 1e-13, 1 + big*4, "gradient-circulation", ww); c.close(g(i), a.dot(d), 1e-13, (1 + big)*4, "gradient-integral", ww); Ai(i) = circ(l[0], l[1]); Ei(i) = E.dot(d); c.close(iE(i), Ei(i), 1e-14, 4*aw, "integral-on-edge", ww); I1 += pev[i]*dav[i].transpose();
            P mid = 0.5*(m.pts[l[0]] + m.pts[l[1]]); std::vector<P> fb; for (int k = 0; k < 4; k++) if (!std::count(l.begin(), l.end(), v[k])) { P s{0,0,0}; for (int r = 0; r < 4; r++) if (r != k) s = s + (1.0/3)*p[r]; fb.push_back(s); } V3 ar = 0.5*e(ref::cross(vb - mid, fb[0] - fb[1])); if (ar.dot(d) < 0) ar = -ar; c.close((dav[i] - ar).norm(), 0, t, h*h, "dual-area-vector", ww); c.close(iDB(i), B.dot(ar), t, 4*h*h, "integral-on-dual-face", ww); close[l[0]] += dav[i]; close[l[1]] -= dav[i]; } c.check(seen.size() == 6, "cell-edges", w);
        double div = 0; for (int j = 0; j < 4; j++) { Loop l = ids(fc[j]); auto ww = cat(w, " face ", j); fi[j] = offset(msh, fc[j]); P x = m.pts[l[0]], y = m.pts[l[1]], z = m.pts[l[2]], fb = (1.0/3)*(x + y + z); V3 n = 0.5*e(ref::cross(y - x, z - x)); c.close((pav[j] - n).norm(), 0, t, h*h, "primal-area-vector", ww); V3 out = n.dot(e(fb - vb)) > 0 ? n : V3(-n); c.close((nrm[j] - out.normalized()).norm(), 0, t*h*h/n.norm(), 1, "outward-normal", ww); Bi(j) = B.dot(n); c.close(iB(j), Bi(j), t, 4*h*h, "integral-on-face", ww); V3 d = e(fb - vb); if (d.dot(n) < 0) d = -d; c.close((dev[j] - d).norm(), 0, t, h, "dual-edge-vector", ww); c.close(iDE(j), E.dot(d), t, 4*h, "integral-on-dual-edge", ww); I2 += pav[j]*dev[j].transpose();
            double cc = circ(l[0], l[1]) + circ(l[1], l[2]) + circ(l[2], l[0]); c.close((C*Ai)(j), cc, 1e-13, (1 + big)*aw*20, "curl-circulation", ww); c.close(cc, curlA.dot(n), 1e-12 + t, (1 + big)*aw*20, "stokes", ww); std::map<size_t, double> row; for (int i = 0; i < 6; i++) if (C(j, i) != 0) row[ei[i]] = C(j, i); if (fs[fi[j]]) c.check(Cf[fi[j]] == row, "curl-not-shared", ww); fs[fi[j]] = 1; Cf[fi[j]] = row; double fl = (F*e(fb - o)).dot(pav[j]); flux(fi[j]) = fl; div += (out.dot(n) > 0 ? 1 : -1)*fl;
            // the triangle alone
            auto fe = edges(msh, fc[j]); auto fei = edge_ids(msh, fc[j]); auto fpe = primal_edge_vectors(msh, fc[j]); auto fde = dual_edge_vectors(msh, fc[j], cl); auto fn = priv::normals(msh, fc[j]); auto fie = integrate_on_primal_edges<double>(msh, fc[j], E); std::set<Loop> s3; for (int i = 0; i < 3; i++) { Loop k = ids(fe[i]); auto w3 = cat(ww, " edge ", i); s3.insert(k); c.check(std::count(l.begin(), l.end(), k[0]) && std::count(l.begin(), l.end(), k[1]) && ge.at(fei[i]) == k, "face-edge-ids", w3); P mid = 0.5*(m.pts[k[0]] + m.pts[k[1]]); V3 d = e(m.pts[k[1]] - m.pts[k[0]]), in = e(fb - mid); c.close((fpe[i] - d).norm(), 0, 1e-14, aw, "primal-edge-vector", w3); c.close(fie(i), E.dot(d), 1e-14, 4*aw, "integral-on-edge", w3); V3 dd = d.cross(in).dot(out) > 0 ? in : V3(-in); c.close((fde[i] - dd).norm(), 0, t, h, "dual-edge-in-face", w3); V3 on = -(in - d*(d.dot(in)/d.squaredNorm())).normalized(); c.close((fn[i] - on).norm(), 0, t*h*h/n.norm()*h/d.norm(), 1, "edge-normal-in-face", w3); } c.check(s3.size() == 3, "face-edges", ww); }
        c.close(div, F.trace()*vol, t, 10*(1 + big)*h*h, "divergence", w); c.close((I1 - vol*M3::Identity()).norm(), 0, t, h*h*h, "edge-duality", w); c.close((I2 - vol*M3::Identity()).norm(), 0, t, h*h*h, "face-duality", w);
        // materials
        Eigen::Matrix<double,6,6> Me = tens ? edge_matrix(msh, cl, K) : edge_matrix(msh, cl, ks); Eigen::Matrix4d Mf = tens ? face_matrix(msh, cl, K) : face_matrix(msh, cl, ks); double kn = K.norm(), se = kn*h*h*h*h/(36*vol), sf = kn*h*h/(36*vol), kc = kn*K.inverse().norm(); c.close((Me - Me.transpose()).norm(), 0, 1e-13*amp, se, "edge-matrix-symmetry", w); c.close((Mf - Mf.transpose()).norm(), 0, 1e-13*amp, sf, "face-matrix-symmetry", w);
        for (int i = 0; i < 6; i++) c.close((Me*Ei)(i), dav[i].dot(K*E), t, 6*se*h*4, "edge-matrix-constant-field", cat(w, " edge ", i)); for (int j = 0; j < 4; j++) c.close((Mf*Bi)(j), dev[j].dot(K*B), t, 6*sf*h*h*4, "face-matrix-constant-field", cat(w, " face ", j)); c.close(Ei.dot(Me*Ei), vol*E.dot(K*E), t, 36*se*h*h*4, "edge-energy", w); c.close(Bi.dot(Mf*Bi), vol*B.dot(K*B), t, 16*sf*h*h*h*h*4, "face-energy", w);
        if (amp*amp*kc < 1e7) { Eigen::SelfAdjointEigenSolver<Mat> e1(Mat(0.5*(Me + Me.transpose())), Eigen::EigenvaluesOnly), e2(Mat(0.5*(Mf + Mf.transpose())), Eigen::EigenvaluesOnly); c.check(e1.eigenvalues()(0) > 0, "edge-matrix-definite", cat(w, ": ", e1.eigenvalues()(0))); c.check(e2.eigenvalues()(0) > 0, "face-matrix-definite", cat(w, ": ", e2.eigenvalues()(0))); }
        if (dense) { Eigen::Matrix4d L = G.transpose()*Me*G; Eigen::Matrix<double,6,6> W = C.transpose()*Mf*C; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) GG(v[i], v[j]) += L(i, j); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) CC(ei[i], ei[j]) += W(i, j); } sG = std::max(sG, se); sC = std::max(sC, sf); ci++; }
    // closure of dual cells and discrete problems on the whole mesh
    std::vector<char> bp(np, 0), be(ne, 0); std::map<Loop, size_t> en; for (size_t i = 0; i < ne; i++) en[ge[i]] = i; for (auto& [f, ow] : own) if (ow.size() == 1) for (int i = 0; i < 3; i++) { bp[f[i]] = 1; for (int j = i+1; j < 3; j++) be[en[{f[i], f[j]}]] = 1; }
    bool in = false; for (size_t i = 0; i < np; i++) if (!bp[i]) { in = true; c.close(close[i].norm(), 0, q, big*big*24, "dual-cell-closed", cat("point ", i)); } if (in) c.label("interior-point"); if (!dense) return;
    Vec U(np), A(ne); for (size_t i = 0; i < np; i++) U(i) = phi(i); for (size_t i = 0; i < ne; i++) A(i) = circ(ge[i][0], ge[i][1]); Vec r1 = GG*U, r2 = CC*A; for (size_t i = 0; i < np; i++) if (!bp[i]) c.close(r1(i), 0, q, sG*100*(1 + big), "potential-patch-test", cat("point ", i)); for (size_t i = 0; i < ne; i++) if (!be[i]) { c.label("interior-edge"); c.close(r2(i), 0, q, sC*100*(1 + big)*aw, "magnetostatic-patch-test", cat("edge ", i)); } double VV = 0; for (auto& cl : msh) VV += priv::volume_unsigned(msh, cl); c.close(U.dot(r1), VV*a.dot(K*a), q, sG*100*double(nc)*(1 + big)*(1 + big), "potential-energy", ""); c.close(A.dot(r2), VV*curlA.dot(K*curlA), q, sC*100*double(nc)*(1 + big)*(1 + big)*aw*aw, "magnetic-energy", "");
    Vec gu = Vec::Zero(ne); for (size_t i = 0; i < ne; i++) gu(i) = c.sym() ; Vec U2(np); for (size_t i = 0; i < np; i++) U2(i) = c.sym(); for (size_t i = 0; i < ne; i++) gu(i) = U2(ge[i][1]) - U2(ge[i][0]); c.close((CC*gu).cwiseAbs().maxCoeff(), 0, q, sC*100, "gauge-invariance", "");
    auto absent = [&]() -> bool { for (size_t i = 0; i < np; i++) for (size_t j = i+1; j < np; j++) if (!es.count({i, j})) { try { auto r = offset(msh, typename M::edge_type({point_identifier<3>(i), point_identifier<3>(j)})); (void)r; return true; } catch (const std::invalid_argument&) { return false; } } return false; }; c.check(!absent(), "offset-of-missing-edge", "");
}
PROP("dga", 24000, 200000) { dga(c); }
