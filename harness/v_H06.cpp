// H06: curl reconstructions and stabilizations: defining identities on any hybrid unknown, commutation with the projection, kernels, auxiliary terms.
#include "hho.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
using namespace hh;
using cplx = std::complex<double>; using CMat = Eigen::MatrixXcd; using CVec = Eigen::VectorXcd;
static P curl(const Mat& g) { return {g(2,1)-g(1,2), g(0,2)-g(2,0), g(1,0)-g(0,1)}; }
static P tang(const P& n, const P& v) { return v - ref::dot(n, v)*n; }
// unknowns of a cell and its faces, tangential (or Nedelec) on the faces of a polyhedron
template<typename M> struct Tan {
    const Cell<M>& C; int cd, fd; bool ned; size_t cbs, fbs, n;
    Tan(const Cell<M>& cc, int k, int f, bool nd = false) : C(cc), cd(k), fd(f), ned(nd) { cbs = 3*bs::dimP(cd, 3); fbs = ned ? 2*bs::dimP(fd-1, 2) + fd + 2 : 2*bs::dimP(fd, 2); n = cbs + fbs*C.fcs.size(); }
    auto cb() const { return make_vector_monomial_basis(C.msh, C.cl, size_t(cd)); }
    Mat fphi(size_t f, P p) const { if (ned) { auto b = make_vector_monomial_nedelec_tangential_basis(C.msh, C.fcs[f], size_t(fd)); Mat r = b.eval_functions(D<M>(p)); return r; } auto b = make_vector_monomial_tangential_basis(C.msh, C.fcs[f], size_t(fd)); Mat r = b.eval_functions(D<M>(p)); return r; }
    P uT(const Vec& x, P p) const { Vec v = C.val(cb(), x.head(cbs), p); return {v(0), v(1), v(2)}; }
    P uF(const Vec& x, size_t f, P p) const { Vec v = fphi(f, p).transpose()*x.segment(cbs + f*fbs, fbs); return {v(0), v(1), v(2)}; }
    Vec proj(size_t f, int gd, std::function<P(P)> g, double* kc = nullptr) const { Mat G = Mat::Zero(fbs, fbs); Vec r = Vec::Zero(fbs); for (auto& q : C.fq(f, fd + std::max(fd, gd))) { Mat p = fphi(f, q.x); P v = g(q.x); Vec e(3); e << v[0], v[1], v[2]; G += q.w*p*p.transpose(); r += q.w*p*e; } if (kc) *kc = std::max(*kc, cond(G)); return G.ldlt().solve(r); }
    Vec interpolate(const std::vector<Sum>& u, int k, double* kc) const { Vec r(n); double K = 1; auto b = cb(); Mat G = Mat::Zero(cbs, cbs); Vec g = Vec::Zero(cbs); auto val = [&](P p) { return P{u[0](p), u[1](p), u[2](p)}; }; for (auto& q : C.cq(cd + std::max(cd, k))) { Mat p = b.eval_functions(D<M>(q.x)); P v = val(q.x); Vec e(3); e << v[0], v[1], v[2]; G += q.w*p*p.transpose(); g += q.w*p*e; } K = cond(G); Vec s = G.diagonal().cwiseSqrt().cwiseInverse(); r.head(cbs) = s.asDiagonal()*(Mat(s.asDiagonal()*G*s.asDiagonal()).ldlt().solve(s.asDiagonal()*g)); for (size_t f = 0; f < C.fcs.size(); f++) r.segment(cbs + f*fbs, fbs) = proj(f, k, val, &K); if (kc) *kc = K; return r; }
};
static Mat grads(const std::vector<Sum>& u, P p) { Mat g(3, 3); for (int a = 0; a < 3; a++) { P t = u[a].grad(p); for (int b = 0; b < 3; b++) g(a, b) = t[b]; } return g; }
static std::vector<Sum> field(Ctx& c, int k, const std::vector<P>& v) { std::vector<Sum> u; for (int a = 0; a < 3; a++) u.push_back(poly(c, k, v, 3)); return u; }
// gradient of a polynomial of degree k+1, as a field: sum of a * grad((A)^i (B)^j)
static std::vector<Sum> gradient(Ctx& c, int k, const std::vector<P>& v) { Sum s = poly(c, k+1, v, 3); std::vector<Sum> u(3); for (size_t t = 0; t < s.p.size(); t++) { auto q = s.p[t]; for (int a = 0; a < 3; a++) { if (q.i) { auto r = q; r.i--; u[a].p.push_back(r); u[a].a.push_back(s.a[t]*q.i*q.a[a]); } if (q.j) { auto r = q; r.j--; u[a].p.push_back(r); u[a].a.push_back(s.a[t]*q.j*q.b[a]); } if (u[a].p.empty()) { auto r = q; r.i = r.j = 0; u[a].p.push_back(r); u[a].a.push_back(0); } } } return u; }

template<typename M> static void go3(Ctx& c, const Cell<M>& C, int kmax, const std::string& w0) {
    const M& msh = C.msh; const auto& cl = C.cl; size_t nf = C.fcs.size(); static const char* names[] = {"curl", "curl-div", "pk", "nedelec", "hdg", "hdg-nedelec", "impedance-stabilization", "hho-stabilization", "auxiliary"}; int var = (int)c.draw(9); std::string key = names[var]; c.label(key);
    int cd, fd, rd; if (c.chance(40)) { auto dg = degrees(c, kmax-1); cd = dg.first; fd = dg.second; rd = fd+1; } else { rd = (int)c.range(1, kmax); cd = (int)c.range(rd-1, rd); fd = (int)c.range(0, kmax); } bool ned = var == 3 || var == 5; if (ned) fd = std::max(fd, 1); if (var == 2 || var == 3) rd = (int)c.range(std::max(0, cd-1), std::min(kmax, cd+2)); if (cd > rd && var != 2 && var != 3) cd = rd; if (var <= 1 || var == 7) fd = std::min(fd, rd); hho_degree_info hdi(priv::hdi_named_args{.rd = size_t(rd), .cd = size_t(cd), .fd = size_t(fd)});
    std::string w = cat(w0, " rd=", rd, " cd=", cd, " fd=", fd); Tan<M> H(C, cd, fd, ned); double tol = C.tol(), kc = 1; size_t nd = H.n; Vec x = rnd(c, nd), y = rnd(c, nd); auto rb = make_vector_monomial_basis(msh, cl, size_t(rd)); size_t rbs = rb.size();
    auto sz = [&](const Mat& A, size_t r, size_t k, const std::string& what) { c.check((size_t)A.rows() == r && (size_t)A.cols() == k, key + "-size", cat(w, " ", what, ": ", A.rows(), "x", A.cols(), " expected ", r, "x", k)); };
    // int curl u_T . c + sum_F int (u_F - u_T) . (c x n)
    auto weak = [&](const Vec& v, std::function<P(P)> cc, int td, double& ab) { double s = 0; auto b = H.cb(); for (auto& q : C.cq(td + std::max(0, cd-1))) { P a = curl(C.grad(b, v.head(H.cbs), q.x)), t = cc(q.x); s += q.w*ref::dot(a, t); ab += std::fabs(q.w)*ref::norm(a)*ref::norm(t); } for (size_t f = 0; f < nf; f++) for (auto& q : C.fq(f, td + std::max(cd, fd))) { P t = ref::cross(cc(q.x), C.n[f]), a = H.uF(v, f, q.x), e = H.uT(v, q.x); s += q.w*ref::dot(a - e, t); ab += q.w*(ref::norm(a) + ref::norm(e))*ref::norm(t); } return s; };
    auto Cr = [&](const Vec& r, P p) { return curl(C.grad(rb, r, p)); }; auto Vl = [&](const Vec& r, P p) { Vec v = C.val(rb, r, p); return P{v(0), v(1), v(2)}; };
    if (var <= 1) {
        Mat S = Mat::Zero(rbs, rbs); auto qc = C.cq(2*(rd-1)); for (auto& q : qc) { auto g = rb.eval_gradients(D<M>(q.x)); Mat k(rbs, 3); for (size_t i = 0; i < rbs; i++) { P t = curl(g[i]); k.row(i) << t[0], t[1], t[2]; } S += q.w*k*k.transpose(); } Eigen::SelfAdjointEigenSolver<Mat> es(S); auto ev = es.eigenvalues(); double mx = ev(rbs-1), lo = mx, gap = 0; size_t z = 3*bs::dimP(rd, 3); z = bs::dimP(rd+1, 3) - 1; gap = std::fabs(ev(z-1))/mx; lo = ev(z)/mx; if (!(lo > 1e-7) || gap > 1e-12) throw pbt::Discard(); double st = std::max(tol, 1e-12/lo);
        Mat oper, data; size_t off = 3; if (var == 0) { auto r = curl_reconstruction(msh, cl, hdi); oper = r.first; data = r.second; if (c.chance(30)) { auto rc = curl_reconstruction<cplx>(msh, cl, hdi); c.close((rc.second - data.template cast<cplx>()).cwiseAbs().maxCoeff(), 0, st, data.cwiseAbs().maxCoeff() + 1e-300, key + "-complex", w); } } else { auto r = curl_reconstruction_div(msh, cl, hdi); oper = r.first; data = r.second; off = 0; }
        sz(oper, rbs-off, nd, "operator"); sz(data, nd, nd, "form"); auto full = [&](const Vec& v) { Vec f = Vec::Zero(rbs); f.tail(rbs-off) = v; return f; }; Vec rx = full(oper*x), ry = full(oper*y), t = rnd(c, rbs); double lhs = 0, a1 = 0, a2 = 0, e = 0, e1 = 0; for (auto& q : qc) { P a = Cr(rx, q.x), b = Cr(ry, q.x), d = Cr(t, q.x); lhs += q.w*ref::dot(a, d); a1 += q.w*ref::norm(a)*ref::norm(d); e += q.w*ref::dot(a, b); e1 += q.w*ref::norm(a)*ref::norm(b); }
        double rhs = weak(x, [&](P p) { return Cr(t, p); }, rd-1, a2); double m0 = C.A/C.h/C.h*1e-3; c.close(lhs, rhs, st, a1 + a2 + m0, key + "-definition", w); double m = std::max(data.cwiseAbs().maxCoeff(), m0); c.close((data - data.transpose()).cwiseAbs().maxCoeff(), 0, st, m, key + "-form-not-symmetric", w); { Mat T = 0.5*(data + data.transpose()); Vec e = Eigen::SelfAdjointEigenSolver<Mat>(T).eigenvalues(); c.check(e(0) >= -st*nd*m, key + "-form-negative", cat(w, ": smallest eigenvalue ", e(0), " of ", e(nd-1))); } c.close(x.dot(data*y), e, st, e1 + m*x.norm()*y.norm(), key + "-form-energy", w);
        bool exact = fd >= rd-1 && cd >= rd-2; bool grd = c.chance(40); int ku = (int)c.range(0, exact ? rd : std::min({cd, fd, rd})); auto u = grd ? gradient(c, ku, C.v) : field(c, ku, C.v); Vec v = H.interpolate(u, ku, &kc), r = full(oper*v); double tl = std::max({st*10, 1e-13*kc, C.q*kc}), us = grd ? 30*(ku+1)/C.h : 3; P p = C.at(c); c.close(ref::norm(Cr(r, p) - curl(grads(u, p)))*C.h, 0, tl, us*3*(1 + ku), key + (grd ? "-gradients" : "-reproduces"), cat(w, " degree ", ku)); double ex = 0; for (auto& q : C.cq(2*std::max(0, ku-1))) { P a = curl(grads(u, q.x)); ex += q.w*ref::dot(a, a); } c.close(v.dot(data*v), ex, tl, ex + C.A/C.h/C.h*us*us, key + "-energy", cat(w, " degree ", ku));
        if (var == 1) { auto db = make_scalar_monomial_basis(msh, cl, size_t(rd)); Vec d = rnd(c, db.size()); double l = 0, h = 0, a = 0; auto cb = H.cb(); P m1{0,0,0}, m2{0,0,0}; double mm = 0; for (auto& q : C.cq(2*rd)) { Mat g = C.grad(db, d, q.x); P gg{g(0,0), g(0,1), g(0,2)}, R = Vl(rx, q.x), T = H.uT(x, q.x); l += q.w*ref::dot(R, gg); h += q.w*ref::dot(T, gg); a += q.w*ref::norm(gg)*(ref::norm(T) + ref::norm(R)); m1 = m1 + q.w*R; m2 = m2 + q.w*T; mm += q.w*(ref::norm(R) + ref::norm(T)); } c.close(l, h, st*10, a + m0, key + "-divergence", w); c.close(ref::norm(m1 - m2), 0, st*10, mm + m0, key + "-mean", w); }
    } else if (var <= 3) {
        auto [oper, data] = var == 2 ? curl_reconstruction_pk(msh, cl, hdi) : curl_reconstruction_nedelec(msh, cl, hdi); sz(oper, rbs, nd, "operator"); sz(data, nd, nd, "form"); Mat G = Mat::Zero(rbs, rbs); for (auto& q : C.cq(2*rd)) { Mat p = rb.eval_functions(D<M>(q.x)); G += q.w*p*p.transpose(); } double kg = cond(G); if (!(kg < 1e9)) throw pbt::Discard(); double st = std::max(tol, 1e-13*kg);
        Vec rx = oper*x, ry = oper*y, t = rnd(c, rbs); double lhs = 0, a1 = 0, rhs = 0, a2 = 0, e = 0, e1 = 0; for (auto& q : C.cq(2*std::max(rd, cd))) { P a = Vl(rx, q.x), b = Vl(ry, q.x), d = Vl(t, q.x), ct = Cr(t, q.x), T = H.uT(x, q.x); lhs += q.w*ref::dot(a, d); a1 += q.w*ref::norm(a)*ref::norm(d); e += q.w*ref::dot(a, b); e1 += q.w*ref::norm(a)*ref::norm(b); rhs += q.w*ref::dot(T, ct); a2 += q.w*ref::norm(T)*ref::norm(ct); } for (size_t f = 0; f < nf; f++) for (auto& q : C.fq(f, rd + fd)) { P a = H.uF(x, f, q.x), b = ref::cross(Vl(t, q.x), C.n[f]); rhs += q.w*ref::dot(a, b); a2 += q.w*ref::norm(a)*ref::norm(b); }
        double m0 = C.A/C.h/C.h*1e-3; c.close(lhs, rhs, st, a1 + a2 + m0, key + "-definition", w); double m = std::max(spsd(c, data, st, key + "-form", w), m0); c.close(x.dot(data*y), e, st, e1 + m*x.norm()*y.norm(), key + "-form-energy", w);
        bool commute = cd >= rd-1 && (ned ? fd-1 >= rd : fd >= rd); int lo = ned ? std::min(cd, fd-1) : std::min(cd, fd); int ku = commute ? (int)c.range(0, rd+2) : (int)c.range(0, lo); bool grd = c.chance(30); auto u = grd ? gradient(c, ku, C.v) : field(c, ku, C.v); double us = grd ? 30*(ku+1)/C.h : 3; Vec v = H.interpolate(u, ku, &kc), r = oper*v; double tl = std::max({st*10, 1e-13*kc, C.q*kc}), s = 0, a = 0; for (auto& q : C.cq(rd + std::max(rd, ku))) { P g = Vl(r, q.x), z = curl(grads(u, q.x)), d = Vl(t, q.x); s += q.w*ref::dot(g - z, d); a += q.w*(ref::norm(g) + ref::norm(z))*ref::norm(d); } c.close(s, 0, tl, a + C.A/C.h*us*t.norm(), key + (grd ? "-gradients" : "-commutation"), cat(w, " degree ", ku));
        if (ku <= rd+1) { P p = C.at(c); c.close(ref::norm(Vl(r, p) - curl(grads(u, p)))*C.h, 0, tl, us*9*(1 + ku), key + "-reproduces", cat(w, " degree ", ku)); }
    } else if (var <= 7) {
        Mat S; double ex = 0, ab = 0; cplx jw(0, 1), Z(1, 0), fac(1, 0); Mat R; CMat SZ; if (var == 4) { S = curl_hdg_stabilization(msh, cl, hdi); if (c.chance(30)) { CMat s2 = curl_hdg_stabilization<cplx>(msh, cl, hdi); c.close((s2 - S.template cast<cplx>()).cwiseAbs().maxCoeff(), 0, tol, S.cwiseAbs().maxCoeff(), key + "-complex", w); } } if (var == 5) S = curl_hdg_stabilization_nedelec(msh, cl, hdi);
        if (var == 6) { jw = cplx(c.sym(), 0.2 + c.unit()); Z = cplx(0.5 + c.unit(), c.sym()); SZ = curl_Z_stabilization<cplx>(msh, cl, hdi, cplx(1, 0), jw, Z); fac = jw/Z; sz(SZ.real(), nd, nd, "matrix"); c.close((SZ - SZ.transpose()).cwiseAbs().maxCoeff(), 0, tol, SZ.cwiseAbs().maxCoeff() + 1e-300, key + "-not-symmetric", w); CMat N = SZ/(fac*fac); c.close(N.imag().cwiseAbs().maxCoeff(), 0, tol, N.cwiseAbs().maxCoeff() + 1e-300, key + "-impedance", w); S = N.real(); }
        if (var == 7) { R = Mat(rbs-3, nd); for (int i = 0; i < R.size(); i++) R(i) = c.chance(30) ? 0 : c.sym(); S = curl_hho_stabilization(msh, cl, R, hdi); } sz(S, nd, nd, "matrix"); spsd(c, S, tol, key, w);
        auto full = [&](const Vec& v) { Vec f = Vec::Zero(rbs); f.tail(rbs-3) = v; return f; }; Mat G = Mat::Zero(H.cbs, H.cbs); auto cb = H.cb(); if (var == 7) for (auto& q : C.cq(2*cd)) { Mat p = cb.eval_functions(D<M>(q.x)); G += q.w*p*p.transpose(); } auto cellproj = [&](const Vec& r) { Vec g = Vec::Zero(H.cbs); for (auto& q : C.cq(cd + rd)) { Mat p = cb.eval_functions(D<M>(q.x)); g += q.w*p*C.val(rb, r, q.x); } return Vec(G.ldlt().solve(g)); };
        Vec fx, fy, px, py; if (var == 7) { fx = full(R*x); fy = full(R*y); px = cellproj(fx); py = cellproj(fy); kc = cond(G); }
        for (size_t f = 0; f < nf; f++) { double wt = var == 5 ? 1/C.h : var == 7 ? 1/C.hf[f] : 1; auto del = [&](const Vec& v, const Vec& fr, const Vec& pr) { return Vec(H.proj(f, std::max(cd, rd), [&](P p) { P t = H.uT(v, p); if (var == 7) { Vec z = C.val(cb, pr, p); P r = Vl(fr, p); t = t + r - P{z(0), z(1), z(2)}; } return t; }) - v.segment(H.cbs + f*H.fbs, H.fbs)); }; Vec a = del(x, fx, px), b = del(y, fy, py); for (auto& q : C.fq(f, 2*fd)) { Mat p = H.fphi(f, q.x); Vec t1 = p.transpose()*a, t2 = p.transpose()*b; ex += wt*q.w*t1.dot(t2); ab += wt*q.w*t1.norm()*t2.norm(); } }
        c.close(x.dot(S*y), ex, std::max(tol, 1e-13*kc), ab + 1e-2*S.cwiseAbs().maxCoeff(), key + "-definition", w);
        if (var != 7) { int ku = (int)c.range(0, cd); auto u = field(c, ku, C.v); Vec v = H.interpolate(u, ku, &kc); c.close((S*v).norm(), 0, std::max({tol, 1e-13*kc, C.q*kc}), S.cwiseAbs().maxCoeff()*(1 + v.norm()), key + "-polynomial", cat(w, " degree ", ku)); }
    } else {
        // mass, projection, curl-curl matrix, boundary terms, cross products
        Mat Mo = make_vector_mass_oper(msh, cl, hdi); sz(Mo, nd, nd, "mass"); double ex = 0, ab = 0; for (auto& q : C.cq(2*cd)) { P a = H.uT(x, q.x), b = H.uT(y, q.x); ex += q.w*ref::dot(a, b); ab += q.w*ref::norm(a)*ref::norm(b); } c.close(x.dot(Mo*y), ex, tol, ab + C.A*1e-3, "mass-operator", w);
        int ku = (int)c.range(0, std::min(cd, fd)); auto u = field(c, ku, C.v); Vec v = H.interpolate(u, ku, &kc); CVec pr = maxwell_prj(msh, cl, hdi, [&](const typename M::point_type& p) { Eigen::Matrix<cplx, 3, 1> r; P z = dm::toP(p); for (int a = 0; a < 3; a++) r(a) = u[a](z); return r; }); c.check((size_t)pr.size() == nd, "projection-size", w); { double t = std::max({tol, 1e-13*kc, C.q*kc}); Vec re = pr.real(); P p = C.at(c); c.close(ref::norm(H.uT(re, p) - H.uT(v, p)), 0, t, 9, "projection-cell", w); for (size_t f = 0; f < nf; f++) { P p2 = (1.0/C.fv[f].size())*[&]{ P s{0,0,0}; for (auto& z : C.fv[f]) s = s + z; return s; }(); if (c.chance(50)) p2 = C.fv[f][c.draw(C.fv[f].size())]; c.close(ref::norm(H.uF(re, f, p2) - H.uF(v, f, p2)), 0, t, 9, "projection-face", cat(w, " face ", f)); } c.close(pr.imag().norm(), 0, t, 1 + v.norm(), "projection-imaginary", w); }
        int kb = (int)c.range(1, kmax); auto b = make_vector_monomial_basis(msh, cl, size_t(kb)); Mat CC = make_curl_curl_matrix(msh, cl, b); Vec s = rnd(c, b.size()), t = rnd(c, b.size()); ex = 0; ab = 0; for (auto& q : C.cq(2*(kb-1))) { P a = curl(C.grad(b, s, q.x)), z = curl(C.grad(b, t, q.x)); ex += q.w*ref::dot(a, z); ab += q.w*ref::norm(a)*ref::norm(z); } c.close(s.dot(CC*t), ex, tol, ab + C.A/C.h/C.h*1e-3, "curl-curl", w);
        size_t f = c.draw(nf); Mat Y = make_impedance_term(msh, C.fcs[f], size_t(fd)); auto su = field(c, fd, C.v); auto pw = make_plane_wave_term(msh, C.fcs[f], size_t(fd), [&](const typename M::point_type& p) { P z = dm::toP(p); return Eigen::Vector3d(su[0](z), su[1](z), su[2](z)); }); Vec a = x.segment(H.cbs + f*H.fbs, H.fbs), bb = y.segment(H.cbs + f*H.fbs, H.fbs); ex = 0; double e2 = 0, a2 = 0; ab = 0; for (auto& q : C.fq(f, 2*fd)) { P p1 = H.uF(x, f, q.x), p2 = H.uF(y, f, q.x), p3{su[0](q.x), su[1](q.x), su[2](q.x)}; ex += q.w*ref::dot(p1, p2); e2 += q.w*ref::dot(p1, p3); ab += q.w*ref::norm(p1)*ref::norm(p2); a2 += q.w*ref::norm(p1)*ref::norm(p3); } double ar = ref::area(C.fv[f])*1e-3; c.close(a.dot(Y*bb), ex, tol, ab + ar, "impedance-face", w); c.close(a.dot(pw.first*bb), ex, tol, ab + ar, "plane-wave-matrix", w); c.close(a.dot(pw.second), e2, tol, a2 + ar, "plane-wave-vector", w);
        // impedance of a boundary
        size_t bid = 0; bool any = false; for (size_t g = 0; g < nf; g++) if (msh.is_boundary(C.fcs[g]) && (!any || c.draw(2))) { bid = msh.boundary_id(C.fcs[g]); any = true; } double z = 0.5 + c.unit(); auto [YY, yr] = make_impedance_term(msh, cl, hdi, bid, z); sz(YY, nd, nd, "impedance"); ex = ab = e2 = a2 = 0; for (size_t g = 0; g < nf; g++) if (msh.is_boundary(C.fcs[g]) && msh.boundary_id(C.fcs[g]) == bid) for (auto& q : C.fq(g, 2*fd)) { P p1 = H.uF(x, g, q.x), p2 = H.uF(y, g, q.x); ex += q.w*z*ref::dot(p1, p2); ab += q.w*z*ref::norm(p1)*ref::norm(p2); e2 += z*q.w*p1[2]; a2 += z*q.w*ref::norm(p1); } c.close(x.dot(YY*y), ex, tol, ab + C.A/C.h*1e-3, "impedance-boundary", w); c.close(x.dot(yr), e2, tol, a2 + C.A/C.h*1e-3, "impedance-boundary-vector", w);
        Eigen::Vector3d n(C.n[0][0], C.n[0][1], C.n[0][2]); Eigen::Matrix<double, Eigen::Dynamic, 3> F = Mat::NullaryExpr(3, 3, [&](Eigen::Index, Eigen::Index) { return c.sym(); }); Mat l = vcross(n, F), r = vcross(F, n); for (int i = 0; i < 3; i++) { P e = ref::cross(C.n[0], P{F(i,0), F(i,1), F(i,2)}); for (int k = 0; k < 3; k++) { c.close(l(i,k), e[k], 1e-13, 3, "cross-left", w); c.close(r(i,k), -e[k], 1e-13, 3, "cross-right", w); } }
    }
}
template<typename M> static void go2(Ctx& c, const Cell<M>& C, int fmax, const std::string& w0) {
    const M& msh = C.msh; const auto& cl = C.cl; size_t nf = C.fcs.size(); bool stab = c.draw(2); std::string key = stab ? "hdg" : "curl"; c.label(key); auto [cd, fd] = degrees(c, fmax); hho_degree_info hdi(cd, fd); int rd = fd+1; Hyb<M,1> H(C, cd, std::vector<int>(nf, fd)); std::string w = cat(w0, " cd=", cd, " fd=", fd); double tol = C.tol(), kc; Vec x = rnd(c, H.n), y = rnd(c, H.n);
    if (!stab) {
        auto rb = make_scalar_monomial_basis(msh, cl, rd); size_t rbs = rb.size(); auto [oper, data] = curl_reconstruction(msh, cl, hdi); c.check((size_t)oper.rows() == rbs-1 && (size_t)oper.cols() == H.n && (size_t)data.rows() == H.n && (size_t)data.cols() == H.n, key + "-size", w); Mat S = Mat::Zero(rbs-1, rbs-1); auto qc = C.cq(2*(rd-1)); for (auto& q : qc) { Mat g = rb.eval_gradients(D<M>(q.x)); g = g.bottomRows(rbs-1).eval(); S += q.w*g*g.transpose(); } Eigen::SelfAdjointEigenSolver<Mat> es(S); double st = 2e-14*es.eigenvalues()(rbs-2)/std::max(es.eigenvalues()(0), 1e-300); if (!(st < 1e-4)) throw pbt::Discard(); st = std::max(st, tol);
        auto full = [&](const Vec& v) { Vec f = Vec::Zero(rbs); f.tail(rbs-1) = v; return f; }; Vec rx = full(oper*x), ry = full(oper*y), t = full(rnd(c, rbs-1)); auto K = [&](const Vec& v, P p) -> Mat { Mat g = C.grad(rb, v, p), r(1, 2); r << g(0,1), -g(0,0); return r; }; double lhs = 0, a1 = 0, a2 = 0, e = 0, e1 = 0; for (auto& q : qc) { Mat a = K(rx, q.x), b = K(ry, q.x), d = K(t, q.x); lhs += q.w*(a*d.transpose())(0); a1 += q.w*a.norm()*d.norm(); e += q.w*(a*b.transpose())(0); e1 += q.w*a.norm()*b.norm(); }
        // rot(u) = (dy u, -dx u): testing with rot(w) is testing the gradient with grad(w)
        double rhs = H.gradrhs(x, [&](P p) -> Mat { return C.grad(rb, t, p); }, rd-1, &a2); c.close(lhs, rhs, st, a1 + a2, key + "-definition", w); double m = spsd(c, data, st, key + "-form", w); c.close(x.dot(data*y), e, st, e1 + m*x.norm()*y.norm(), key + "-form-energy", w);
        int ku = (int)c.range(0, rd); Sum u = poly(c, ku, C.v, 2); Vec v = H.interpolate({u}, ku, &kc), r = full(oper*v); P p = C.at(c), g = u.grad(p); Mat gr = K(r, p); double tl = std::max({st, 1e-13*kc}); c.close(std::hypot(gr(0,0) - g[1], gr(0,1) + g[0])*C.h, 0, tl, 3, key + "-reproduces", cat(w, " degree ", ku)); Vec one = H.constant(Vec::Constant(1, 1.0)); c.close((data*one).norm(), 0, tl, m, key + "-constants", w);
    } else {
        Mat S = curl_hdg_stabilization(msh, cl, hdi); c.check((size_t)S.rows() == H.n && (size_t)S.cols() == H.n, key + "-size", w); spsd(c, S, tol, key, w); double ex = 0, ab = 0; for (size_t f = 0; f < nf; f++) { auto fb = H.fb(f); auto del = [&](const Vec& v) { Mat G = Mat::Zero(fb.size(), fb.size()); Vec g = Vec::Zero(fb.size()); for (auto& q : C.fq(f, fd + std::max(cd, fd))) { Vec p = fb.eval_functions(D<M>(q.x)); G += q.w*p*p.transpose(); g += q.w*p*C.val(H.cb(), H.cell(v), q.x)(0); } return Vec(G.ldlt().solve(g) - H.face(v, f)); }; Vec a = del(x), b = del(y); for (auto& q : C.fq(f, 2*fd)) { double s = C.val(fb, a, q.x)(0), t = C.val(fb, b, q.x)(0); ex += q.w*s*t/C.hf[f]; ab += q.w*std::fabs(s*t)/C.hf[f]; } }
        c.close(x.dot(S*y), ex, tol, ab + S.cwiseAbs().maxCoeff()*1e-2, key + "-definition", w); int ku = (int)c.range(0, cd); Sum u = poly(c, ku, C.v, 2); Vec v = H.interpolate({u}, ku, &kc); c.close((S*v).norm(), 0, std::max(tol, 1e-13*kc), S.cwiseAbs().maxCoeff()*(1 + v.norm()), key + "-polynomial", cat(w, " degree ", ku));
    }
}
template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int fmax) { size_t i = c.draw(msh.cells_size()); Cell<M> C(m, msh, cm, i); c.note << ref::describe(m) << " cell " << i; c.label(m.kind); c.nontrivial(); if constexpr (M::dimension == 3) go3(c, C, fmax, cat("cell ", i)); else go2(c, C, fmax, cat("cell ", i)); }
#if FAM == 1
PROP("curl_g2", 15000, 360000) { on_g2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 4); }); }
PROP("curl_s2", 6000, 180000) { on_s2(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, 4); }); }
#elif FAM == 2
PROP("curl_g3", 6000, 120000) { on_g3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, c.thorough ? 3 : 2); }); }
#elif FAM == 3
PROP("curl_s3", 6000, 120000) { on_s3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, c.thorough ? 3 : 2); }); }
#elif FAM == 4
PROP("curl_c3", 6000, 120000) { on_c3(c, [](Ctx& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm, c.thorough ? 3 : 2); }); }
#endif
