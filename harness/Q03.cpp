// Q03: reference rules reach their advertised order and refuse what their tables do not cover.
#include "topo.hpp"
#include "poly.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/quadratures/bits/quad_raw_gauss_lobatto.hpp"
using namespace disk;
namespace Q = disk::quadrature;
using pbt::Ctx; using pbt::cat; using ref::P;

using pl::gen_poly; using pl::sum;
// answer of a rule, or refusal
template<typename F> static auto ask(Ctx& c, F f, bool& refused) { refused = false; decltype(f()) r; try { r = f(); } catch (const std::exception&) { refused = true; } return r; }
template<size_t D> static point<double,D> pt(P p) { if constexpr (D == 1) return point<double,1>(p[0]); else if constexpr (D == 2) return point<double,2>(p[0], p[1]); else return point<double,3>(p[0], p[1], p[2]); }
static P rnd(Ctx& c, int D, double s) { P p{0,0,0}; for (int d = 0; d < D; d++) p[d] = s*c.sym(); return p; }

template<size_t D> static void segment(Ctx& c, bool lob) {
    double s = std::pow(10.0, 2*c.sym()); P a = rnd(c, D, s), b = rnd(c, D, s); if (ref::norm(b-a) < 1e-2*s) throw pbt::Discard(); int deg = (int)c.range(0, 48), maxd = lob ? 37 : 39; bool ref;
    c.note << (lob ? "lobatto" : "gauss") << " degree " << deg << " segment in dimension " << D; auto q = ask(c, [&] { return lob ? Q::gauss_lobatto(deg, pt<D>(a), pt<D>(b)) : Q::gauss_legendre(deg, pt<D>(a), pt<D>(b)); }, ref);
    c.check(ref == (deg > maxd), "refusal", cat("degree ", deg, ref ? " refused" : " answered")); if (ref) return; c.nontrivial(); int k = (int)c.range(0, deg); auto f = gen_poly(c, k, {a, b}, D); double h = ref::norm(b-a);
    c.close(sum(q, f), ref::int_segment(a, b, k, f), 1e-12, h, "exactness", cat("power ", k, " of degree ", deg));
    double w = 0; for (auto& x : q) { w += x.weight(); c.check(x.weight() > 0, "weight-sign"); P y = dm::toP(x.point()); double t = ref::dot(y-a, b-a)/(h*h); c.close(ref::norm(a + t*(b-a) - y), 0, 1e-13, s, "point-off-segment"); c.check(t > -1e-13 && t < 1+1e-13, "point-outside"); if (!lob) c.check(t > 0 && t < 1, "point-at-end"); }
    if (lob) { bool A = false, B = false; for (auto& x : q) { A |= ref::norm(dm::toP(x.point())-a) < 1e-13*s; B |= ref::norm(dm::toP(x.point())-b) < 1e-13*s; } c.check(A && B, "lobatto-without-ends"); }
    c.close(w, h, 1e-13, h, "weights-sum");
}
PROP("gauss-points", 60000, 10000000) { switch (c.draw(3)) { case 0: segment<1>(c, false); break; case 1: segment<2>(c, false); break; default: segment<3>(c, false); } }
PROP("lobatto-points", 60000, 10000000) { switch (c.draw(3)) { case 0: segment<1>(c, true); break; case 1: segment<2>(c, true); break; default: segment<3>(c, true); } }
PROP("scalar-rules", 60000, 10000000) {     // signed integral from a to b
    double a = 3*c.sym(), b = 3*c.sym(); if (std::fabs(b-a) < 1e-3) throw pbt::Discard(); bool lob = c.draw(2), ref; int deg = (int)c.range(0, 48); c.note << (lob ? "lobatto" : "gauss") << " degree " << deg << " on [" << a << "," << b << "]";
    auto q = ask(c, [&] { return lob ? Q::gauss_lobatto(deg, a, b) : Q::gauss_legendre(deg, a, b); }, ref); c.check(ref == (deg > (lob ? 37 : 39)), "refusal", cat("degree ", deg)); if (ref) return; c.nontrivial(); int k = (int)c.range(0, deg);
    auto f = gen_poly(c, k, {P{a,0,0}, P{b,0,0}}, 1); double e = ref::int_segment(P{a,0,0}, P{b,0,0}, k, f) * (b > a ? 1 : -1); c.close(sum(q, f), e, 1e-12, std::fabs(b-a), "exactness", cat("power ", k));
}
PROP("reference-edge", 20000, 2000000) {
    int deg = (int)c.range(0, 60); bool gw = c.draw(2); c.note << (gw ? "golub-welsch" : "edge") << " degree " << deg; auto q = gw ? golub_welsch<double>(deg) : edge_quadrature<double>(deg); c.nontrivial(); int k = (int)c.range(0, deg);
    double w = 0, s = 0, e = 0; double o = c.sym(); for (auto& [p, x] : q) { w += x; s += x*ref::ipow((p.x()-o)/2, k); c.check(p.x() > -1 && p.x() < 1 && x > 0, "points"); } e = 2*(ref::ipow((1-o)/2, k+1) - ref::ipow((-1-o)/2, k+1))/(k+1); c.close(w, 2, 1e-12, 1, "weights-sum"); c.close(s, e, 1e-12, 1, "exactness", cat("power ", k));
    int d2 = (int)c.range(0, 30); auto q2 = quadrangle_quadrature<double>(d2); int i = (int)c.range(0, d2), j = (int)c.range(0, d2); double t = 0; for (auto& [p, x] : q2) t += x*ref::ipow(p.x(), i)*ref::ipow(p.y(), j); c.close(t, (i%2 ? 0 : 2.0/(i+1))*(j%2 ? 0 : 2.0/(j+1)), 1e-12, 1, "quadrangle");
}
static std::vector<P> quad_pts(Ctx& c, bool parallelogram) {
    auto T = ref::gen_affine(c, 2, true); std::vector<P> v{{0,0,0},{1,0,0},{1,1,0},{0,1,0}}; if (!parallelogram) for (auto& p : v) { p[0] += 0.2*c.sym(); p[1] += 0.2*c.sym(); } for (auto& p : v) p = T(p); return v; }
PROP("tensor-2d", 60000, 5000000) {
    bool par = c.draw(2), old = c.draw(2); auto v = quad_pts(c, par); int deg = (int)c.range(0, 46); bool ref; c.note << (par ? "parallelogram" : "quadrilateral") << " degree " << deg; if (c.draw(2)) { std::reverse(v.begin(), v.end()); c.label("clockwise"); }
    auto q = ask(c, [&] { if (old) return disk::priv::integrate_quadrangle_tens<double>(deg, {pt<2>(v[0]), pt<2>(v[1]), pt<2>(v[2]), pt<2>(v[3])}); return c.draw(2) ? Q::tensorized_gauss_legendre(deg, pt<2>(v[0]), pt<2>(v[1]), pt<2>(v[2]), pt<2>(v[3])) : Q::tensorized_gauss_legendre(deg, std::array{pt<2>(v[0]), pt<2>(v[1]), pt<2>(v[2]), pt<2>(v[3])}); }, ref);
    if (!old) c.check(ref == (deg > 39), "refusal", cat("degree ", deg)); else if (deg > 39) return; if (ref) return; c.nontrivial();
    int top = par ? deg : deg - deg%2; int k = (int)c.range(0, top); auto f = gen_poly(c, k, v, 2); double A = std::fabs(ref::area(v)); c.close(sum(q, f), ref::int_polygon(v, k, f), 1e-11, A*10, "exactness", cat("power ", k, " of degree ", deg)); for (auto& x : q) c.check(x.weight() > 0, "weight-sign");
}
PROP("tensor-3d", 30000, 2000000) {
    auto T = ref::gen_affine(c, 3, true); std::vector<P> v; for (int b = 0; b < 8; b++) v.push_back(T(P{(double)(b&1), (double)((b>>1)&1), (double)(b>>2)})); int deg = (int)c.range(0, c.thorough ? 42 : 24); if (c.chance(5)) deg = 40 + (int)c.draw(5); bool ref; c.note << "parallelepiped, degree " << deg;
    std::array<point<double,3>,8> a; { static const int O[8] = {0,1,3,2,4,5,7,6}; for (int i = 0; i < 8; i++) a[i] = pt<3>(v[O[i]]); } auto q = ask(c, [&] { return Q::tensorized_gauss_legendre(deg, a); }, ref); c.check(ref == (deg > 39), "refusal", cat("degree ", deg)); if (ref) return; c.nontrivial(); int k = (int)c.range(0, std::min(deg, 16)); auto f = gen_poly(c, k, v, 3); static const int t[6][4] = {{0,1,3,7},{0,1,5,7},{0,2,3,7},{0,2,6,7},{0,4,5,7},{0,4,6,7}}; double e = 0, V = 0;
    for (auto& x : t) { double J = std::fabs(ref::dot(ref::cross(v[x[1]]-v[x[0]], v[x[2]]-v[x[0]]), v[x[3]]-v[x[0]])); e += ref::int_tet(v[x[0]], v[x[1]], v[x[2]], v[x[3]], J, k, f); V += J/6; } c.close(sum(q, f), e, 1e-11, V*10, "exactness", cat("power ", k, " of degree ", deg)); double w = 0; for (auto& x : q) w += x.weight(); c.close(w, V, 1e-12, V, "weights-sum");
}
static bool in_tri(const std::vector<P>& v, P p, double tol) { P n = ref::cross(v[1]-v[0], v[2]-v[0]); double A = ref::dot(n, n); for (int i = 0; i < 3; i++) if (ref::dot(ref::cross(v[(i+1)%3]-v[i], p-v[i]), n) < -tol*A) return false; return std::fabs(ref::dot(n, p-v[0])) <= tol*std::sqrt(A)*ref::diameter(v); }
template<size_t D> static void triangle_rule(Ctx& c) {
    auto T = ref::gen_affine(c, D, true); std::vector<P> v; for (int i = 0; i < 3; i++) { P p{(double)(i==1), (double)(i==2), 0}; p[0] += 0.2*c.sym(); p[1] += 0.2*c.sym(); if (D == 3) p[2] = c.sym(); v.push_back(T(p)); } if (c.draw(2)) { std::swap(v[1], v[2]); c.label("reversed"); }
    int which = (int)c.draw(D == 2 ? 3 : 2); int deg = (int)c.range(0, which == 0 ? 42 : which == 1 ? 26 : 20); bool ref; static const char* N[] = {"triangle-gauss","dunavant","grundmann-moeller"}; c.note << N[which] << " degree " << deg << " in dimension " << D; c.label(N[which]);
    std::array<point<double,D>,3> a{pt<D>(v[0]), pt<D>(v[1]), pt<D>(v[2])}; bool arr = c.draw(2);
    auto q = ask(c, [&] { if (which == 0) return arr ? Q::triangle_gauss(deg, a) : Q::triangle_gauss(deg, a[0], a[1], a[2]); if (which == 1) return arr ? Q::dunavant(deg, a) : Q::dunavant(deg, a[0], a[1], a[2]); if constexpr (D == 2) return Q::grundmann_moeller(deg, a[0], a[1], a[2]); else return Q::dunavant(deg, a); }, ref);
    c.check(ref == (which == 1 && deg > 20), cat("refusal-", N[which]), cat("degree ", deg, ref ? " refused" : " answered")); if (ref) return; c.nontrivial(); int k = (int)c.range(0, deg); auto f = gen_poly(c, k, v, D); double J = ref::norm(ref::cross(v[1]-v[0], v[2]-v[0]));
    c.close(sum(q, f), ref::int_triangle(v[0], v[1], v[2], J, k, f), which == 2 ? 1e-15*std::pow(4.0, deg*0.75)*100 : 1e-11, J, cat("exactness-", N[which]), cat("power ", k, " of degree ", deg)); double w = 0; for (auto& x : q) { w += x.weight(); c.check(which == 1 || in_tri(v, dm::toP(x.point()), 1e-12), cat("point-outside-", N[which]), cat("degree ", deg)); } c.close(w, J/2, which == 2 ? 1e-8 : 1e-11, J, cat("weights-sum-", N[which]), cat("degree ", deg));
}
PROP("triangle-2d", 60000, 5000000) { triangle_rule<2>(c); }
PROP("triangle-3d", 60000, 5000000) { triangle_rule<3>(c); }
PROP("tetrahedron", 30000, 2500000) {
    auto T = ref::gen_affine(c, 3, true); std::vector<P> v; for (int i = 0; i < 4; i++) { P p{(double)(i==1), (double)(i==2), (double)(i==3)}; for (int d = 0; d < 3; d++) p[d] += 0.15*c.sym(); v.push_back(T(p)); } if (c.draw(2)) { std::swap(v[1], v[2]); c.label("reversed"); }
    bool gm = c.draw(2); int deg = (int)c.range(0, gm ? 14 : 24); bool ref; c.note << (gm ? "grundmann-moeller" : "arbq") << " degree " << deg; c.label(gm ? "gm" : "arbq"); auto p = [&](int i) { return pt<3>(v[i]); };
    auto q = ask(c, [&] { return gm ? Q::grundmann_moeller(deg, p(0), p(1), p(2), p(3)) : Q::arbq(deg, p(0), p(1), p(2), p(3)); }, ref); c.check(ref == (!gm && deg > 15), "refusal", cat("degree ", deg, ref ? " refused" : " answered")); if (ref) return; c.nontrivial(); int k = (int)c.range(0, deg); auto f = gen_poly(c, k, v, 3); double J = std::fabs(ref::dot(ref::cross(v[1]-v[0], v[2]-v[0]), v[3]-v[0]));
    c.close(sum(q, f), ref::int_tet(v[0], v[1], v[2], v[3], J, k, f), gm ? 1e-9 : 1e-11, J, gm ? "exactness-gm" : "exactness-arbq", cat("power ", k, " of degree ", deg)); double w = 0; for (auto& x : q) { w += x.weight(); P y = dm::toP(x.point()); for (int i = 0; i < 4; i++) { auto u = v; u[i] = y; double s = ref::dot(ref::cross(v[1]-v[0], v[2]-v[0]), v[3]-v[0]); c.check(ref::dot(ref::cross(u[1]-u[0], u[2]-u[0]), u[3]-u[0])/s > -1e-12, "point-outside"); } } c.close(w, J/6, gm ? 1e-9 : 1e-11, J, "weights-sum");
}
