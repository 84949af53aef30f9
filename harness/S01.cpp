// S01: rational numbers obey the field axioms and stay normalised; points obey the vector-space laws.
#include "pbt.hpp"
#include <complex>
#include "diskpp/mesh/rational.hpp"
#include "diskpp/mesh/point.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat;
using W = __int128;
static W wgcd(W a, W b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { W t = a % b; a = b; b = t; } return a; }
struct Q { W n = 0, d = 1; Q() {} Q(W a, W b = 1) { W g = wgcd(a, b); if (b < 0) g = -g; n = a / g; d = b / g; } };     // reference: reduced, positive denominator
static Q operator+(Q a, Q b) { return Q(a.n*b.d + b.n*a.d, a.d*b.d); } static Q operator-(Q a, Q b) { return Q(a.n*b.d - b.n*a.d, a.d*b.d); }
static Q operator*(Q a, Q b) { return Q(a.n*b.n, a.d*b.d); } static Q operator/(Q a, Q b) { return Q(a.n*b.d, a.d*b.n); }
static int cmp(Q a, Q b) { W x = a.n*b.d, y = b.n*a.d; return x < y ? -1 : x > y; }
static bool fits(Q a, W lim) { return a.n <= lim && a.n >= -lim && a.d <= lim; }
static std::string str(Q a) { return cat((long long)a.n, "/", (long long)a.d); }
template<typename I> static std::string str(const rational<I>& r) { return cat(r.num(), "/", r.den()); }
template<typename I> static bool eq(const rational<I>& r, Q q) { return W(r.num())*q.d == q.n*W(r.den()) && r.den() > 0; }
template<typename I> static bool norm(const rational<I>& r) { return r.den() > 0 && wgcd(r.num(), r.den()) == 1; }

template<typename I> static void chain(Ctx& c) {
    using R = rational<I>; const W lim = sizeof(I) == 8 ? 1000000000 : 20000;     // operands of an operation: products stay within the type
    long m = c.chance(30) ? 4 : sizeof(I) == 8 ? 1000 : 60;
    auto num = [&]{ return c.range(0, 2*m) - m; }; auto nz = [&]{ long v = c.range(1, m); return c.chance(40) ? -v : v; };
    auto lit = [&](Q& q) { if (c.chance(30)) { long n = num(); q = Q(n); return R(I(n)); } long n = num(), d = nz(); q = Q(n, d); return R(I(n), I(d)); };
    Q q; R r = lit(q); c.check(eq(r, q), "constructor", cat(str(r), " expected ", str(q)));
    size_t n = c.size(1, 8); bool neg = false;
    c.note << str(r);
    for (size_t i = 0; i < n; i++) {
        Q p; R s = lit(p); int op = int(c.draw(12)); Q e; R t; R keep = r; long k = nz(); bool inplace = c.draw(2); neg = neg || q.n < 0 || p.n < 0 || k < 0;
        switch (op) {
        case 0: e = q + p; if (inplace) { t = r; t += s; } else t = r + s; c.note << " + " << str(s); break;
        case 1: e = q - p; if (inplace) { t = r; t -= s; } else t = r - s; c.note << " - " << str(s); break;
        case 2: case 3: e = q * p; if (inplace) { t = r; t *= s; } else t = r * s; c.note << " * " << str(s); break;
        case 4: case 5: if (p.n == 0) continue; e = q / p; if (inplace) { t = r; t /= s; } else t = r / s; c.note << " / " << str(s); break;
        case 6: e = q * Q(k); if (inplace) { t = r; t *= I(k); } else t = r * I(k); c.note << " * " << k; break;
        case 7: e = q / Q(k); if (inplace) { t = r; t /= I(k); } else t = r / I(k); c.note << " / " << k; break;
        case 8: e = Q(0) - q; t = -r; c.note << " negated"; break;
        case 9: if (q.n == 0) continue; e = Q(1) / q; t = inv(r); c.note << " inverted"; break;
        case 10: e = q.n < 0 ? Q(0) - q : q; t = abs(r); c.note << " abs"; break;
        default: e = q; t = r; t.simplify(); c.check(norm(t), "simplify-not-normalised", str(t)); c.note << " simplified";
        }
        if (!fits(e, lim)) break;
        c.check(eq(t, e), op <= 1 ? "sum" : op <= 3 ? "product" : op <= 5 ? "quotient" : op == 6 ? "product-with-integer" : op == 7 ? "quotient-by-integer" : op == 8 ? "negation" : op == 9 ? "inverse" : op == 10 ? "abs" : "simplify",
            cat(str(keep), " op ", op, " ", str(s), " (", k, ") = ", str(t), ", expected ", str(e)));
        if (op <= 1 || op == 6 || op == 7) c.check(norm(t), "result-not-in-lowest-terms", str(t));
        if (op >= 2 && op <= 5 && norm(keep) && norm(s)) c.check(norm(t), "result-not-in-lowest-terms", str(t));
        // order
        auto order = [&](const R& a, const R& b, Q x, Q y) { int o = cmp(x, y);
            c.check((a < b) == (o < 0) && (a <= b) == (o <= 0) && (a > b) == (o > 0) && (a >= b) == (o >= 0), "order", cat(str(a), " and ", str(b))); };
        order(t, s, e, p); order(s, t, p, e); order(t, t, e, e); order(t, R(0), e, Q(0));
        c.check(double(t) == double(t.num())/double(t.den()) && std::fabs(double(t) - double((long long)e.n)/double((long long)e.d)) <= 1e-12*(1 + std::fabs(double(t))), "to-double", str(t));
        c.check(std::fabs(float(t) - double(t)) <= 1e-6*(1 + std::fabs(double(t))), "to-float", str(t));
        std::ostringstream ss; ss << t; c.check(ss.str() == str(t), "printed", ss.str());
        // axioms on the current values
        if (fits(e, 300) || sizeof(I) == 8) { R t2 = t, s2 = s; t2.simplify(); s2.simplify(); auto axioms = [&](const R& t, const R& s) {
            Q z; R u = lit(z); u.simplify(); if (fits(e, 30000)) {
                auto same = [&](const R& a, const R& b) { return a <= b && b <= a; };
                if (fits(e + p, 30000) && fits(e*p, 30000) && (sizeof(I) == 8 || (fits(e*p, 150) && fits(e+p, 150) && fits(p*z, 150) && fits(p+z, 150)))) {
                    c.check(same(t + s, s + t) && same(t * s, s * t), "commutative"); c.check(same((t + s) + u, t + (s + u)), "associative-sum"); 
                    c.check(same(t*(s + u), t*s + t*u), "distributive", cat(str(t), " ", str(s), " ", str(u)));
                    c.check(same(t + (-t), R(0)) && same(t * R(1), t) && same(t + R(0), t), "identities");
                    if (e.n != 0) c.check(same(t * inv(t), R(1)) && same(t / t, R(1)), "inverse-law", str(t)); }
            } }; axioms(t2, s2);
        }
        r = t; q = e; if (W(r.den()) > lim || W(r.num()) > lim || W(r.num()) < -lim) r.simplify();      // unreduced operands may exceed the type: not a property of the arithmetic
    }
    c.nontrivial(neg && n >= 2);
}
PROP("rational/int64", 60000, 2000000) { chain<int64_t>(c); }
PROP("rational/int", 60000, 2000000) { chain<int>(c); }
PROP("gcd-lcm", 20000, 400000) {
    long m = c.chance(50) ? 12 : 30000; long a = c.range(0, 2*m) - m, b = c.range(0, 2*m) - m; if (a == 0 && b == 0) throw pbt::Discard();
    c.note << a << " " << b; c.nontrivial(a < 0 || b < 0);
    W g = wgcd(a, b); c.check(W(disk::gcd(a, b)) == g && W(disk::gcd(int(a), int(b))) == g, "gcd", cat("gcd ", disk::gcd(a, b), " of ", a, " and ", b));
    W l = W(a)*b/g; if (l < 0) l = -l; c.check(W(disk::lcm(a, b)) == l, "lcm", cat("lcm ", disk::lcm(a, b), " of ", a, " and ", b));
}

// exact areas and volumes of simplices with rational coordinates
PROP("rational-measures", 4000, 60000) {
    using R = rational<int64_t>; auto coord = [&](Q& q) { long d = c.range(1, 8), n = c.range(-12, 12); q = Q(n, d); return R(n, d); };
    {
        simplicial_mesh<R,2> msh; using M = decltype(msh); auto st = msh.backend_storage(); Q x[3], y[3];
        for (int i = 0; i < 3; i++) { R a = coord(x[i]), b = coord(y[i]); st->points.push_back(M::point_type(a, b)); st->nodes.push_back(M::node_type({point_identifier<2>(i)})); }
        st->surfaces.push_back(M::surface_type({0ul, 1ul, 2ul})); for (auto& e : {std::array<size_t,2>{0,1}, {0,2}, {1,2}}) st->edges.push_back(M::edge_type({e[0], e[1]})); st->boundary_info.resize(3); st->subdomain_info.resize(1);
        Q a = ((x[1]-x[0])*(y[2]-y[0]) - (x[2]-x[0])*(y[1]-y[0])) / Q(2); c.note << "area " << str(a); c.nontrivial(a.n != 0);
        c.check(eq(measure(msh, msh[0], true), a), "signed-area", cat(str(measure(msh, msh[0], true)), " expected ", str(a)));
        c.check(eq(measure(msh, msh[0]), a.n < 0 ? Q(0)-a : a), "area", str(a));
    }
}

template<typename T> static T val(Ctx& c);
template<> double val<double>(Ctx& c) { return double(c.range(-50, 50)) / 8; }
template<> float val<float>(Ctx& c) { return float(c.range(-50, 50)) / 8; }
template<> std::complex<double> val<std::complex<double>>(Ctx& c) { double a = val<double>(c); return {a, val<double>(c)}; }
template<> rational<int64_t> val<rational<int64_t>>(Ctx& c) { long n = c.range(-20, 20); return rational<int64_t>(n, c.range(1, 9)); }
template<typename T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(const rational<int64_t>& a, const rational<int64_t>& b) { return a <= b && b <= a; }
// dyadic coordinates: every operation is exact, equality is literal
template<typename T, size_t D> static void pts(Ctx& c) {
    using P = point<T, D>; auto gen = [&] { P p; for (size_t i = 0; i < D; i++) p[i] = val<T>(c); return p; };
    auto eqp = [&](const P& a, const P& b) { for (size_t i = 0; i < D; i++) if (!same(a[i], b[i])) return false; return true; };
    P a = gen(), b = gen(), d = gen(), z; T s = val<T>(c), t = val<T>(c); c.note << a << " " << b << " " << s; c.nontrivial(!eqp(a, b) && !eqp(a, z));
    for (size_t i = 0; i < D; i++) c.check(same(z[i], T(0)), "default-is-origin");
    for (size_t i = 0; i < D; i++) { c.check(same((a+b)[i], a[i]+b[i]) && same((a-b)[i], a[i]-b[i]) && same((a*s)[i], a[i]*s) && same((s*a)[i], a[i]*s) && same((-a)[i], -a[i]) && same(a.at(i), a[i]), "componentwise", cat("component ", i)); }
    c.check(eqp(a + b, b + a) && eqp((a + b) + d, a + (b + d)) && eqp(a + z, a) && eqp(a - a, z) && eqp(a - b, -(b - a)), "group-laws");
    c.check(eqp(s*(a + b), s*a + s*b) && eqp((s + t)*a, s*a + t*a) && eqp((s*t)*a, s*(t*a)) && eqp(T(1)*a, a), "scalar-laws");
    if (!same(s, T(0))) { P q = a/s; for (size_t i = 0; i < D; i++) c.check(same(q[i], a[i]/s), "division"); }
    P m = midpoint(a, b); c.check(eqp(m + m, a + b), "midpoint");
    P e; e = a; c.check(eqp(e, a), "assignment"); e.set_all(s); for (size_t i = 0; i < D; i++) c.check(same(e[i], s), "set-all"); P cp(b); c.check(eqp(cp, b), "copy");
    e[D-1] = t; c.check(same(e.at(D-1), t) && (D == 1 || same(e[0], s)), "write-one-coordinate"); e.at(0) = s; c.check(same(e[0], s), "write-at");
    bool th = false; try { a.at(D); } catch (const std::out_of_range&) { th = true; } c.check(th, "out-of-range-coordinate-not-refused");
    th = false; try { P bad{val<T>(c), val<T>(c), val<T>(c), val<T>(c)}; } catch (const std::invalid_argument&) { th = true; } c.check(th, "wrong-initializer-not-refused");
    if constexpr (D == 1) { P q{s}; c.check(same(q.x(), s), "list"); q.x() = t; c.check(same(q[0], t), "x"); }
    if constexpr (D == 2) { P q{s, t}; c.check(same(q.x(), s) && same(q.y(), t), "list"); P w(t, s); c.check(same(w.x(), t) && same(w.y(), s), "coordinates"); w.y() = t; c.check(same(w[1], t) && same(w[0], t), "y");
        c.check(same(det(a, b), a[0]*b[1] - a[1]*b[0]) && same(det(a, b), -det(b, a)) && same(det(a, a), T(0)) && same(det(s*a + d, b), s*det(a, b) + det(d, b)), "det"); }
    if constexpr (D == 3) { P q{s, t, s}; c.check(same(q.x(), s) && same(q.y(), t) && same(q.z(), s), "list"); P w(t, s, t); c.check(same(w.x(), t) && same(w.y(), s) && same(w.z(), t), "coordinates"); w.z() = s; c.check(same(w[2], s) && same(w[1], s) && same(w[0], t), "z"); }
    std::ostringstream ss, ex; ss << a; ex << "( "; for (size_t i = 0; i < D; i++) ex << (i ? ", " : "") << a[i]; ex << " )"; c.check(ss.str() == ex.str(), "printed", ss.str());
    if constexpr (!std::is_same_v<T, rational<int64_t>>) {
        auto v = a.to_vector(); auto w = to_vector(a); for (size_t i = 0; i < D; i++) c.check(v(i) == a[i] && w(i) == a[i], "to-vector"); P back(v); c.check(eqp(back, a), "from-vector");
        double n2 = 0; for (size_t i = 0; i < D; i++) n2 += std::norm(a[i] - b[i]); double dist = std::abs(distance(a, b)); c.close(dist, std::sqrt(n2), 1e-6, 1 + dist, "distance");
        c.check(distance(a, b) == distance(b, a) && distance(a, a) == T(0), "distance-symmetric"); c.check(std::abs(distance(a, d)) <= std::abs(distance(a, b)) + std::abs(distance(b, d)) + 1e-5, "triangle-inequality");
    }
}
PROP("point/double-1", 3000, 60000) { pts<double,1>(c); }
PROP("point/double-2", 3000, 60000) { pts<double,2>(c); }
PROP("point/double-3", 3000, 60000) { pts<double,3>(c); }
PROP("point/float-3", 3000, 60000) { pts<float,3>(c); }
PROP("point/complex-2", 3000, 60000) { pts<std::complex<double>,2>(c); }
PROP("point/rational-2", 3000, 60000) { pts<rational<int64_t>,2>(c); }
PROP("point/rational-3", 3000, 60000) { pts<rational<int64_t>,3>(c); }
// identifiers
PROP("identifier", 3000, 30000) {
    using A = identifier<int, size_t, 0>; using B = identifier<int, uint32_t, 7>; size_t x = c.draw(1000), y = c.draw(1000); c.nontrivial(x != y); c.note << x << " " << y;
    A a(x), b(y); c.check(size_t(a) == x && (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y), "identifier");
    B p((uint32_t)x), q((uint32_t)y); c.check(uint32_t(p) == x && (p == q) == (x == y) && (p != q) == (x != y) && (p < q) == (x < y), "identifier32");
    bool th = false; try { (void)size_t(A::invalid()); } catch (const std::logic_error&) { th = true; } c.check(th, "invalid-identifier-used"); th = false; try { (void)uint32_t(B()); } catch (const std::logic_error&) { th = true; } c.check(th, "invalid-identifier-used");
}
