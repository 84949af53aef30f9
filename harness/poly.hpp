// Random polynomials scaled to be O(1) on an element, and quadrature sums.
#pragma once
#include "diskmesh.hpp"
namespace pl {
using ref::P; using pbt::Ctx;
// random polynomial of total degree exactly k: (a.(x-o))^i (b.(x-o))^(k-i), |.| = O(1) on the element
struct Poly { P o, a, b; int i, j; double operator()(P x) const { P d = x-o; return ref::ipow(ref::dot(a, d), i)*ref::ipow(ref::dot(b, d), j); } };
inline Poly gen_poly(Ctx& c, int k, const std::vector<P>& v, int dim) {
    double h = ref::diameter(v); Poly p; p.o = ref::mean(v); P s{0,0,0}; for (int d = 0; d < dim; d++) s[d] = c.sym(); p.o = p.o + (0.3*h)*s;
    auto dir = [&] { P r{0,0,0}; for (int d = 0; d < dim; d++) r[d] = c.sym(); double m = 0; for (auto& x : v) m = std::max(m, std::fabs(ref::dot(r, x-p.o))); if (m < 1e-3*h) { r = {0,0,0}; r[c.draw(dim)] = 1; m = 0; for (auto& x : v) m = std::max(m, std::fabs(ref::dot(r, x-p.o))); if (m < 1e-3*h) { r = {1,1,1}; m = 0; for (auto& x : v) m = std::max(m, std::fabs(ref::dot(r, x-p.o))); } } return (1/m)*r; };
    p.a = dir(); p.b = dir(); p.i = (int)c.range(0, k); p.j = k - p.i; return p;
}
template<typename QP> double sum(const QP& q, const Poly& f) { double s = 0; for (auto& x : q) s += x.weight()*f(dm::toP(x.point())); return s; }
} // namespace pl
