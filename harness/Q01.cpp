// Q01: cell quadratures integrate every polynomial of the requested degree exactly.
#include "topo.hpp"
#include "poly.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop;

template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int dmax, int kcap, double tol) {
    constexpr size_t D = M::dimension; c.note << ref::describe(m); c.label(m.kind); size_t i = 0; int deg = (int)c.range(0, dmax); c.note << ", degree " << deg;
    for (auto& cl : msh) {
        size_t q = cm[i++]; auto v = ref::loop_pts(m, ref::cell_verts(m, q)); double V = ref::measure(m, q), h = ref::diameter(v); bool convex = D == 3 || ref::is_convex(m, m.poly[q], 1e-9);
        int lim = 1000; if (std::is_same_v<M, dm::C2> || std::is_same_v<M, dm::C3>) lim = 39; if (std::is_same_v<M, dm::S3>) lim = 15; if (std::is_same_v<M, dm::G2> && v.size() == 4) lim = -1;   // quadrilaterals: some limit between 38 and 39, none when not convex
        bool refused = false; decltype(integrate(msh, cl, deg)) qps; try { qps = integrate(msh, cl, deg); } catch (const std::exception&) { refused = true; }
        if (lim >= 0) c.check(refused == (deg > lim), "refusal", cat("cell ", i-1, " with ", v.size(), " vertices, degree ", deg, refused ? " refused" : " answered")); else c.check(!refused || deg > 38, "refusal", cat("quadrilateral, degree ", deg));
        if (refused) continue; c.nontrivial();
        int k = (int)c.range(0, std::min(deg, kcap)); if (c.draw(2)) k = std::min(deg, kcap); auto f = pl::gen_poly(c, k, v, D); std::string w = cat("cell ", i-1, " with ", v.size(), " vertices, power ", k, " of degree ", deg);
        double s = 0; for (auto& x : qps) s += x.weight(); c.close(s, V, tol, V, "weights-sum", w);
        double A = std::pow(h, D); c.close(pl::sum(qps, f), ref::int_cell(m, q, k, f), tol, convex ? V*10 : A, "exactness", w);
        if constexpr (D == 2) { double u = 0; for (auto& x : qps) { c.check(x.weight() >= 0, "negative-weight", w); P p = dm::toP(x.point()); if (convex) for (size_t j = 0; j < v.size(); j++) { P a = v[j], b = v[(j+1)%v.size()]; u = std::max(u, ((b[1]-a[1])*(p[0]-a[0]) - (b[0]-a[0])*(p[1]-a[1]))/ref::norm(b-a)); } } c.check(u <= 1e-12*h, "point-outside", w); }
    }
}
PROP("polygons", 36000, 1000000) { auto m = ref::gen_poly2d(c, 2, ref::ANY); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 16, 16, 1e-11); }
PROP("single-polygon", 60000, 2000000) { auto m = ref::gen_polygon(c, 3, 10, c.draw(2)); if (c.draw(2)) ref::permute(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 43, 24, 1e-11); }
PROP("quadrilaterals", 60000, 2000000) { auto m = ref::gen_polygon(c, 4, 4, c.draw(3)); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 43, 43, 1e-11); }
PROP("triangles", 60000, 1500000) { auto m = ref::gen_tri2d(c, 2); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run(c, m, msh, cm, 42, 24, 1e-11); }
PROP("rectangles", 60000, 1500000) { auto m = ref::gen_rect2d(c, 2); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run(c, m, msh, cm, 44, 44, 1e-11); }
PROP("polyhedra", 9000, 400000) { auto m = ref::gen_poly3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run(c, m, msh, cm, c.thorough ? 10 : 7, 10, 1e-9); }
PROP("tetrahedra", 9000, 400000) { auto m = ref::gen_tet3d(c, 1); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run(c, m, msh, cm, 20, 15, 1e-11); }
PROP("boxes", 9000, 300000) { auto m = ref::gen_hex3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run(c, m, msh, cm, c.chance(10) ? 43 : 14, 14, 1e-11); }
PROP("segments", 30000, 2000000) {
    std::vector<double> x{3*c.sym()}; size_t n = c.size(1, 6); for (size_t i = 0; i < n; i++) x.push_back(x.back() + 0.1 + c.unit()); auto msh = dm::make_g1(x); c.nontrivial(); int deg = (int)c.range(0, 30); c.note << n << " segments, degree " << deg; size_t i = 0;
    for (auto& cl : msh) { P a{x[i],0,0}, b{x[i+1],0,0}; auto f = pl::gen_poly(c, (int)c.range(0, deg), {a, b}, 1); auto q = integrate(msh, cl, deg); double s = 0; for (auto& y : q) { s += y.weight(); c.check(y.point().x() >= x[i] && y.point().x() <= x[i+1], "point-outside"); } c.close(s, x[i+1]-x[i], 1e-12, 1, "weights-sum"); c.close(pl::sum(q, f), ref::int_segment(a, b, deg, f), 1e-11, x[i+1]-x[i], "exactness", cat("degree ", deg)); i++; }
}
