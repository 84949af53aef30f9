// Q02: face quadratures integrate every polynomial of the requested degree exactly and their points lie on the face.
#include "topo.hpp"
#include "poly.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop;

template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, int dmax, int kcap) {
    constexpr size_t D = M::dimension; c.note << ref::describe(m); c.label(m.kind); size_t i = 0; int deg = (int)c.range(0, dmax); c.note << ", degree " << deg; size_t nf = msh.faces_size(), pick = c.draw(nf), done = 0;
    // the loops of the reference mesh, by vertex set: the oracle does not depend on the order of the points of a face
    std::map<Loop, Loop> loops; if (D == 3) for (auto& f : m.faces) loops[ref::sorted(f)] = f;
    for (auto itor = msh.faces_begin(); itor != msh.faces_end(); itor++, i++) {
        if (nf > 12 && i != pick && (i + pick) % 5) continue; auto fc = *itor; Loop ids; for (auto& x : fc.point_ids()) ids.push_back(size_t(x));
        auto v = ref::loop_pts(m, D == 3 ? loops.at(ref::sorted(ids)) : ids); double h = ref::diameter(v), A = D == 3 ? ref::area(v) : h;
        int lim = (D == 2 || std::is_same_v<M, dm::C3>) ? 39 : 1000; bool refused = false; decltype(integrate(msh, fc, deg)) qps; try { qps = integrate(msh, fc, deg); } catch (const std::exception&) { refused = true; }
        std::string w = cat("face ", i, " with ", v.size(), " vertices, degree ", deg); c.check(refused == (deg > lim), "refusal", cat(w, refused ? " refused" : " answered")); if (refused) continue; c.nontrivial(); done++;
        int k = (int)c.range(0, std::min(deg, kcap)); if (c.draw(2)) k = std::min(deg, kcap); auto f = pl::gen_poly(c, k, v, D); w += cat(", power ", k); double tol = D == 3 && v.size() > 4 ? 1e-7 : 1e-11;
        double s = 0; for (auto& x : qps) s += x.weight(); c.close(s, A, tol, A, "weights-sum", w); c.close(pl::sum(qps, f), D == 3 ? ref::int_polygon(v, k, f) : ref::int_segment(v[0], v[1], k, f), tol, 10*A, "exactness", w);
        for (auto& x : qps) { P p = dm::toP(x.point()); c.check(x.weight() >= 0, "negative-weight", w); if (D == 2) { double t = ref::dot(p-v[0], v[1]-v[0])/(h*h); c.close(ref::norm(p - v[0] - t*(v[1]-v[0])), 0, 1e-12, h + ref::norm(p), "point-off-face", w); c.check(t > 0 && t < 1, "point-outside", w); }
            else { P n = ref::normal(v); c.close(ref::dot(n, p-v[0]), 0, 1e-12, h + ref::norm(p), "point-off-face", w); for (size_t j = 0; j < v.size(); j++) { P e = v[(j+1)%v.size()]-v[j]; c.check(ref::dot(ref::cross(n, e), p-v[j]) > -1e-10*h*ref::norm(e), "point-outside", w); } } }
    }
}
PROP("polygons", 180000, 6000000) { auto m = ref::gen_poly2d(c, 3, ref::ANY); auto msh = dm::make_g2(m); run(c, m, msh, 45, 45); }
PROP("triangles", 90000, 3000000) { auto m = ref::gen_tri2d(c, 3); auto msh = dm::make_s2(m); run(c, m, msh, 45, 45); }
PROP("rectangles", 90000, 3000000) { auto m = ref::gen_rect2d(c, 3); auto msh = dm::make_c2(m); run(c, m, msh, 45, 45); }
PROP("polyhedra", 30000, 900000) { auto m = ref::gen_poly3d(c, 2); auto msh = dm::make_g3(m); run(c, m, msh, c.chance(10) ? 40 : 20, 20); }
PROP("tetrahedra", 30000, 900000) { auto m = ref::gen_tet3d(c, 2); auto msh = dm::make_s3(m); run(c, m, msh, c.chance(10) ? 40 : 20, 20); }
PROP("boxes", 30000, 900000) { auto m = ref::gen_hex3d(c, 2); auto msh = dm::make_c3(m); run(c, m, msh, c.chance(10) ? 45 : 20, 30); }
PROP("segments", 15000, 300000) {
    std::vector<double> x{3*c.sym()}; size_t n = c.size(1, 6); for (size_t i = 0; i < n; i++) x.push_back(x.back() + 0.1 + c.unit()); auto msh = dm::make_g1(x); c.nontrivial(); int deg = (int)c.range(0, 30); c.note << n << " segments, degree " << deg;
    size_t i = 0; for (auto itor = msh.faces_begin(); itor != msh.faces_end(); itor++, i++) { auto q = integrate(msh, *itor, deg); double s = 0; for (auto& y : q) { s += y.weight(); c.check(y.point().x() == x[i], "point"); } c.check(s == 1, "weight"); }
}
