// G01: measures, diameters, extents, barycenters and bounding boxes are the exact geometric quantities.
#include "topo.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop;

static void rescale(Ctx& c, ref::Mesh& m) { if (c.chance(50)) { double s = std::pow(10.0, 5*c.sym()); for (auto& p : m.pts) p = s*p; c.label("rescaled"); } }
static std::vector<P> scan(const ref::Mesh& m, const Loop& l) { return ref::loop_pts(m, l); }

template<typename M, typename E> static void check_elem(Ctx& c, const M& msh, const E& e, const std::vector<P>& v, double meas, P bar, double shift, const std::string& what, size_t dim_e) {
    double h = ref::diameter(v); constexpr size_t D = M::dimension;
    c.close(diameter(msh, e), h, 1e-13, h, "diameter", what);
    // Heron-type formulas on (nearly) aligned vertices are accurate to the square root of the precision
    c.close(measure(msh, e), meas, D == 3 && dim_e == 2 && v.size() > 4 ? 1e-7 : 1e-10, std::pow(h, dim_e), "measure", what);
    P b = dm::toP(barycenter(msh, e)); for (size_t k = 0; k < D; k++) c.close(b[k], bar[k], 1e-10, h + shift, "barycenter", cat(what, " axis ", k));
    P lo = v[0], hi = v[0]; for (auto& p : v) for (size_t k = 0; k < D; k++) { lo[k] = std::min(lo[k], p[k]); hi[k] = std::max(hi[k], p[k]); }
    auto d = diameters(msh, e); auto bb = bb_barycenter(msh, e); auto box = diameter_boundingbox(msh, e);
    for (size_t k = 0; k < D; k++) {
        c.close(d[k], hi[k]-lo[k], 1e-13, h + shift, "diameters", what);
        c.close(bb[k], 0.5*(lo[k]+hi[k]), 1e-13, h + shift, "bb_barycenter", what);
        c.close(box[k], hi[k]-lo[k], 1e-13, h + shift, "diameter_boundingbox", what);
    }
    // extents along a rotated frame
    if constexpr (D >= 2) {
        double a = 2*M_PI*c.unit(); static_matrix<double, D, D> Q = static_matrix<double, D, D>::Identity();
        size_t i = D == 3 ? c.draw(2) : 0, j = D - 1; if (i == j) i = 0; Q(i,i) = Q(j,j) = std::cos(a); Q(i,j) = -std::sin(a); Q(j,i) = std::sin(a);
        auto rb = diameter_boundingbox(msh, e, Q);
        for (size_t k = 0; k < D; k++) { double l = 1e300, u = -1e300; for (auto& p : v) { double s = 0; for (size_t q = 0; q < D; q++) s += Q(q,k)*p[q]; l = std::min(l, s); u = std::max(u, s); }
            c.close(rb[k], u-l, 1e-13, h + shift, "diameter_boundingbox-rotated", what); }
    }
}

template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, bool centroid) {
    c.note << ref::describe(m); c.label(m.kind); c.nontrivial();
    double total = 0, hs = 0; size_t i = 0; constexpr size_t D = M::dimension;
    double shift = 0; for (auto& p : m.pts) shift = std::max(shift, ref::norm(p));
    for (auto& cl : msh) {
        size_t k = cm[i]; auto v = scan(m, ref::cell_verts(m, k)); double meas = ref::measure(m, k); total += meas;
        P bar = ref::mean(v);
        if (centroid) for (int a = 0; a < (int)D; a++) bar[a] = ref::int_cell(m, k, 1, [&](P p) { return p[a]; }) / meas;
        check_elem(c, msh, cl, v, meas, bar, shift, cat("cell ", i), D); hs += ref::diameter(v);
        double peri = 0, want = 0;
        for (auto& fc : faces(msh, cl)) { std::vector<P> w; for (auto& p : points(msh, fc)) w.push_back(dm::toP(p)); double mf = D == 2 ? ref::norm(w[1]-w[0]) : ref::area(w);
            check_elem(c, msh, fc, w, mf, ref::mean(w), shift, cat("cell ", i, " face ", offset(msh, fc)), D-1); peri += measure(msh, fc); want += mf; }
        c.close(peri, want, D == 3 ? 1e-7 : 1e-10, want, "perimeter");
        i++;
    }
    double got = 0; for (auto& cl : msh) got += measure(msh, cl);
    c.close(got, total, 1e-10, total, "total-measure"); c.close(average_diameter(msh), hs/m.ncells(), 1e-12, hs/m.ncells(), "average_diameter");
}
PROP("polygons", 30000, 300000) { auto m = ref::gen_poly2d(c, 3, ref::ANY); rescale(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, true); }
PROP("single-polygon", 30000, 300000) { auto m = ref::gen_polygon(c, 3, 12, c.draw(2)); if (c.draw(2)) ref::permute(c, m); rescale(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, true); }
PROP("triangles", 20000, 300000) { auto m = ref::gen_tri2d(c, 3); rescale(c, m); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run(c, m, msh, cm, false);
    size_t i = 0; for (auto& cl : msh) { auto p = points(msh, cl); P a = dm::toP(p[0]), b = dm::toP(p[1]), d = dm::toP(p[2]); double s = ref::cross(b-a, d-a)[2]/2, h = ref::diameter({a,b,d});
        c.close(measure(msh, cl, true), s, 1e-10, h*h, "signed-measure", cat("cell ", i++)); } }
PROP("rectangles", 10000, 100000) { auto m = ref::gen_rect2d(c, 3); rescale(c, m); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run(c, m, msh, cm, false); }
PROP("polyhedra", 15000, 120000) { auto m = ref::gen_poly3d(c, 2); rescale(c, m); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run(c, m, msh, cm, false); }
PROP("tetrahedra", 15000, 120000) { auto m = ref::gen_tet3d(c, 2); rescale(c, m); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run(c, m, msh, cm, false);
    for (auto& cl : msh) { auto p = points(msh, cl); P a = dm::toP(p[0]); P u = dm::toP(p[1])-a, v = dm::toP(p[2])-a, w = dm::toP(p[3])-a; double h = std::max({ref::norm(u), ref::norm(v), ref::norm(w)});
        c.close(measure(msh, cl, true), ref::dot(u, ref::cross(v, w))/6, 1e-10, h*h*h, "signed-measure"); } }
PROP("boxes", 10000, 100000) { auto m = ref::gen_hex3d(c, 2); rescale(c, m); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run(c, m, msh, cm, false); }
PROP("segments", 5000, 50000) {
    std::vector<double> x{3*c.sym()}; size_t n = c.size(1, 8); for (size_t i = 0; i < n; i++) x.push_back(x.back() + 0.1 + c.unit());
    auto msh = dm::make_g1(x); c.nontrivial(); c.note << n << " segments"; size_t i = 0;
    for (auto& cl : msh) { c.close(measure(msh, cl), x[i+1]-x[i], 1e-14, 10, "measure"); c.close(diameter(msh, cl), x[i+1]-x[i], 1e-14, 10, "diameter"); c.close(barycenter(msh, cl).x(), 0.5*(x[i+1]+x[i]), 1e-14, 10, "barycenter");
        for (auto& fc : faces(msh, cl)) { c.check(measure(msh, fc) == 1 && diameter(msh, fc) == 1, "point-measure"); } i++; }
}
// exact arithmetic: areas and volumes of simplices with rational coordinates
PROP("rational-simplices", 10000, 100000) {
    using Q = rational<long>; auto r = [&] { return Q(c.range(-6, 6), c.range(1, 5)); }; auto dv = [](Q q) { return double(q.num()) / double(q.den()); };
    c.nontrivial(); c.note << "rational";
    { simplicial_mesh<Q,2> m; auto st = m.backend_storage(); std::vector<P> v; for (int i = 0; i < 3; i++) { Q x = r(), y = r(); st->points.push_back(point<Q,2>(x, y)); v.push_back({dv(x), dv(y), 0}); }
      st->surfaces.push_back(simplicial_element<2,0>({point_identifier<2>(0), point_identifier<2>(1), point_identifier<2>(2)}));
      double s = ref::cross(v[1]-v[0], v[2]-v[0])[2]/2; c.close(dv(measure(m, m[0])), std::fabs(s), 1e-12, 10, "rational-area"); c.close(dv(measure(m, m[0], true)), s, 1e-12, 10, "rational-signed-area"); }
    { simplicial_mesh<Q,3> m; auto st = m.backend_storage(); std::vector<P> v; auto q = [&] { return Q(c.range(-6, 6), c.range(1, 3)); };
      for (int i = 0; i < 4; i++) { Q x = q(), y = q(), z = q(); st->points.push_back(point<Q,3>(x, y, z)); v.push_back({dv(x), dv(y), dv(z)}); }
      st->volumes.push_back(simplicial_element<3,0>({point_identifier<3>(0), point_identifier<3>(1), point_identifier<3>(2), point_identifier<3>(3)}));
      double s = ref::dot(v[1]-v[0], ref::cross(v[2]-v[0], v[3]-v[0]))/6; c.close(dv(measure(m, m[0])), std::fabs(s), 1e-12, 100, "rational-volume"); c.close(dv(measure(m, m[0], true)), s, 1e-12, 100, "rational-signed-volume"); }
}
