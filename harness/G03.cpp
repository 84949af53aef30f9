// G03: decompositions cover each element exactly once; point location; inertia axes.
#include "topo.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/geometry/geometry_generic_triangulations.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop;
using Tri = std::array<P,3>; using Tet = std::array<P,4>;

static double orient(P a, P b, P p) { return (b[0]-a[0])*(p[1]-a[1]) - (b[1]-a[1])*(p[0]-a[0]); }
static double vol6(P a, P b, P d, P e) { return ref::dot(ref::cross(b-a, d-a), e-a); }
// 1 inside, 0 outside, -1 too close to the boundary to decide
static int in_tri(const Tri& t, P p, double eps) {
    double A = orient(t[0], t[1], t[2]); int s = A < 0 ? -1 : 1; int r = 1;
    for (int i = 0; i < 3; i++) { P a = t[i], b = t[(i+1)%3]; double l = ref::norm(b-a), o = s*orient(a, b, p); if (o < -eps*l) return 0; if (o <= eps*l) r = -1; } return r; }
static int in_polygon(const std::vector<P>& v, P p, double eps) {
    int w = 0; size_t n = v.size();
    for (size_t i = 0; i < n; i++) { P a = v[i], b = v[(i+1)%n]; double l2 = ref::dot(b-a, b-a), t = std::clamp(ref::dot(p-a, b-a)/l2, 0.0, 1.0); if (ref::norm(p - (a + t*(b-a))) <= eps) return -1;
        if ((a[1] > p[1]) != (b[1] > p[1])) { double x = a[0] + (p[1]-a[1])/(b[1]-a[1])*(b[0]-a[0]); if (x > p[0]) w ^= 1; } }
    return w; }
static int in_convex3(const ref::Mesh& m, size_t q, P p, double eps) {
    P o = ref::mean(ref::loop_pts(m, ref::cell_verts(m, q))); int r = 1;
    for (auto f : m.cellfaces[q]) { auto w = ref::loop_pts(m, m.faces[f]); P n = ref::normal(w); if (ref::dot(n, w[0]-o) < 0) n = -1.0*n; double d = ref::dot(n, p-w[0]); if (d > eps) return 0; if (d >= -eps) r = -1; }
    return r; }
static int in_tet(const Tet& t, P p, double eps) {
    double V = vol6(t[0], t[1], t[2], t[3]); int s = V < 0 ? -1 : 1, r = 1;
    static const int F[4][4] = {{1,2,3,0},{0,3,2,1},{0,1,3,2},{0,2,1,3}};
    for (auto& f : F) { double a = ref::norm(ref::cross(t[f[1]]-t[f[0]], t[f[2]]-t[f[0]])); double v = s*vol6(t[f[0]], t[f[1]], t[f[2]], p); double w = s*vol6(t[f[0]], t[f[1]], t[f[2]], t[f[3]]); if (w < 0) v = -v; if (v < -eps*a) return 0; if (v <= eps*a) r = -1; }
    return r; }

static void cover2(Ctx& c, const std::vector<Tri>& ts, const std::vector<P>& v, bool own_vertices, const std::string& what) {
    double area = std::fabs(ref::area(v)), h = ref::diameter(v), s = 0;
    for (auto& t : ts) { s += std::fabs(orient(t[0], t[1], t[2]))/2;
        for (auto& p : t) { bool own = false; for (auto& w : v) own |= ref::norm(p-w) <= 1e-13*(h+ref::norm(p)); if (own_vertices) c.check(own, cat("foreign-vertex-", what)); else if (!own) c.check(in_polygon(v, p, 1e-12*h) != 0, cat("vertex-outside-", what)); } }
    c.close(s, area, 1e-11, h*h, cat("area-", what));
    P lo = v[0], hi = v[0]; for (auto& p : v) for (int k = 0; k < 2; k++) { lo[k] = std::min(lo[k], p[k]); hi[k] = std::max(hi[k], p[k]); }
    for (int k = 0; k < 3; k++) { P p{lo[0]+(hi[0]-lo[0])*c.unit(), lo[1]+(hi[1]-lo[1])*c.unit(), 0}; int in = in_polygon(v, p, 1e-9*h), n = 0; if (in < 0) continue;
        for (auto& t : ts) { if (std::fabs(orient(t[0],t[1],t[2])) < 1e-12*h*h) continue; int r = in_tri(t, p, 1e-9*h); if (r < 0) { n = -100; break; } n += r; }
        if (n >= 0) c.check(n == in, cat("cover-", what), cat("point (", p[0], ",", p[1], ") is in ", n, " triangles, expected ", in)); }
}
template<typename R> static Tri tri_of(const R& r) { auto p = r.points(); return {dm::toP(p[0]), dm::toP(p[1]), dm::toP(p[2])}; }
template<typename R> static Tet tet_of(const R& r) { auto p = r.points(); return {dm::toP(p[0]), dm::toP(p[1]), dm::toP(p[2]), dm::toP(p[3])}; }

template<typename M, typename E> static void axes(Ctx& c, const ref::Mesh& m, const M& msh, const E& cl, size_t q) {
    constexpr size_t D = M::dimension; P o = dm::toP(barycenter(msh, cl)); Eigen::Matrix<double,D,D> I;
    auto v = ref::loop_pts(m, ref::cell_verts(m, q)); double h = ref::diameter(v);
    for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) I(i,j) = ref::int_cell(m, q, 2, [&](P p) { return (p[i]-o[i])*(p[j]-o[j]); });
    auto Q = inertia_axes(msh, cl); Eigen::Matrix<double,D,D> E1 = Q.transpose()*Q - Eigen::Matrix<double,D,D>::Identity();
    c.close(E1.norm(), 0, 1e-12, 1, "inertia-axes-orthonormal"); Eigen::Matrix<double,D,D> T = Q.transpose()*I*Q; T.diagonal().setZero();
    c.close(T.norm(), 0, 1e-9, I.norm(), "inertia-axes-diagonalise");
    auto S = scaled_inertia_axes(msh, cl); Eigen::Matrix<double,D,D> G = S.transpose()*S; Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double,D,D>> es(I);
    T = G; T.diagonal().setZero(); c.close(T.norm(), 0, 1e-9, G.norm(), "scaled-axes-orthogonal");
    // the element has the same second moment along each scaled axis
    Eigen::Matrix<double,D,D> J = S.transpose()*I*S; double emax = es.eigenvalues()(D-1), want = 4/(h*h)*emax; J -= want*Eigen::Matrix<double,D,D>::Identity();
    c.close(J.norm(), 0, 1e-7, want*emax/es.eigenvalues()(0), "scaled-axes-equalise");
}

template<typename M> static void run2(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm) {
    c.note << ref::describe(m); c.label(m.kind); c.nontrivial(); size_t i = 0;
    for (auto& cl : msh) {
        auto v = ref::loop_pts(m, ref::cell_verts(m, cm[i])); double h = ref::diameter(v);
        if constexpr (std::is_same_v<M, dm::G2>) {
            auto get = [](auto r) { std::vector<Tri> t; for (auto& x : r) t.push_back({dm::toP(x.p0), dm::toP(x.p1), dm::toP(x.p2)}); return t; };
            auto r1 = triangulate_polygon(msh, cl); cover2(c, get(r1), v, false, "polygon"); cover2(c, get(triangulate_nonconvex_polygon(msh, cl)), v, true, "nonconvex");
            for (auto& t : r1) { P a = dm::toP(t.p0), b = dm::toP(t.p1), d = dm::toP(t.p2); c.close(measure(t), std::fabs(orient(a,b,d))/2, 1e-7, h*h, "triangle-measure"); c.close(ref::norm(dm::toP(barycenter(t)) - ref::mean({a,b,d})), 0, 1e-12, h+ref::norm(a), "triangle-barycenter"); }
            bool cv = is_convex(msh, cl); auto l = m.poly[cm[i]];
            if (ref::is_convex(m, l, 1e-9)) c.check(cv, "is-convex-false-negative"); if (!ref::is_convex(m, l, -1e-9)) c.check(!cv, "is-convex-false-positive");
            if (cv) cover2(c, get(triangulate_convex_polygon(msh, cl)), v, false, "convex");
        }
        if constexpr (!std::is_same_v<M, dm::C2>) {
            std::vector<Tri> ts; for (auto& r : split_in_raw_triangles(msh, cl)) { ts.push_back(tri_of(r)); c.close(measure(r), std::fabs(orient(ts.back()[0], ts.back()[1], ts.back()[2]))/2, 1e-7, h*h, "simplex-measure");
                c.close(ref::norm(dm::toP(barycenter(r)) - ref::mean({ts.back()[0],ts.back()[1],ts.back()[2]})), 0, 1e-12, h+ref::norm(v[0]), "simplex-barycenter"); }
            cover2(c, ts, v, true, "raw");
            std::vector<Tri> ti; auto st = msh.backend_storage(); for (auto& r : split_in_raw_triangles_index(msh, cl)) ti.push_back({dm::toP(st->points.at(r[0])), dm::toP(st->points.at(r[1])), dm::toP(st->points.at(r[2]))});
            cover2(c, ti, v, true, "raw-index");
        }
        axes(c, m, msh, cl, cm[i]);
        i++;
    }
}
PROP("polygons", 16000, 1000000) { auto m = ref::gen_poly2d(c, 3, ref::ANY); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run2(c, m, msh, cm); }
PROP("single-polygon", 80000, 6000000) { auto m = ref::gen_polygon(c, 3, 12, c.draw(2)); if (c.draw(2)) ref::permute(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run2(c, m, msh, cm); }
PROP("triangles", 20000, 1000000) { auto m = ref::gen_tri2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run2(c, m, msh, cm); }
PROP("rectangles", 20000, 1000000) { auto m = ref::gen_rect2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run2(c, m, msh, cm); }

template<typename M> static void run3(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm) {
    c.note << ref::describe(m); c.label(m.kind); c.nontrivial(); size_t i = 0;
    for (auto& cl : msh) {
        size_t q = cm[i]; auto v = ref::loop_pts(m, ref::cell_verts(m, q)); double h = ref::diameter(v), s = 0; std::vector<Tet> ts;
        for (auto& r : split_in_raw_tetrahedra(msh, cl)) { Tet t = tet_of(r); ts.push_back(t); double V = std::fabs(vol6(t[0],t[1],t[2],t[3]))/6; s += V; c.close(measure(r), V, 1e-9, h*h*h, "simplex-measure"); c.close(ref::norm(dm::toP(barycenter(r)) - ref::mean({t[0],t[1],t[2],t[3]})), 0, 1e-12, h+ref::norm(v[0]), "simplex-barycenter");
            for (auto& p : t) c.check(in_convex3(m, q, p, 1e-9*h) != 0, "vertex-outside-tetrahedra");
            double a = c.unit(), b = (1-a)*c.unit(), d = (1-a-b)*c.unit(); P want = t[0] + a*(t[1]-t[0]) + b*(t[2]-t[0]) + d*(t[3]-t[0]); P got = dm::toP(map_from_reference(r, point<double,3>(a, b, d)));
            // the map is affine and onto the simplex (the order of the vertices is free)
            (void)want; int in = in_tet(t, got, 1e-9*h); if (V > 1e-9*h*h*h) c.check(in != 0, "map-from-reference-outside"); }
        c.close(s, ref::measure(m, q), 1e-11, h*h*h, "volume-tetrahedra");
        P lo = v[0], hi = v[0]; for (auto& p : v) for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], p[k]); hi[k] = std::max(hi[k], p[k]); }
        for (int k = 0; k < 3; k++) { P p; for (int d = 0; d < 3; d++) p[d] = lo[d]+(hi[d]-lo[d])*c.unit(); int in = in_convex3(m, q, p, 1e-9*h), n = 0; if (in < 0) continue;
            for (auto& t : ts) { if (std::fabs(vol6(t[0],t[1],t[2],t[3])) < 1e-12*h*h*h) continue; int r = in_tet(t, p, 1e-9*h); if (r < 0) { n = -1000; break; } n += r; }
            if (n >= 0) c.check(n == in, "cover-tetrahedra", cat("cell ", i, ": point in ", n, " tetrahedra, expected ", in)); }
        for (auto& fc : faces(msh, cl)) {
            std::vector<P> w; for (auto& p : points(msh, fc)) w.push_back(dm::toP(p)); double a = 0; P n{0,0,0}; for (size_t j = 1; j+1 < w.size(); j++) n = n + ref::cross(w[j]-w[0], w[j+1]-w[0]);
            P sum{0,0,0}; for (auto& r : split_in_raw_triangles(msh, fc)) { Tri t = tri_of(r); P x = ref::cross(t[1]-t[0], t[2]-t[0]); a += ref::norm(x)/2; sum = sum + x; c.close(measure(r), ref::norm(x)/2, 1e-7, h*h, "face-simplex-measure");
                for (auto& p : t) c.close(ref::dot(n, p-w[0]), 0, 1e-10, h*ref::norm(n), "face-triangle-off-plane");
                double u = c.unit(), z = (1-u)*c.unit(); P g = dm::toP(map_from_reference(point<double,2>(u, z), r)); c.close(ref::norm(ref::cross(t[1]-t[0], g-t[0])) + ref::norm(ref::cross(t[2]-t[1], g-t[1])) + ref::norm(ref::cross(t[0]-t[2], g-t[2])), ref::norm(x), 1e-10, h*h, "face-map-from-reference-outside"); }
            c.close(a, ref::norm(n)/2, 1e-10, h*h, "face-area-triangles"); c.close(ref::norm(sum - n), 0, 1e-10, h*h, "face-triangles-orientation"); }
        axes(c, m, msh, cl, q);
        i++;
    }
}
PROP("polyhedra", 16000, 800000) { auto m = ref::gen_poly3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run3(c, m, msh, cm); }
PROP("tetrahedra", 8000, 400000) { auto m = ref::gen_tet3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run3(c, m, msh, cm); }
PROP("boxes", 8000, 400000) { auto m = ref::gen_hex3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run3(c, m, msh, cm); }

// ---- point location
template<typename M> static void locate(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm) {
    c.note << ref::describe(m); c.label(m.kind); constexpr size_t D = M::dimension; P lo = m.pts[0], hi = lo; for (auto& p : m.pts) for (size_t k = 0; k < D; k++) { lo[k] = std::min(lo[k], p[k]); hi[k] = std::max(hi[k], p[k]); }
    double L = ref::norm(hi-lo);
    for (int t = 0; t < 6; t++) { P p{0,0,0}; int how = (int)c.draw(3); size_t q0 = c.draw(m.ncells()); auto v = ref::loop_pts(m, ref::cell_verts(m, q0)); P o = ref::mean(v);
        if (how == 0) for (size_t k = 0; k < D; k++) p[k] = lo[k] + (hi[k]-lo[k])*(1.2*c.unit()-0.1);
        else if (how == 1) p = o + (2*c.unit())*(v[c.draw(v.size())]-o);
        else { size_t a = c.draw(v.size()); double s = 1 + (c.draw(2) ? 1 : -1)*std::pow(10.0, -1-5*c.unit()); P e = v[a] + c.unit()*(v[c.draw(v.size())]-v[a]); p = o + s*(e-o); }
        size_t i = 0, found = 0; bool skip = false;
        for (auto& cl : msh) { int in; if constexpr (D == 2) in = in_polygon(ref::loop_pts(m, ref::cell_verts(m, cm[i])), p, 1e-9*L); else in = in_convex3(m, cm[i], p, 1e-9*L);
            if (in < 0) skip = true; else { bool r = is_inside(msh, cl, dm::toD<M>(p)); c.check(r == (in == 1), "is-inside", cat("cell ", i, " point (", p[0], ",", p[1], ",", p[2], "): answered ", r, " expected ", in)); if (in == 1) { found++; c.nontrivial(); } } i++; }
        if (!skip) c.check(found <= 1, "oracle"); }
}
PROP("locate-polygon", 20000, 1000000) { auto m = ref::gen_poly2d(c, 3, ref::CONVEX); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); for (auto& l : m.poly) if (!ref::is_convex(m, l, 0)) throw pbt::Discard(); locate(c, m, msh, cm); }
PROP("locate-convex", 40000, 2000000) { auto m = ref::gen_polygon(c, 3, 12, true); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); locate(c, m, msh, cm); }
PROP("locate-triangle", 20000, 1000000) { auto m = ref::gen_tri2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); locate(c, m, msh, cm); }
PROP("locate-rectangle", 20000, 1000000) { auto m = ref::gen_rect2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); locate(c, m, msh, cm); }
PROP("locate-tetrahedron", 12000, 600000) { auto m = ref::gen_tet3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); locate(c, m, msh, cm); }
// closed cells, exact arithmetic: small integer coordinates
PROP("closed-triangle", 20000, 1000000) {
    auto g = [&] { return P{(double)c.range(-4, 4), (double)c.range(-4, 4), 0}; }; ref::Mesh m; m.dim = 2; m.kind = "integer-triangle"; P a = g(), b = g(), d = g(); double A = orient(a, b, d); if (A == 0) throw pbt::Discard(); if (A < 0) std::swap(b, d);
    m.pts = {a, b, d}; m.poly = {{0,1,2}}; m.dom = {0}; c.nontrivial(); auto s2 = dm::make_s2(m); auto g2 = dm::make_g2(m); c.note << ref::describe(m);
    for (int x = -4; x <= 4; x++) for (int y = -4; y <= 4; y++) { P p{(double)x, (double)y, 0}; bool in = orient(a,b,p) * 1.0 >= 0 && orient(m.pts[1],m.pts[2],p) >= 0 && orient(m.pts[2],a,p) >= 0 && orient(a,m.pts[1],p) >= 0;
        point<double,2> pp(x, y); c.check(is_inside(s2, *s2.cells_begin(), pp) == in, "closed-s2", cat("(", x, ",", y, ")")); c.check(is_inside(g2, *g2.cells_begin(), pp) == in, "closed-g2", cat("(", x, ",", y, ")")); }
}
PROP("closed-rectangle", 6000, 300000) {
    double x0 = c.range(-3, 1), y0 = c.range(-3, 1), w = 1 << c.range(0, 2), h = 1 << c.range(0, 2); ref::Mesh m; m.dim = 2; m.kind = "integer-rectangle"; m.pts = {{x0,y0,0},{x0+w,y0,0},{x0+w,y0+h,0},{x0,y0+h,0}}; m.poly = {{0,1,2,3}}; m.dom = {0}; c.nontrivial(); c.note << ref::describe(m);
    auto msh = dm::make_c2(m); auto g2 = dm::make_g2(m); for (double x = -4; x <= 6; x += 0.5) for (double y = -4; y <= 6; y += 0.5) { bool in = x >= x0 && x <= x0+w && y >= y0 && y <= y0+h; point<double,2> p(x, y); c.check(is_inside(msh, *msh.cells_begin(), p) == in, "closed-c2"); c.check(is_inside(g2, *g2.cells_begin(), p) == in, "closed-quad"); }
}
PROP("closed-tetrahedron", 20000, 1000000) {
    auto g = [&] { return P{(double)c.range(-3, 3), (double)c.range(-3, 3), (double)c.range(-3, 3)}; }; ref::Mesh m; m.dim = 3; m.kind = "tet"; m.pts = {g(), g(), g(), g()}; if (vol6(m.pts[0], m.pts[1], m.pts[2], m.pts[3]) == 0) throw pbt::Discard();
    m.verts = {{0,1,2,3}}; ref::tets_to_faces(m); m.dom = {0}; auto msh = dm::make_s3(m); c.nontrivial(); c.note << ref::describe(m);
    Tet t{m.pts[0], m.pts[1], m.pts[2], m.pts[3]}; for (int x = -3; x <= 3; x++) for (int y = -3; y <= 3; y++) for (int z = -3; z <= 3; z++) { P p{(double)x,(double)y,(double)z}; bool in = true; double V = vol6(t[0],t[1],t[2],t[3]); for (int i = 0; i < 4; i++) { Tet u = t; u[i] = p; in &= vol6(u[0],u[1],u[2],u[3])*V >= 0; }
        c.check(is_inside(msh, *msh.cells_begin(), point<double,3>(x, y, z)) == in, "closed-s3", cat("(", x, ",", y, ",", z, ")")); }
}
