// G02: outward normals are unit, orthogonal to the face, consistent between neighbours, close the cell and
// satisfy the divergence theorem with the library's own quadratures.
#include "topo.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop;

template<typename M> static void run(Ctx& c, const ref::Mesh& m, const M& msh, const std::vector<size_t>& cm, int kmax) {
    constexpr size_t D = M::dimension; c.note << ref::describe(m); c.label(m.kind); c.nontrivial();
    std::map<size_t, std::vector<P>> seen; int k = (int)c.range(0, kmax); size_t comp = c.draw(D); P d{c.sym(), c.sym(), D == 3 ? c.sym() : 0};
    size_t i = 0;
    for (auto& cl : msh) {
        size_t q = cm[i]; auto v = ref::loop_pts(m, ref::cell_verts(m, q)); P o = ref::mean(v); double h = ref::diameter(v);
        // orientation oracle
        std::map<Loop, P> out;
        if constexpr (D == 2) { auto& l = m.poly[q]; for (size_t j = 0; j < l.size(); j++) { size_t a = l[j], b = l[(j+1)%l.size()]; P t = m.pts[b]-m.pts[a]; out[ref::sorted({a,b})] = (1/ref::norm(t)) * P{t[1], -t[0], 0}; } }
        else for (auto f : m.cellfaces[q]) { auto w = ref::loop_pts(m, m.faces[f]); P n = ref::normal(w); if (ref::dot(n, w[0]-o) < 0) n = -1.0*n; out[ref::sorted(m.faces[f])] = n; }
        P sum{0,0,0}; double peri = 0, flux = 0;
        auto f = [&](P x) { return ref::ipow(ref::dot(d, x-o)/h, k); };
        for (auto& fc : faces(msh, cl)) {
            auto nn = normal(msh, cl, fc); P n{nn[0], nn[1], D == 3 ? nn[D-1] : 0.0}; std::string w = cat("cell ", i, " face ", offset(msh, fc));
            c.close(ref::norm(n), 1, 1e-12, 1, "unit", w);
            auto ps = points(msh, fc); Loop ids; for (auto& x : fc.point_ids()) ids.push_back(size_t(x));
            for (auto& p : ps) c.close(ref::dot(n, dm::toP(p)-dm::toP(ps[0])), 0, 1e-11, h, "orthogonal-to-face", w);
            c.close(ref::norm(n - out.at(ref::sorted(ids))), 0, 1e-9, 1, "outward", w);
            double mf = measure(msh, fc); sum = sum + mf*n; peri += mf;
            auto n2 = normal(msh, fc); P nf{n2[0], n2[1], D == 3 ? n2[D-1] : 0.0}; c.close(std::fabs(ref::dot(nf, n)), 1, 1e-11, 1, "face-normal-not-parallel", w);
            seen[offset(msh, fc)].push_back(n);
            for (auto& qp : integrate(msh, fc, k)) flux += qp.weight() * f(dm::toP(qp.point())) * n[comp];
        }
        c.close(ref::norm(sum), 0, D == 3 ? 1e-7 : 1e-11, peri, "normals-close-the-cell", cat("cell ", i));
        double vol = 0; if (k > 0) for (auto& qp : integrate(msh, cl, k-1)) vol += qp.weight() * k * d[comp]/h * ref::ipow(ref::dot(d, dm::toP(qp.point())-o)/h, k-1);
        double scale = peri; 
        c.close(flux, vol, D == 3 ? 1e-7 : 1e-10, scale, "divergence-theorem", cat("cell ", i, " degree ", k));
        double exact = k == 0 ? 0 : ref::int_cell(m, q, k-1, [&](P x) { return k * d[comp]/h * ref::ipow(ref::dot(d, x-o)/h, k-1); });
        c.close(flux, exact, D == 3 ? 1e-7 : 1e-10, scale, "flux", cat("cell ", i, " degree ", k));
        i++;
    }
    for (auto& [f, n] : seen) if (n.size() == 2) c.close(ref::norm(n[0]+n[1]), 0, 1e-11, 1, "neighbours-opposite", cat("face ", f));
}
PROP("polygons", 100000, 4000000) { auto m = ref::gen_poly2d(c, 3, ref::ANY); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 6); }
PROP("single-polygon", 80000, 4000000) { auto m = ref::gen_polygon(c, 3, 10, c.draw(2)); if (c.draw(2)) ref::permute(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm, 8); }
PROP("triangles", 80000, 3200000) { auto m = ref::gen_tri2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run(c, m, msh, cm, 8); }
PROP("rectangles", 60000, 2400000) { auto m = ref::gen_rect2d(c, 3); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run(c, m, msh, cm, 8); }
PROP("polyhedra", 40000, 1600000) { auto m = ref::gen_poly3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run(c, m, msh, cm, 5); }
PROP("tetrahedra", 30000, 1200000) { auto m = ref::gen_tet3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run(c, m, msh, cm, 5); }
PROP("boxes", 30000, 1200000) { auto m = ref::gen_hex3d(c, 2); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run(c, m, msh, cm, 6); }
PROP("segments", 5000, 200000) {
    std::vector<double> x{3*c.sym()}; size_t n = c.size(1, 8); for (size_t i = 0; i < n; i++) x.push_back(x.back() + 0.1 + c.unit());
    auto msh = dm::make_g1(x); c.nontrivial(); c.note << n << " segments"; size_t i = 0;
    for (auto& cl : msh) { for (auto& fc : faces(msh, cl)) { double xf = points(msh, fc)[0].x(), nr = normal(msh, cl, fc); c.check(nr == (xf > 0.5*(x[i]+x[i+1]) ? 1 : -1), "outward-1d"); } i++; }
}
