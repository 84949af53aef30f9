// M01: built-in meshers and their refinement histories produce valid, conforming, correctly labelled meshes.
#include "topo.hpp"
#include "diskpp/mesh/meshgen.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P;

template<typename M> static size_t side_id(const std::vector<P>& v, bool& found) {
    auto on = [&](int ax, double x) { for (auto& p : v) if (std::fabs(p[ax]-x) > 1e-9) return false; return true; };
    found = true;
    if constexpr (M::dimension == 2) { if (on(1,0)) return 0; if (on(0,1)) return 1; if (on(1,1)) return 2; if (on(0,0)) return 3; }
    else { if (on(2,0)) return 0; if (on(1,0)) return 1; if (on(0,0)) return 2; if (on(2,1)) return 3; if (on(1,1)) return 4; if (on(0,1)) return 5; }
    found = false; return 0;
}

// checks a mesh of [0,1]^d mapped by T; inv maps back to the unit box
template<typename M> static void check_box_mesh(Ctx& c, M& msh, const ref::Affine& inv, double vol) {
    auto r = topo::check(c, msh, true);
    c.close(r.total, vol, 1e-9, vol, "cells-do-not-tile-the-domain");
    topo::check_euler(c, msh);
    topo::check_boundary_queries(c, msh);
    topo::check_neighbours(c, msh, r);
    size_t i = 0; std::map<size_t, double> side;
    for (auto it = msh.faces_begin(); it != msh.faces_end(); it++, i++) {
        std::vector<P> v; for (auto& p : points(msh, *it)) v.push_back(inv(dm::toP(p)));
        bool found; size_t id = side_id<M>(v, found);
        c.check(found == msh.is_boundary(*it), "boundary-face-not-on-box", cat("face ", i));
        if (found) { c.check(msh.boundary_id(*it) == id, "boundary-id-of-side", cat("face ", i, " id ", msh.boundary_id(*it), " side ", id));
            side[id] += M::dimension == 2 ? ref::norm(v[1]-v[0]) : ref::area(v); }
    }
    c.check(side.size() == 2*M::dimension, "missing-side");
    for (auto& [id, s] : side) c.close(s, 1.0, 1e-9, 1, "side-not-covered", cat("side ", id));
    for (auto& cl : msh) msh.domain_info(cl);
    // distinct points
    std::vector<P> pts; for (auto it = msh.points_begin(); it != msh.points_end(); it++) pts.push_back(inv(dm::toP(*it)));
    std::sort(pts.begin(), pts.end()); for (size_t k = 0; k + 1 < pts.size(); k++) c.check(ref::norm(pts[k+1]-pts[k]) > 1e-9, "duplicate-point");
    // neighbours lie on opposite sides of the shared face
    for (size_t f = 0; f < r.owners.size(); f++) if (r.owners[f].size() == 2) {
        auto fc = *std::next(msh.faces_begin(), f); auto fp = points(msh, fc);
        P b0 = dm::toP(barycenter(msh, msh[r.owners[f][0]])), b1 = dm::toP(barycenter(msh, msh[r.owners[f][1]])), p0 = dm::toP(fp[0]), n;
        if constexpr (M::dimension == 2) { P d = dm::toP(fp[1]) - p0; n = {-d[1], d[0], 0}; } else n = ref::cross(dm::toP(fp[1])-p0, dm::toP(fp[2])-p0);
        c.check(ref::dot(n, b0-p0) * ref::dot(n, b1-p0) < 0, "neighbours-on-same-side", cat("face ", f));
    }
}

static ref::Affine inverse(const ref::Affine& T, int dim) {
    Eigen::Matrix3d A; for (int i=0;i<3;i++) for (int j=0;j<3;j++) A(i,j)=T.A[i][j];
    Eigen::Matrix3d B = A.inverse(); ref::Affine R; Eigen::Vector3d b(T.b[0],T.b[1],T.b[2]); b = -(B*b);
    for (int i=0;i<3;i++) { for (int j=0;j<3;j++) R.A[i][j]=B(i,j); R.b[i]=b(i); }
    return R;
}
static ref::Affine compose(const ref::Affine& S, const ref::Affine& T) {   // S after T
    ref::Affine R; for (int i=0;i<3;i++) { for (int j=0;j<3;j++) { R.A[i][j]=0; for (int k=0;k<3;k++) R.A[i][j]+=S.A[i][k]*T.A[k][j]; } }
    R.b = S(T.b); return R;
}
static double det(const ref::Affine& T) { return ref::dot(T.A[0], ref::cross(T.A[1], T.A[2])); }

// history: refine / transform, checked after every step against the model (level, map)
template<typename M> static void history(Ctx& c, size_t maxlevel, size_t cells0, size_t growth, bool shear) {
    M msh; auto mesher = make_simple_mesher(msh);
    ref::Affine T; size_t level = 0; int ops = (int)c.range(0, 5); std::string h = "init";
    c.note << "history: ";
    auto verify = [&](size_t prev) {
        size_t want = cells0; for (size_t i = 0; i < level; i++) want *= growth;
        c.check(msh.cells_size() == want, "cell-count", cat("level ", level, " has ", msh.cells_size(), " cells, expected ", want));
        check_box_mesh(c, msh, inverse(T, M::dimension), std::fabs(det(T)));
    };
    verify(0);
    for (int k = 0; k < ops; k++) {
        if (level < maxlevel && c.draw(3) > 0) {
            // parents, to check that every child lies in exactly one parent and keeps its domain measure
            std::vector<std::vector<P>> par; std::vector<double> pm, cm;
            for (auto& cl : msh) { std::vector<P> v; for (auto& p : points(msh, cl)) v.push_back(dm::toP(p)); par.push_back(v); pm.push_back(topo::cell_measure(msh, cl)); cm.push_back(0); }
            mesher.refine(); level++; c.note << "refine "; c.label("refined");
            for (auto& cl : msh) {
                P b = dm::toP(barycenter(msh, cl)); int best = -1;
                for (size_t i = 0; i < par.size(); i++) {       // convex parents: inside test through simplices / box
                    auto& v = par[i]; bool in = true; P o = ref::mean(v);
                    if (M::dimension == 2 && v.size() == 3) { for (int e = 0; e < 3; e++) { P a = v[e], d = v[(e+1)%3]-a; if (ref::cross(d,b-a)[2]*ref::cross(d,o-a)[2] < 0) in = false; } }
                    else if (M::dimension == 2) { P e1 = v[1]-v[0], e2 = v[2]-v[0]; double D = ref::cross(e1,e2)[2], s = ref::cross(b-v[0],e2)[2]/D, t = ref::cross(e1,b-v[0])[2]/D; in = s>0&&s<1&&t>0&&t<1; }
                    else { for (int f = 0; f < 4; f++) { P a = v[f], q = v[(f+1)%4], w = v[(f+2)%4], n = ref::cross(q-a, w-a); if (ref::dot(n,b-a)*ref::dot(n,o-a) < 0) in = false; } }
                    if (in) { best = int(i); cm[i] += topo::cell_measure(msh, cl); break; }
                }
                c.check(best >= 0, "child-outside-parents");
            }
            for (size_t i = 0; i < par.size(); i++) c.close(cm[i], pm[i], 1e-9, pm[i], "children-do-not-tile-parent", cat("parent ", i));
        } else {
            auto S = ref::gen_affine(c, M::dimension, shear, 0.5);
            msh.transform([&](const typename M::point_type& p) { return dm::toD<M>(S(dm::toP(p))); });
            T = compose(S, T); c.note << "transform "; c.label("transformed");
        }
        verify(0);
    }
    c.nontrivial(level > 0);
}

PROP("tri-history", 1440, 28800) { history<triangular_mesh<double>>(c, 3, 4, 4, true); }
PROP("quad-history", 1440, 28800) { history<cartesian_mesh<double,2>>(c, 3, 4, 4, false); }
PROP("tet-history", 540, 8400) {
    tetrahedral_mesh<double> probe; { auto m = make_simple_mesher(probe); } history<tetrahedral_mesh<double>>(c, 2, probe.cells_size(), 8, true); }

PROP("hex-levels", 360, 4800) {
    generic_mesh<double,2> msh; auto mesher = make_fvca5_hex_mesher(msh); size_t l = c.size(0, c.thorough ? 4 : 3);
    mesher.make_level(l); c.note << "fvca5 level " << l; c.nontrivial();
    ref::Affine T; if (c.chance(50)) { T = ref::gen_affine(c, 2, true, 0.5); msh.transform([&](const auto& p) { return dm::toD<dm::G2>(T(dm::toP(p))); }); }
    check_box_mesh(c, msh, inverse(T, 2), std::fabs(det(T)));
}

// single-element meshes
template<typename M> static void single_common(Ctx& c, M& msh, double vol, size_t nf, bool bflags) {
    c.check(msh.cells_size() == 1 && msh.faces_size() == nf, "single-counts");
    auto r = topo::check(c, msh, bflags);
    c.close(r.total, vol, 1e-9, vol, "single-measure"); msh.domain_info(msh[0]); c.nontrivial();
    topo::check_boundary_queries(c, msh); topo::check_neighbours(c, msh, r); topo::check_euler(c, msh);
    c.check(msh.backend_storage()->nodes.size() == msh.points_size(), "single-nodes");
}
PROP("single-polygon", 1800, 36000) {
    size_t n = c.size(3, 24); double R = std::pow(10.0, 2*c.sym()); generic_mesh<double,2> m; make_single_element_mesh(m, R, n);
    c.note << n << "-gon radius " << R; single_common(c, m, 0.5*n*R*R*std::sin(2*M_PI/n), n, true);
}
PROP("single-triangle", 1800, 36000) {
    auto g = ref::gen_polygon(c, 3, 3, true); bool flip = c.draw(2); auto q = ref::loop_pts(g, g.poly[0]); if (flip) std::swap(q[1], q[2]);
    simplicial_mesh<double,2> m; using pt = point<double,2>; make_single_element_mesh(m, pt(q[0][0],q[0][1]), pt(q[1][0],q[1][1]), pt(q[2][0],q[2][1]));
    c.note << ref::describe(g); single_common(c, m, ref::area(q), 3, true);
}
PROP("single-tet", 1800, 36000) {
    auto g = ref::tet3d(c, 1, 1, 1); ref::apply(g, ref::gen_affine(c, 3, true)); size_t k = c.draw(g.verts.size()); auto v = g.verts[k]; c.shuffle(v);
    simplicial_mesh<double,3> m; auto p = [&](int i) { return dm::toD<dm::S3>(g.pts[v[i]]); }; make_single_element_mesh(m, p(0), p(1), p(2), p(3));
    c.note << "tet"; single_common(c, m, ref::measure(g, k), 4, true);
}
PROP("single-box", 1800, 36000) {
    double a = 3*c.sym(), b = 3*c.sym(), z = 3*c.sym(), hx = 0.1+c.unit(), hy = 0.1+c.unit(), hz = 0.1+c.unit();
    c.note << "box " << hx << "x" << hy << "x" << hz;
    { cartesian_mesh<double,2> m; make_single_element_mesh(m, point<double,2>(a,b), hx, hy); single_common(c, m, hx*hy, 4, true); }
    { cartesian_mesh<double,3> m; make_single_element_mesh(m, point<double,3>(a,b,z), hx, hy, hz); single_common(c, m, hx*hy*hz, 6, true); }
}
PROP("single-segment", 600, 12000) {
    double a = 3*c.sym(), b = a + 0.1 + c.unit(); generic_mesh<double,1> m; make_single_element_mesh(m, a, b); c.note << "[" << a << "," << b << "]";
    single_common(c, m, b-a, 2, true);
}
PROP("csv-polygon", 900, 18000) {
    auto g = ref::gen_polygon(c, 3, 9, c.draw(2)); std::string fn = c.scratch + "/poly.csv"; auto q = ref::loop_pts(g, g.poly[0]);
    { FILE* f = fopen(fn.c_str(), "w"); fprintf(f, "x;y\n"); for (auto& p : q) fprintf(f, "%.17g;%.17g\n", p[0], p[1]); fclose(f); }
    generic_mesh<double,2> m; c.check(load_single_element_csv(m, fn), "csv-refused"); c.note << ref::describe(g);
    for (size_t i = 0; i < q.size(); i++) { auto p = points(m, m[0])[i]; c.check(p.x() == q[i][0] && p.y() == q[i][1], "csv-points"); }
    single_common(c, m, ref::area(q), q.size(), true);
}
