// M03: a mesh file is loaded as exactly the mesh it describes, for every format, order and numbering of the elements.
#include <optional>
#include <set>
#include "topo.hpp"
#include "meshfiles.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
using namespace disk; using namespace dm;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop;

template<typename E> static Loop key(const E& e) { Loop l; for (auto& x : e.point_ids()) l.push_back(size_t(x)); return ref::sorted(l); }
static bool same_loop(const Loop& a, Loop b) { if (a.size() != b.size()) return false; for (int r = 0; r < 2; r++) { for (size_t i = 0; i < b.size(); i++) { if (a == b) return true; std::rotate(b.begin(), b.begin() + 1, b.end()); } std::reverse(b.begin(), b.end()); } return false; }

template<typename M> static void compare(Ctx& c, const ref::Mesh& m, const M& msh, const char* what) {
    auto own = ref::face_owners(m); std::string w = what; auto st = msh.backend_storage();
    c.check(msh.points_size() == m.pts.size() && msh.cells_size() == m.ncells() && msh.faces_size() == own.size(), w + "/sizes", cat(msh.points_size(), " points, ", msh.cells_size(), " cells, ", msh.faces_size(), " faces; expected ", m.pts.size(), " ", m.ncells(), " ", own.size()));
    for (size_t i = 0; i < m.pts.size(); i++) { auto p = *std::next(msh.points_begin(), i); for (size_t k = 0; k < M::dimension; k++) c.check(p[k] == m.pts[i][k], w + "/coordinates", cat("point ", i, " axis ", k, ": ", p[k], " expected ", m.pts[i][k])); }
    c.check(st->nodes.size() == m.pts.size(), w + "/nodes"); for (size_t i = 0; i < m.pts.size(); i++) c.check(size_t(st->nodes[i].point_ids()[0]) == i, w + "/node-point", cat("node ", i));
    auto r = topo::check(c, msh, false, true);
    std::map<Loop, size_t> cid; for (size_t i = 0; i < m.ncells(); i++) cid[ref::sorted(ref::cell_verts(m, i))] = i;
    std::vector<size_t> cm; std::set<size_t> seen; size_t k = 0;
    c.check(st->subdomain_info.size() == m.ncells(), w + "/subdomain-infos", cat(st->subdomain_info.size(), " for ", m.ncells(), " cells"));
    for (auto& cl : msh) {
        auto it = cid.find(key(cl)); c.check(it != cid.end(), w + "/unknown-cell", cat("cell ", k)); cm.push_back(it->second); c.check(seen.insert(it->second).second, w + "/repeated-cell");
        size_t id = msh.domain_info(cl).id(), tag = msh.domain_info(cl).tag(); c.check(id == m.dom[it->second] && tag == id, w + "/subdomain", cat("cell ", k, " got ", id, " expected ", m.dom[it->second]));
        if constexpr (std::is_same_v<M, G2>) { Loop l; for (auto& x : cl.point_ids()) l.push_back(size_t(x)); c.check(same_loop(l, m.poly[it->second]), w + "/polygon-order", cat("cell ", k)); }
        if constexpr (std::is_same_v<M, C2> || std::is_same_v<M, C3>) { Loop l; for (auto& x : cl.point_ids()) l.push_back(size_t(x)); Loop e = m.dim == 3 ? m.verts[it->second] : m.poly[it->second]; if (m.dim == 2) std::swap(e[2], e[3]); c.check(l == e, w + "/corner-order", cat("cell ", k)); }
        c.close(topo::cell_measure(msh, cl), ref::measure(m, it->second), 1e-9, ref::measure(m, it->second), w + "/cell-geometry", cat("cell ", k));
        k++;
    }
    std::map<Loop, Loop> floop; for (auto& f : m.faces) floop[ref::sorted(f)] = f;
    k = 0; size_t nb = 0;
    for (auto& fc : faces(msh)) {
        auto q = key(fc); auto o = own.find(q); c.check(o != own.end(), w + "/unknown-face", cat("face ", k));
        std::set<size_t> want(o->second.begin(), o->second.end()), got; for (auto x : r.owners[k]) got.insert(cm[x]); c.check(want == got, w + "/face-owners", cat("face ", k));
        if constexpr (std::is_same_v<M, G3>) { Loop l; for (auto& x : fc.point_ids()) l.push_back(size_t(x)); c.check(same_loop(l, floop[q]), w + "/face-loop", cat("face ", k)); }
        auto b = m.bnd.find(q); auto bi = msh.boundary_info(fc);
        c.check(msh.is_boundary(fc) == (b != m.bnd.end()), w + "/boundary-flag", cat("face ", k, b != m.bnd.end() ? " is not" : " is", " on the boundary"));
        if (b != m.bnd.end()) { nb++; c.check(msh.boundary_id(fc) == b->second && bi.tag() == b->second, w + "/boundary-id", cat("face ", k, " got ", msh.boundary_id(fc), " tag ", bi.tag(), " expected ", b->second)); }
        c.check(bi.is_internal() == (b != m.bnd.end() && o->second.size() == 2), w + "/interface-flag", cat("face ", k));
        k++;
    }
    c.check(msh.boundary_faces_size() == nb, w + "/boundary-count");
    if constexpr (M::dimension == 3) {
        std::set<Loop> es, got; for (auto& f : m.faces) for (size_t i = 0; i < f.size(); i++) es.insert(ref::sorted({f[i], f[(i+1) % f.size()]}));
        for (auto& e : st->edges) got.insert(key(e)); c.check(got == es && st->edges.size() == es.size(), w + "/edges", cat(st->edges.size(), " edges, expected ", es.size()));
        for (size_t i = 0; i + 1 < st->edges.size(); i++) c.check(st->edges[i] < st->edges[i+1], w + "/edges-sorted");
        if constexpr (std::is_same_v<M, G3>) for (auto& s : st->surfaces) { std::set<Loop> a, b; for (auto e : s.faces_ids()) a.insert(key(st->edges[e])); auto& l = floop[key(s)]; for (size_t i = 0; i < l.size(); i++) b.insert(ref::sorted({l[i], l[(i+1) % l.size()]})); c.check(a == b, w + "/edges-of-face"); }
    }
    topo::check_neighbours(c, msh, r);
}
template<typename M> struct Same { template<typename X> static bool is(const X&) { return std::is_same_v<X, M>; } };
template<typename M, typename L> static void run(Ctx& c, const ref::Mesh& m, const mf::File& f, L load, bool dispatch) {
    c.note << ref::describe(m); c.label(m.kind); c.nontrivial(m.ncells() >= 2);
    std::string fn = mf::save(c, f);
    M msh; c.check(load(fn.c_str(), msh), "refused", f.ext); compare(c, m, msh, f.ext.c_str());
    if (dispatch) { int calls = 0, extra = 0; int rc = dispatch_all_meshes(fn.c_str(), [&](auto& x, int arg) { calls++; extra = arg; c.check(Same<M>::is(x), "dispatched-to-another-mesh-type"); if constexpr (std::is_same_v<std::decay_t<decltype(x)>, M>) compare(c, m, x, "dispatch"); }, 42);
        c.check(rc == 0 && calls == 1 && extra == 42, "dispatch", cat("rc ", rc, " calls ", calls)); }
}
// the boundaries of FVCA5 and FVCA6 meshes are numbered by their normals when all are parallel to the axes
static void renumber(const ref::Mesh& in, ref::Mesh& m) {
    auto own = ref::face_owners(m); bool all = true; std::map<Loop, size_t> nb; std::map<Loop, Loop> floop; for (auto& f : m.faces) floop[ref::sorted(f)] = f;
    for (auto& [f, o] : own) if (o.size() == 1) {
        P n; P mid = ref::mean(ref::loop_pts(m, f)), cc = ref::mean(ref::loop_pts(m, ref::cell_verts(m, o[0])));
        if (m.dim == 2) { P e = m.pts[f[1]] - m.pts[f[0]]; n = P{e[1], -e[0], 0}; n = (1/ref::norm(n)) * n;
            // outward: the loop of the cell is counterclockwise
            auto& l = m.poly[o[0]]; bool rev = false; double A = ref::signed_area2(m, l); for (size_t i = 0; i < l.size(); i++) if (l[i] == f[1] && l[(i+1) % l.size()] == f[0]) rev = true; if (rev != (A < 0)) n = -1.0 * n; }
        else { n = ref::normal(ref::loop_pts(m, floop[f])); if (ref::dot(n, mid - cc) < 0) n = -1.0 * n; }
        int axis = -1; for (int k = 0; k < m.dim; k++) { double a = std::fabs(n[k]); if (a > 1 - 1e-9) axis = k; else if (a > 0.985) throw pbt::Discard(); }
        if (axis < 0) { all = false; continue; }
        bool up = n[axis] > 0; static const size_t id2[2][2] = {{3, 1}, {0, 2}}, id3[3][2] = {{2, 5}, {1, 4}, {0, 3}};
        nb[f] = m.dim == 2 ? id2[axis][up] : id3[axis][up];
    }
    for (auto& [f, o] : own) if (o.size() == 1) { if (all) m.bnd[f] = nb[f]; else m.bnd[f] = 0; }
}
static ref::Affine axis_map(Ctx& c, int dim) { ref::Affine T; for (int k = 0; k < dim; k++) { T.A[k][k] = 0.3 + 2*c.unit(); T.b[k] = c.sym(); } return T; }

PROP("netgen-2d", 3000, 200000) { auto m = ref::gen_tri2d(c, 4); mf::relabel(c, m, false, false, true); run<S2>(c, m, mf::netgen2(c, m), [](const char* f, S2& x) { return load_mesh_netgen(f, x); }, c.chance(30)); }
PROP("netgen-3d", 1500, 80000) { auto m = ref::gen_tet3d(c, 2); mf::relabel(c, m, false, false, true); run<S3>(c, m, mf::netgen3(c, m), [](const char* f, S3& x) { return load_mesh_netgen(f, x); }, c.chance(30)); }
PROP("cartesian-2d", 3000, 200000) { auto m = ref::gen_rect2d(c, 4); if (c.chance(50)) ref::permute_keep(c, m); mf::relabel(c, m, false, true, true); run<C2>(c, m, mf::quad(c, m), [](const char* f, C2& x) { return load_mesh_diskpp_cartesian(f, x); }, c.chance(30)); }
PROP("cartesian-3d", 1500, 80000) { auto m = ref::hex3d(c, c.size(1, 3), c.size(1, 3), c.size(1, 2)); ref::apply(m, ref::gen_affine(c, 3, false)); if (c.chance(50)) ref::permute_keep(c, m); mf::relabel(c, m, false, true, true); run<C3>(c, m, mf::hex(c, m), [](const char* f, C3& x) { return load_mesh_diskpp_cartesian(f, x); }, c.chance(30)); }
static ref::Mesh polygons(Ctx& c, size_t nmax, size_t maxv) { auto m = ref::gen_poly_unit(c, nmax, ref::ANY); if (!mf::limit_vertices(m, maxv)) throw pbt::Discard(); ref::apply(m, c.chance(50) ? axis_map(c, 2) : ref::gen_affine(c, 2, true)); if (c.chance(50)) ref::permute(c, m); return m; }
PROP("fvca5", 2400, 150000) { auto m = polygons(c, 4, 8); bool domains = c.chance(40); mf::relabel(c, m, true, true, true); if (domains) for (auto& d : m.dom) d = c.draw(4); auto f = mf::fvca5(c, m, domains); ref::Mesh in = m; renumber(in, m); run<G2>(c, m, f, [](const char* f, G2& x) { return load_mesh_fvca5_2d(f, x); }, c.chance(30)); }
static ref::Mesh polyhedra(Ctx& c, size_t nmax) { auto m = ref::gen_poly3d(c, nmax, false); ref::apply(m, c.chance(50) ? axis_map(c, 3) : ref::gen_affine(c, 3, true)); return m; }
PROP("fvca6", 1500, 80000) { auto m = polyhedra(c, 2); mf::relabel(c, m, true, true, false); auto f = mf::fvca6(c, m); ref::Mesh in = m; renumber(in, m); run<G3>(c, m, f, [](const char* f, G3& x) { return load_mesh_fvca6_3d(f, x); }, c.chance(30)); }
PROP("medit-2d", 2400, 150000) { auto m = polygons(c, 4, 6); mf::relabel(c, m, false, false, true); run<G2>(c, m, mf::medit2(c, m), [](const char* f, G2& x) { return load_mesh_medit(f, x); }, false); }
PROP("medit-3d", 1500, 80000) { auto m = polyhedra(c, 2); mf::relabel(c, m, false, false, true); for (auto& d : m.dom) d = 0; run<G3>(c, m, mf::medit3(c, m), [](const char* f, G3& x) { return load_mesh_medit(f, x); }, false); }
PROP("poly-2d", 2400, 150000) { auto m = polygons(c, 4, 99); mf::relabel(c, m, false, false, true); run<G2>(c, m, mf::poly(c, m), [](const char* f, G2& x) { return load_mesh_poly(f, x); }, false); }
PROP("poly-3d", 1500, 80000) { auto m = polyhedra(c, 2); mf::relabel(c, m, false, false, true); run<G3>(c, m, mf::poly(c, m), [](const char* f, G3& x) { return load_mesh_poly(f, x); }, false); }
// the exported file holds the mesh it was written from
PROP("netgen-export", 2400, 150000) {
    auto m = ref::gen_tri2d(c, 4); mf::relabel(c, m, false, false, true); c.note << ref::describe(m); c.nontrivial(m.ncells() >= 2);
    auto msh = dm::make_s2(m); mark_internal_faces(msh); std::string fn = c.scratch + "/out.mesh2d"; dump_netgen_format(msh, fn);
    S2 back; c.check(load_mesh_netgen(fn.c_str(), back), "exported-file-refused"); compare(c, m, back, "export");
    c.check(dispatch_all_meshes((c.scratch + "/m.unknown").c_str(), [](auto&&...) {}) == 1, "unknown-extension");
}
PROP("uniform-1d", 3000, 100000) {
    size_t n = c.size(1, 20); double a = 3*c.sym(), b = a + 0.1 + 5*c.unit(); bool dflt = c.chance(10); if (dflt) { a = 0; b = 1; n = 8; } c.note << n << " cells on [" << a << "," << b << "]"; c.nontrivial(n > 1);
    G1 msh; uniform_mesh_loader<double,1> l0, l1(a, b, n); c.check(dflt ? l0.populate_mesh(msh) : l1.populate_mesh(msh), "refused"); c.check(msh.cells_size() == n && msh.points_size() == n+1 && msh.faces_size() == n+1, "uniform/sizes");
    auto r = topo::check(c, msh, true, true); size_t i = 0;
    for (auto& cl : msh) { auto p = points(msh, cl); c.close(p[0].x(), a + (b-a)*i/n, 1e-13, 10, "uniform/left"); c.close(p[1].x(), a + (b-a)*(i+1)/n, 1e-13, 10, "uniform/right"); c.check(msh.domain_info(cl).id() == 0, "uniform/subdomain"); i++; }
    c.check(msh.boundary_faces_size() == 2, "uniform/boundary"); topo::check_neighbours(c, msh, r);
}
