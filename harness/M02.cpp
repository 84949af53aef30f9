// M02: mesh queries agree with the incidence structure the mesh was built from, for any numbering.
#include "topo.hpp"
using namespace disk;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop;

template<typename E> static Loop key(const E& e) { Loop l; for (auto& x : e.point_ids()) l.push_back(size_t(x)); return ref::sorted(l); }
template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

// random boundary labels: some outer faces, optionally some interfaces
static void relabel(Ctx& c, ref::Mesh& m) {
    auto own = ref::face_owners(m); m.bnd.clear(); size_t nid = c.size(1, 6); bool sparse = c.chance(30), inter = c.chance(40);
    for (auto& [f, o] : own) {
        if (o.size() == 1 && !(sparse && c.draw(3) == 0)) m.bnd[f] = c.draw(nid) * (1 + 2*c.draw(2));
        if (o.size() == 2 && inter && c.draw(3) == 0) m.bnd[f] = c.draw(nid) + 1;
    }
    size_t nd = c.size(1, 4); m.dom.clear(); for (size_t i = 0; i < m.ncells(); i++) m.dom.push_back(c.draw(nd) * 3);
}

template<typename M> static void run(Ctx& c, ref::Mesh& m, M& msh, const std::vector<size_t>& cm) {
    c.note << ref::describe(m); c.nontrivial(m.ncells() >= 2); c.label(m.kind);
    auto own = ref::face_owners(m);
    c.check(msh.cells_size() == m.ncells() && msh.faces_size() == own.size() && msh.points_size() == m.pts.size(), "sizes");
    // tags are independent of the numbers that the queries answer with
    std::vector<size_t> tag; { auto st = msh.backend_storage(); bool other = c.chance(40); for (auto& bi : st->boundary_info) { if (other && bi.is_boundary()) bi.tag(c.draw(40)); tag.push_back(bi.tag()); } size_t k = 0; if (other) for (auto& di : st->subdomain_info) { di = disk::subdomain_descriptor(di.id(), c.draw(40)); k++; } }
    auto r = topo::check(c, msh, false, false);
    topo::check_boundary_queries(c, msh);
    topo::check_neighbours(c, msh, r);
    // faces: owners and labels
    size_t i = 0, nb = 0; std::map<size_t, size_t> per;
    for (auto& fc : faces(msh)) {
        auto k = key(fc); auto o = own.find(k); c.check(o != own.end(), "unknown-face");
        std::set<size_t> want(o->second.begin(), o->second.end()), got; for (auto x : r.owners[i]) got.insert(cm[x]);
        c.check(want == got, "face-owners", cat("face ", i));
        auto b = m.bnd.find(k); c.check(msh.is_boundary(fc) == (b != m.bnd.end()), "boundary-flag-of-face", cat("face ", i));
        if (b != m.bnd.end()) { nb++; per[b->second]++; c.check(msh.boundary_id(fc) == b->second && msh.boundary_info(fc).id() == b->second && msh.boundary_info(fc).tag() == tag[i], "boundary-id-of-face", cat("face ", i)); }
        auto ps = points(msh, fc); auto ids = fc.point_ids(); c.check(ps.size() == ids.size(), "face-points");
        for (size_t j = 0; j < ids.size(); j++) { P p = m.pts[size_t(ids[j])]; c.check(ref::norm(dm::toP(ps[j]) - p) == 0, "face-point-coordinates"); }
        i++;
    }
    c.check(i == msh.faces_size() && nb == msh.boundary_faces_size(), "face-iteration");
    for (auto& [id, n] : per) c.check(msh.boundary_faces_size(id) == n, "faces-with-id", cat("id ", id));
    std::vector<size_t> prox; for (auto& fc : boundary_faces(msh)) prox.push_back(offset(msh, fc)); c.check(prox.size() == nb, "boundary-proxy");
    // cells: points and subdomain
    i = 0;
    for (auto& cl : cells(msh)) {
        auto l = ref::cell_verts(m, cm[i]); c.check(key(cl) == ref::sorted(l), "cell-points", cat("cell ", i));
        c.check(msh.domain_info(cl).id() == m.dom[cm[i]], "subdomain-of-cell", cat("cell ", i, " got ", msh.domain_info(cl).id(), " expected ", m.dom[cm[i]]));
        c.check(msh[i] == cl && offset(msh, msh[i]) == i, "cell-by-index");
        i++;
    }
    c.check(i == msh.cells_size(), "cell-iteration");
    for (int t = 0; t < 6; t++) { size_t a = c.draw(msh.cells_size()), b = c.draw(msh.cells_size()); auto A = msh[a], B = msh[b];
        c.check((A == B) == (a == b) && (A < B) == (a < b), "cell-order", cat(a, " ", b)); }
    // bounding box
    P lo = m.pts[0], hi = m.pts[0]; for (auto& p : m.pts) for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], p[k]); hi[k] = std::max(hi[k], p[k]); }
    bounding_box<M> bb(msh); for (size_t k = 0; k < M::dimension; k++) c.check(bb.min()[k] == lo[k] && bb.max()[k] == hi[k], "bounding-box", cat("axis ", k, " got [", bb.min()[k], ",", bb.max()[k], "] expected [", lo[k], ",", hi[k], "]"));
    // interfaces
    mark_internal_faces(msh); i = 0;
    for (auto& fc : faces(msh)) { auto bi = msh.boundary_info(fc); c.check(bi.is_internal() == (m.bnd.count(key(fc)) && r.owners[i].size() == 2), "internal-interface", cat("face ", i)); i++; }
    // an element that is not in the mesh is refused
    {
        M sub; *sub.backend_storage() = *msh.backend_storage(); auto st = sub.backend_storage();
        size_t f = c.draw(msh.faces_size()); auto fc = *std::next(msh.faces_begin(), f);
        auto erase = [](auto& v, size_t k) { v.erase(v.begin() + k); };
        if constexpr (M::dimension == 1) erase(st->nodes, f); else if constexpr (M::dimension == 2) erase(st->edges, f); else erase(st->surfaces, f);
        erase(st->boundary_info, f);
        const M& cs = sub;
        c.check(throws([&]{ cs.lookup(fc); }) && throws([&]{ cs.is_boundary(fc); }) && throws([&]{ cs.boundary_id(fc); }) && throws([&]{ cs.boundary_info(fc); }), "absent-face-not-refused");
        c.check(throws([&]{ offset(cs, fc); }), "absent-face-has-offset", cat("face ", f, " of ", msh.faces_size()));
    }
    if (msh.cells_size() > 1) {
        M sub; *sub.backend_storage() = *msh.backend_storage(); auto st = sub.backend_storage();
        size_t k = c.draw(msh.cells_size()); auto cl = msh[k];
        auto erase = [](auto& v, size_t k) { v.erase(v.begin() + k); };
        if constexpr (M::dimension == 1) erase(st->edges, k); else if constexpr (M::dimension == 2) erase(st->surfaces, k); else erase(st->volumes, k);
        erase(st->subdomain_info, k);
        const M& cs = sub;
        c.check(throws([&]{ cs.lookup(cl); }) && throws([&]{ cs.domain_info(cl); }), "absent-cell-not-refused");
        c.check(throws([&]{ offset(cs, cl); }), "absent-cell-has-offset", cat("cell ", k, " of ", msh.cells_size()));
        // neighbours of the reduced mesh: the removed cell is no neighbour any more
        auto r2 = [&] { topo::Report r2; r2.owners.resize(cs.faces_size()); size_t q = 0; for (auto& x : cs) { r2.cell_faces.emplace_back(); for (auto& f : faces(cs, x)) { size_t o = offset(cs, f); r2.owners[o].push_back(q); r2.cell_faces.back().push_back(o); } q++; } return r2; }();
        topo::check_neighbours(c, cs, r2);
    }
}

PROP("generic-2d", 12000, 300000) { auto m = ref::gen_poly2d(c, c.thorough ? 6 : 4, ref::ANY); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); run(c, m, msh, cm); }
PROP("triangles", 12000, 300000) { auto m = ref::gen_tri2d(c, c.thorough ? 7 : 4); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); run(c, m, msh, cm); }
PROP("rectangles", 8000, 200000) { auto m = ref::gen_rect2d(c, c.thorough ? 8 : 5); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); run(c, m, msh, cm); }
PROP("generic-3d", 8000, 160000) { auto m = ref::gen_poly3d(c, c.thorough ? 3 : 2); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); run(c, m, msh, cm); }
PROP("tetrahedra", 8000, 160000) { auto m = ref::gen_tet3d(c, c.thorough ? 3 : 2); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); run(c, m, msh, cm); }
PROP("boxes", 8000, 160000) { auto m = ref::gen_hex3d(c, c.thorough ? 4 : 3); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); run(c, m, msh, cm); }
PROP("segments", 4000, 80000) {
    std::vector<double> x{3*c.sym()}; size_t n = c.size(1, 12); for (size_t i = 0; i < n; i++) x.push_back(x.back() + 0.1 + c.unit());
    auto msh = dm::make_g1(x); c.note << n << " segments"; c.nontrivial(n > 1);
    auto r = topo::check(c, msh, true); c.close(r.total, x.back() - x[0], 1e-12, 10, "total"); topo::check_boundary_queries(c, msh); topo::check_neighbours(c, msh, r);
    bounding_box<dm::G1> bb(msh); c.check(bb.min()[0] == x[0] && bb.max()[0] == x.back(), "bounding-box");
}
// ordering of elements is strict, total and consistent with equality, whatever their shape
template<typename E, typename Id> static void order(Ctx& c) {
    auto gen = [&] { std::vector<Id> v; size_t n = c.size(3, 6); for (size_t i = 0; i < n; i++) v.push_back(Id(c.draw(3))); return v; };
    std::vector<E> e; std::vector<std::vector<Id>> v; for (int i = 0; i < 3; i++) { v.push_back(gen()); e.push_back(E(v.back())); }
    c.nontrivial(v[0].size() != v[1].size());
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        c.check((e[i] == e[j]) == (v[i] == v[j]), "element-equality", cat("sizes ", v[i].size(), " and ", v[j].size()));
        c.check((e[i] == e[j]) == (!(e[i] < e[j]) && !(e[j] < e[i])), "order-vs-equality");
        c.check(!((e[i] < e[j]) && (e[j] < e[i])), "order-antisymmetric");
        for (int k = 0; k < 3; k++) if (e[i] < e[j] && e[j] < e[k]) c.check(e[i] < e[k], "order-transitive");
    }
}
PROP("element-order", 20000, 400000) { if (c.draw(2)) order<dm::G2::surface_type, dm::G2::edge_type::id_type>(c); else order<dm::G3::surface_type, dm::G3::edge_type::id_type>(c); }
