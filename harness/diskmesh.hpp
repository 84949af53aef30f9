// Conversion of reference meshes to the library's mesh types, through the storage
// that every mesher and loader of the library fills.
#pragma once
#include "refmesh.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"

namespace dm {
using namespace disk;
using G2 = generic_mesh<double,2>; using G3 = generic_mesh<double,3>;
using S2 = simplicial_mesh<double,2>; using S3 = simplicial_mesh<double,3>;
using C2 = cartesian_mesh<double,2>; using C3 = cartesian_mesh<double,3>;
using G1 = generic_mesh<double,1>;

template<typename Pt> inline ref::P toP(const Pt& p) {
    ref::P r{0,0,0}; for (size_t i = 0; i < Pt::dimension; i++) r[i] = p[i]; return r; }
template<typename M> inline typename M::point_type toD(const ref::P& p) {
    if constexpr (M::dimension == 1) return typename M::point_type(p[0]);
    else if constexpr (M::dimension == 2) return typename M::point_type(p[0], p[1]);
    else return typename M::point_type(p[0], p[1], p[2]); }

template<typename M> void set_points(M& msh, const ref::Mesh& m) {
    auto st = msh.backend_storage(); constexpr size_t D = M::dimension;
    for (size_t i = 0; i < m.pts.size(); i++) { st->points.push_back(toD<M>(m.pts[i]));
        if constexpr (requires { typename M::node_type; }) {
            auto pid = point_identifier<D>(i);
            if constexpr (std::is_constructible_v<typename M::node_type, std::initializer_list<size_t>>) st->nodes.push_back(typename M::node_type({pid}));
            else st->nodes.push_back(typename M::node_type(pid)); }
    }
}
template<typename M> void set_infos(M& msh, const ref::Mesh& m, const std::vector<std::pair<typename M::cell_type,size_t>>& cl) {
    auto st = msh.backend_storage();
    st->boundary_info.resize(msh.faces_size());
    size_t i = 0;
    for (auto itor = msh.faces_begin(); itor != msh.faces_end(); itor++, i++) {
        auto ids = (*itor).point_ids(); ref::Loop l; for (auto& x : ids) l.push_back(size_t(x));
        auto b = m.bnd.find(ref::sorted(l));
        if (b != m.bnd.end()) st->boundary_info[i] = boundary_descriptor(b->second, true);
    }
    st->subdomain_info.clear();
    for (auto& [c, k] : cl) st->subdomain_info.push_back(subdomain_descriptor(m.dom.empty() ? 0 : m.dom[k]));
}
template<typename C> void sort_cells(std::vector<std::pair<C,size_t>>& v) {
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); }

// cellmap[i] = reference cell of the i-th cell of the library mesh
inline G2 make_g2(const ref::Mesh& m, std::vector<size_t>* cellmap = nullptr) {
    G2 msh; auto st = msh.backend_storage(); set_points(msh, m);
    auto own = ref::face_owners(m); std::map<ref::Loop, size_t> eid;
    using node = G2::node_type; using edge = G2::edge_type; using surf = G2::surface_type;
    for (auto& [e, o] : own) { eid[e] = st->edges.size(); st->edges.push_back(edge(node::id_type(e[0]), node::id_type(e[1]))); }
    std::vector<std::pair<surf,size_t>> cl;
    for (size_t c = 0; c < m.poly.size(); c++) {
        auto& l = m.poly[c]; std::vector<edge::id_type> ids;
        for (size_t i = 0; i < l.size(); i++) ids.push_back(edge::id_type(eid[ref::sorted({l[i], l[(i+1)%l.size()]})]));
        surf s(ids); std::vector<point_identifier<2>> p; for (auto v : l) p.push_back(point_identifier<2>(v));
        s.set_point_ids(p.begin(), p.end()); cl.push_back({s, c});
    }
    sort_cells(cl); for (auto& [s, c] : cl) { st->surfaces.push_back(s); if (cellmap) cellmap->push_back(c); }
    set_infos(msh, m, cl);
    return msh;
}
inline S2 make_s2(const ref::Mesh& m, std::vector<size_t>* cellmap = nullptr) {
    S2 msh; auto st = msh.backend_storage(); set_points(msh, m); auto own = ref::face_owners(m);
    for (auto& [e, o] : own) st->edges.push_back(S2::edge_type({e[0], e[1]}));
    std::vector<std::pair<S2::surface_type,size_t>> cl;
    for (size_t c = 0; c < m.poly.size(); c++) cl.push_back({S2::surface_type({m.poly[c][0], m.poly[c][1], m.poly[c][2]}), c});
    sort_cells(cl); for (auto& [s, c] : cl) { st->surfaces.push_back(s); if (cellmap) cellmap->push_back(c); }
    set_infos(msh, m, cl);
    return msh;
}
inline C2 make_c2(const ref::Mesh& m, std::vector<size_t>* cellmap = nullptr) {
    C2 msh; auto st = msh.backend_storage(); set_points(msh, m);
    std::vector<std::pair<C2::surface_type,size_t>> cl;
    for (size_t c = 0; c < m.poly.size(); c++) { auto& q = m.poly[c];
        size_t a = q[0], b = q[1], d = q[3], e = q[2];      // library order: x fastest
        cl.push_back({C2::surface_type({a, b, d, e}), c});
        for (auto& x : {std::pair<size_t,size_t>{a,b},{a,d},{b,e},{d,e}}) st->edges.push_back(C2::edge_type({x.first, x.second})); }
    std::sort(st->edges.begin(), st->edges.end()); st->edges.erase(std::unique(st->edges.begin(), st->edges.end()), st->edges.end());
    sort_cells(cl); for (auto& [s, c] : cl) { st->surfaces.push_back(s); if (cellmap) cellmap->push_back(c); }
    set_infos(msh, m, cl);
    return msh;
}
inline G3 make_g3(const ref::Mesh& m, std::vector<size_t>* cellmap = nullptr) {
    G3 msh; auto st = msh.backend_storage(); set_points(msh, m);
    using node = G3::node_type; using edge = G3::edge_type; using surf = G3::surface_type; using vol = G3::volume_type;
    std::map<ref::Loop, size_t> eid; for (auto& f : m.faces) for (size_t i = 0; i < f.size(); i++) eid[ref::sorted({f[i], f[(i+1)%f.size()]})] = 0;
    size_t k = 0; for (auto& [e, id] : eid) { id = k++; st->edges.push_back(edge(node::id_type(e[0]), node::id_type(e[1]))); }
    std::vector<std::pair<surf,size_t>> fs;
    for (size_t fi = 0; fi < m.faces.size(); fi++) { auto& f = m.faces[fi]; std::vector<edge::id_type> ids; std::vector<point_identifier<3>> p;
        for (size_t i = 0; i < f.size(); i++) { ids.push_back(edge::id_type(eid[ref::sorted({f[i], f[(i+1)%f.size()]})])); p.push_back(point_identifier<3>(f[i])); }
        surf s(ids); s.set_point_ids(p.begin(), p.end()); fs.push_back({s, fi}); }
    sort_cells(fs); std::vector<size_t> fmap(fs.size()); for (size_t i = 0; i < fs.size(); i++) { fmap[fs[i].second] = i; st->surfaces.push_back(fs[i].first); }
    std::vector<std::pair<vol,size_t>> cl;
    for (size_t c = 0; c < m.cellfaces.size(); c++) { std::vector<surf::id_type> ids; for (auto f : m.cellfaces[c]) ids.push_back(surf::id_type(fmap[f]));
        vol v(ids); std::vector<point_identifier<3>> p; for (auto x : ref::cell_verts(m, c)) p.push_back(point_identifier<3>(x));
        v.set_point_ids(p.begin(), p.end()); cl.push_back({v, c}); }
    sort_cells(cl); for (auto& [s, c] : cl) { st->volumes.push_back(s); if (cellmap) cellmap->push_back(c); }
    set_infos(msh, m, cl);
    return msh;
}
inline S3 make_s3(const ref::Mesh& m, std::vector<size_t>* cellmap = nullptr) {
    S3 msh; auto st = msh.backend_storage(); set_points(msh, m);
    std::set<ref::Loop> es; for (auto& f : m.faces) for (size_t i = 0; i < 3; i++) es.insert(ref::sorted({f[i], f[(i+1)%3]}));
    for (auto& e : es) st->edges.push_back(S3::edge_type({e[0], e[1]}));
    std::set<ref::Loop> fs; for (auto& f : m.faces) fs.insert(ref::sorted(f));
    for (auto& f : fs) st->surfaces.push_back(S3::surface_type({f[0], f[1], f[2]}));
    std::vector<std::pair<S3::volume_type,size_t>> cl;
    for (size_t c = 0; c < m.verts.size(); c++) { auto& v = m.verts[c]; cl.push_back({S3::volume_type({v[0],v[1],v[2],v[3]}), c}); }
    sort_cells(cl); for (auto& [s, c] : cl) { st->volumes.push_back(s); if (cellmap) cellmap->push_back(c); }
    set_infos(msh, m, cl);
    return msh;
}
inline C3 make_c3(const ref::Mesh& m, std::vector<size_t>* cellmap = nullptr) {
    C3 msh; auto st = msh.backend_storage(); set_points(msh, m);
    static const int E[12][2] = {{0,1},{0,2},{0,4},{1,3},{1,5},{2,3},{2,6},{3,7},{4,5},{4,6},{5,7},{6,7}};
    static const int F[6][4] = {{0,2,6,4},{1,3,7,5},{0,1,3,2},{4,5,7,6},{0,4,5,1},{2,6,7,3}};
    std::vector<std::pair<C3::volume_type,size_t>> cl;
    for (size_t c = 0; c < m.verts.size(); c++) { auto& v = m.verts[c];
        for (auto& e : E) st->edges.push_back(C3::edge_type({v[e[0]], v[e[1]]}));
        for (auto& f : F) st->surfaces.push_back(C3::surface_type({v[f[0]], v[f[1]], v[f[2]], v[f[3]]}));
        cl.push_back({C3::volume_type({v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7]}), c}); }
    auto su = [](auto& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
    su(st->edges); su(st->surfaces);
    sort_cells(cl); for (auto& [s, c] : cl) { st->volumes.push_back(s); if (cellmap) cellmap->push_back(c); }
    set_infos(msh, m, cl);
    return msh;
}
inline G1 make_g1(const std::vector<double>& x) {
    G1 msh; auto st = msh.backend_storage();
    for (size_t i = 0; i < x.size(); i++) { st->points.push_back(G1::point_type(x[i])); st->nodes.push_back(G1::node_type(point_identifier<1>(i))); }
    for (size_t i = 0; i + 1 < x.size(); i++) st->edges.push_back(G1::edge_type(G1::node_type::id_type(i), G1::node_type::id_type(i+1)));
    st->boundary_info.resize(x.size()); st->boundary_info.front() = boundary_descriptor(0, true); st->boundary_info.back() = boundary_descriptor(1, true);
    st->subdomain_info.resize(x.size() - 1);
    return msh;
}
} // namespace dm
