// Topological validity oracle for library meshes of any kind, using the mesh API only.
#pragma once
#include "diskmesh.hpp"

namespace topo {
using namespace disk;
using ref::P; using ref::Loop;

// area / volume recomputed from the points of the faces of a cell (convex cells in 3D, any simple polygon
// in 2D when its points are listed along the boundary, else convex)
template<typename M> double cell_measure(const M& msh, const typename M::cell_type& cl) {
    std::vector<P> pts; for (auto& p : points(msh, cl)) pts.push_back(dm::toP(p));
    if constexpr (M::dimension == 1) return std::fabs(pts[1][0] - pts[0][0]);
    P o = ref::mean(pts); double s = 0;
    if constexpr (M::dimension == 2) {
        // signed via faces seen from one point, orientation from the boundary loop is not assumed: use the
        // shoelace formula over the chain of faces
        std::map<size_t, std::vector<size_t>> adj; std::map<size_t, P> pos;
        for (auto& fc : faces(msh, cl)) { auto ids = fc.point_ids(); auto fp = points(msh, fc); size_t a = ids[0], b = ids[1];
            adj[a].push_back(b); adj[b].push_back(a); pos[a] = dm::toP(fp[0]); pos[b] = dm::toP(fp[1]); }
        size_t start = adj.begin()->first, prev = size_t(-1), cur = start, steps = 0;
        do { auto& n = adj[cur]; if (n.size() != 2) return -1; size_t nx = n[0] == prev ? n[1] : n[0];
             s += pos[cur][0]*pos[nx][1] - pos[nx][0]*pos[cur][1]; prev = cur; cur = nx; } while (cur != start && ++steps <= adj.size());
        if (steps + 1 != adj.size()) return -1;     // not a single closed loop
        return std::fabs(s) / 2;
    }
    if constexpr (M::dimension == 3) {
        for (auto& fc : faces(msh, cl)) { std::vector<P> v; for (auto& p : points(msh, fc)) v.push_back(dm::toP(p));
            P n{0,0,0}; for (size_t i = 1; i + 1 < v.size(); i++) n = n + ref::cross(v[i]-v[0], v[i+1]-v[0]);
            s += std::fabs(ref::dot(n, v[0]-o)) / 6; }
        return s;
    }
    return 0;
}

struct Report { double total = 0; std::vector<std::vector<size_t>> owners; std::vector<std::vector<size_t>> cell_faces; };

// full consistency of cells, faces, lookup and incidence. `bnd_by_owner`: boundary faces are exactly
// those with one owner.
template<typename M> Report check(pbt::Ctx& c, const M& msh, bool bnd_by_owner, bool all_points_used = true) {
    Report r; size_t nc = msh.cells_size(), nf = msh.faces_size();
    c.check(nc > 0 && nf > 0, "empty-mesh");
    r.owners.resize(nf); size_t k = 0; std::set<size_t> used;
    std::vector<typename M::cell_type> cl(msh.cells_begin(), msh.cells_end());
    std::vector<typename M::face_type> fc(msh.faces_begin(), msh.faces_end());
    c.check(cl.size() == nc && fc.size() == nf, "size-mismatch");
    for (size_t i = 0; i + 1 < nc; i++) c.check(cl[i] < cl[i+1], "cells-not-strictly-sorted", pbt::cat("cell ", i));
    for (size_t i = 0; i + 1 < nf; i++) c.check(fc[i] < fc[i+1], "faces-not-strictly-sorted", pbt::cat("face ", i));
    for (size_t i = 0; i < nf; i++) {
        c.check(size_t(msh.lookup(fc[i])) == i && offset(msh, fc[i]) == i, "face-lookup", pbt::cat("face ", i));
        auto ids = fc[i].point_ids(); std::set<size_t> s; for (auto& x : ids) { c.check(size_t(x) < msh.points_size(), "point-id-range"); s.insert(size_t(x)); }
        c.check(s.size() == ids.size(), "face-repeated-vertex");
    }
    for (auto& q : msh) {
        c.check(size_t(msh.lookup(q)) == k && offset(msh, q) == k, "cell-lookup", pbt::cat("cell ", k));
        auto fcs = faces(msh, q); auto fid = faces_id(msh, q);
        c.check(fcs.size() == fid.size() && howmany_faces(msh, q) == fcs.size(), "face-count");
        std::set<size_t> fpts, seen; r.cell_faces.emplace_back();
        for (size_t i = 0; i < fcs.size(); i++) {
            size_t o = offset(msh, fcs[i]);
            c.check(o < nf && fc[o] == fcs[i] && size_t(msh.lookup(fcs[i])) == o, "cell-face-not-in-mesh", pbt::cat("cell ", k, " face ", i));
            c.check(size_t(fid[i]) == o, "faces_id-disagrees-with-faces", pbt::cat("cell ", k, " face ", i));
            c.check(seen.insert(o).second, "repeated-face-in-cell");
            r.owners[o].push_back(k); r.cell_faces.back().push_back(o);
            for (auto& x : fcs[i].point_ids()) fpts.insert(size_t(x));
        }
        std::set<size_t> cpts; auto ids = q.point_ids(); for (auto& x : ids) cpts.insert(size_t(x));
        c.check(cpts.size() == ids.size(), "cell-repeated-vertex");
        c.check(cpts == fpts, "cell-vertices-differ-from-face-vertices", pbt::cat("cell ", k));
        used.insert(cpts.begin(), cpts.end());
        double m = cell_measure(msh, q);
        c.check(m > 0, "degenerate-cell", pbt::cat("cell ", k, " measure ", m)); r.total += m;
        k++;
    }
    c.check(k == nc, "iteration-count");
    if (all_points_used) c.check(used.size() == msh.points_size(), "unused-point", pbt::cat(used.size(), " of ", msh.points_size(), " points used"));
    size_t nb = 0;
    for (size_t i = 0; i < nf; i++) {
        size_t o = r.owners[i].size();
        c.check(o == 1 || o == 2, "face-owner-count", pbt::cat("face ", i, " has ", o, " owners"));
        if (bnd_by_owner) c.check(msh.is_boundary(fc[i]) == (o == 1), "boundary-flag", pbt::cat("face ", i, " owners ", o));
        if (msh.is_boundary(fc[i])) nb++;
    }
    c.check(msh.boundary_faces_size() == nb && msh.internal_faces_size() == nf - nb, "boundary-count");
    return r;
}

// iterators, ids and queries about boundaries agree with each other
template<typename M> void check_boundary_queries(pbt::Ctx& c, M& msh) {
    std::vector<typename M::face_type> fc(msh.faces_begin(), msh.faces_end());
    std::vector<size_t> all, inner; std::map<size_t, std::vector<size_t>> by;
    for (size_t i = 0; i < fc.size(); i++) {
        typename M::face_type::id_type fid(i);
        c.check(msh.is_boundary(fc[i]) == msh.is_boundary(fid), "is_boundary-by-id");
        auto bi = msh.boundary_info(fc[i]); c.check(bi.is_boundary() == msh.is_boundary(fid), "boundary_info");
        if (msh.is_boundary(fc[i])) { size_t id = msh.boundary_id(fc[i]); c.check(id == msh.boundary_id(fid) && id == bi.id(), "boundary_id"); by[id].push_back(i); all.push_back(i); }
        else { inner.push_back(i); bool thrown = false; try { msh.boundary_id(fc[i]); } catch (const std::invalid_argument&) { thrown = true; } c.check(thrown, "boundary_id-of-internal-face"); }
    }
    std::vector<size_t> got; for (auto it = msh.boundary_faces_begin(); it != msh.boundary_faces_end(); it++) got.push_back(offset(msh, *it));
    c.check(got == all, "boundary-iterator");
    got.clear(); for (auto it = msh.internal_faces_begin(); it != msh.internal_faces_end(); it++) got.push_back(offset(msh, *it));
    c.check(got == inner, "internal-iterator");
    std::vector<size_t> ids; for (auto& [id, v] : by) { ids.push_back(id); got.clear();
        for (auto it = msh.boundary_faces_begin(id); it != msh.boundary_faces_end(id); it++) got.push_back(offset(msh, *it));
        c.check(got == v, "boundary-with-id-iterator", pbt::cat("id ", id)); c.check(msh.boundary_faces_size(id) == v.size(), "boundary-with-id-count"); }
    c.check(msh.boundary_id_list() == ids, "boundary_id_list");
    size_t absent = ids.empty() ? 0 : ids.back() + 1;
    c.check(msh.boundary_faces_size(absent) == 0 && !(msh.boundary_faces_begin(absent) != msh.boundary_faces_end(absent)), "absent-id-iterator");
    for (auto& cl : msh) { bool any = false; for (auto& f : faces(msh, cl)) any = any || msh.is_boundary(f); c.check(has_faces_on_boundary(msh, cl) == any, "has_faces_on_boundary"); }
}

template<typename M> void check_neighbours(pbt::Ctx& c, const M& msh, const Report& r) {
    auto cv = connectivity_via_faces(msh);
    std::vector<typename M::cell_type> cl(msh.cells_begin(), msh.cells_end());
    for (size_t k = 0; k < cl.size(); k++) {
        auto fcs = faces(msh, cl[k]);
        for (size_t i = 0; i < fcs.size(); i++) {
            auto& ow = r.owners[r.cell_faces[k][i]];
            auto [nb, ok] = cv.neighbour_via(msh, cl[k], fcs[i]);
            c.check(ok == (ow.size() == 2), "neighbour-existence", pbt::cat("cell ", k, " face ", i));
            if (ok) { size_t other = ow[0] == k ? ow[1] : ow[0]; c.check(offset(msh, nb) == other, "neighbour-identity", pbt::cat("cell ", k, " face ", i, " got ", offset(msh, nb), " expected ", other)); }
        }
    }
}
// Euler characteristic of a ball
template<typename M> void check_euler(pbt::Ctx& c, const M& msh) {
    std::set<Loop> es; size_t V = msh.points_size();
    if constexpr (M::dimension == 2) c.check(V + msh.cells_size() == msh.faces_size() + 1, "euler-2d", pbt::cat(V, "-", msh.faces_size(), "+", msh.cells_size()));
    if constexpr (M::dimension == 3) {
        size_t E = msh.backend_storage()->edges.size();
        c.check(V + msh.faces_size() == E + msh.cells_size() + 1, "euler-3d", pbt::cat(V, "-", E, "+", msh.faces_size(), "-", msh.cells_size()));
    }
}
} // namespace topo
