// M05: hierarchies of triangular meshes are nested, inherit labels, and points are located in the cell that contains them.
#include "topo.hpp"
#include "meshfiles.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
using namespace disk; using namespace dm;
using pbt::Ctx; using pbt::cat; using ref::P;

using V2 = std::array<double, 2>;
static std::array<V2, 3> tri(const S2& m, const S2::cell& cl) { auto p = points(m, cl); return {V2{p[0].x(), p[0].y()}, V2{p[1].x(), p[1].y()}, V2{p[2].x(), p[2].y()}}; }
static double cross(const V2& a, const V2& b, const V2& c) { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
static double margin(const std::array<V2, 3>& t, const V2& p) { double d = cross(t[0], t[1], t[2]); return std::min({cross(p, t[1], t[2])/d, cross(t[0], p, t[2])/d, cross(t[0], t[1], p)/d}); }
static S2::cell cell_at(const S2& m, size_t i) { return *std::next(m.cells_begin(), i); }

struct H { ref::Mesh m; mesh_hierarchy<double> h; size_t levels; double scale; };
static S2 level(const H& H, size_t l) { return *std::next(H.h.meshes_begin(), l); }
static void gen(Ctx& c, H& r, size_t nmax, size_t maxlev) {
    r.m = ref::gen_tri2d(c, nmax); mf::relabel(c, r.m, false, false, true); r.levels = c.size(0, maxlev); c.note << ref::describe(r.m) << " " << r.levels << " levels"; c.nontrivial(r.levels > 0 && r.m.ncells() > 1);
    S2 msh = dm::make_s2(r.m); mark_internal_faces(msh);
    if (c.chance(30)) { auto m0 = ref::gen_tri2d(c, 2); S2 other = dm::make_s2(m0); r.h.build_hierarchy(other, c.size(0, 2)); c.note << " rebuilt"; r.h.build_hierarchy(msh, r.levels); }    // built over another one
    else r.h = mesh_hierarchy<double>(msh, r.levels);
    r.scale = 0; for (auto& p : r.m.pts) r.scale = std::max({r.scale, std::fabs(p[0]), std::fabs(p[1])});
}
PROP("nested", 2500, 30000) {
    H h; gen(c, h, 3, 3); c.check(h.h.meshes_size() == h.levels + 1, "levels", cat(h.h.meshes_size()));
    c.check(h.h.coarsest_mesh().cells_size() == level(h, 0).cells_size() && h.h.finest_mesh().cells_size() == level(h, h.levels).cells_size(), "coarsest-finest");
    c.check(level(h, 0).cells_size() == h.m.ncells(), "coarsest-mesh");
    for (size_t l = 1; l <= h.levels; l++) {
        S2 a = level(h, l-1), b = level(h, l); auto sa = a.backend_storage(), sb = b.backend_storage();
        c.check(b.cells_size() == 4*a.cells_size() && b.points_size() == a.points_size() + a.faces_size() && b.faces_size() == 2*a.faces_size() + 3*a.cells_size(), "sizes", cat("level ", l, ": ", b.cells_size(), " cells ", b.points_size(), " points ", b.faces_size(), " faces"));
        auto r = topo::check(c, b, false, true); c.check(b.boundary_faces_size() == 2*a.boundary_faces_size(), "boundary-faces", cat(b.boundary_faces_size(), " from ", a.boundary_faces_size()));
        c.check(sb->subdomain_info.size() == b.cells_size(), "subdomain-infos", cat(sb->subdomain_info.size(), " for ", b.cells_size()));
        // the four children of every cell: corners at its vertices and midpoints, in any order
        std::vector<std::array<V2, 3>> ta; for (auto& cl : a) ta.push_back(tri(a, cl));
        std::vector<int> kids(ta.size(), 0); std::vector<double> area(ta.size(), 0); size_t k = 0;
        for (auto& cl : b) {
            auto t = tri(b, cl); V2 g{(t[0][0]+t[1][0]+t[2][0])/3, (t[0][1]+t[1][1]+t[2][1])/3}; size_t par = ta.size();
            for (size_t i = 0; i < ta.size(); i++) if (margin(ta[i], g) > 0.05) par = i;
            c.check(par < ta.size(), "no-parent", cat("level ", l, " cell ", k)); kids[par]++; area[par] += std::fabs(cross(t[0], t[1], t[2]));
            auto& T = ta[par]; std::vector<V2> six; for (int i = 0; i < 3; i++) { six.push_back(T[i]); six.push_back({(T[i][0]+T[(i+1)%3][0])/2, (T[i][1]+T[(i+1)%3][1])/2}); }
            for (auto& v : t) { double d = 1e300; for (auto& s : six) d = std::min(d, std::hypot(v[0]-s[0], v[1]-s[1])); c.check(d <= 1e-14*h.scale, "vertex", cat("level ", l, " cell ", k, " vertex at distance ", d)); }
            c.close(std::fabs(cross(t[0], t[1], t[2])), std::fabs(cross(T[0], T[1], T[2]))/4, 1e-9, std::fabs(cross(T[0], T[1], T[2])) + 1e-14*h.scale*h.scale/1e-9, "area", cat("level ", l, " cell ", k));
            c.check(b.domain_info(cl).id() == a.domain_info(cell_at(a, par)).id() && b.domain_info(cl).tag() == a.domain_info(cell_at(a, par)).tag(), "subdomain", cat("level ", l, " cell ", k, ": ", b.domain_info(cl).id(), " in a cell of ", a.domain_info(cell_at(a, par)).id())); k++;
        }
        for (auto n : kids) c.check(n == 4, "children", cat(n));
        // an edge lies on an edge of the previous level and is labelled as that one, or is new and has no label
        std::vector<std::array<V2, 2>> ea; std::vector<boundary_descriptor> ba; for (auto& f : faces(a)) { auto p = points(a, f); ea.push_back({V2{p[0].x(), p[0].y()}, V2{p[1].x(), p[1].y()}}); ba.push_back(a.boundary_info(f)); }
        std::vector<int> halves(ea.size(), 0); k = 0;
        for (auto& f : faces(b)) {
            auto p = points(b, f); V2 q{(p[0].x()+p[1].x())/2, (p[0].y()+p[1].y())/2}; double len = std::hypot(p[0].x()-p[1].x(), p[0].y()-p[1].y()); boundary_descriptor want; size_t on = ea.size();
            for (size_t i = 0; i < ea.size(); i++) { double L = std::hypot(ea[i][1][0]-ea[i][0][0], ea[i][1][1]-ea[i][0][1]); if (std::fabs(len - L/2) > 1e-6*L) continue; for (double s : {0.25, 0.75}) if (std::hypot(ea[i][0][0]*(1-s)+ea[i][1][0]*s-q[0], ea[i][0][1]*(1-s)+ea[i][1][1]*s-q[1]) < 1e-6*L) on = i; }
            if (on < ea.size()) { want = ba[on]; halves[on]++; }
            auto got = b.boundary_info(f); c.check(got.is_boundary() == want.is_boundary() && got.is_internal() == want.is_internal() && got.id() == want.id() && got.tag() == want.tag(), on < ea.size() ? "inherited-label" : "label-of-new-edge", cat("level ", l, " edge ", k, ": ", got.is_boundary(), got.is_internal(), " ", got.id(), "/", got.tag(), " expected ", want.is_boundary(), want.is_internal(), " ", want.id(), "/", want.tag())); k++;
        }
        for (auto n : halves) c.check(n == 2, "halves-of-an-edge", cat(n));
        topo::check_neighbours(c, b, r);
    }
}
PROP("locate", 6000, 60000) {
    H h; gen(c, h, 3, 4); size_t np = c.size(1, 12);
    for (size_t q = 0; q < np; q++) {
        // points inside, on edges and vertices of some level (exactly, or close to it)
        size_t l0 = c.draw(h.levels + 1); S2 m0 = level(h, l0); auto t = tri(m0, cell_at(m0, c.draw(m0.cells_size()))); double a = 0, b = 0; int kind = int(c.draw(5));
        if (kind == 0) { a = c.unit(); b = c.unit()*(1-a); } else if (kind == 1) { a = double(c.draw(17))/16; b = double(c.draw(17))/16*(1-a); } else if (kind == 2) { a = c.unit(); b = 0; } else if (kind == 3) { a = c.unit(); b = 1-a; } else { a = c.draw(2); b = a ? 0 : c.draw(2); }
        V2 p{(1-a-b)*t[0][0] + a*t[1][0] + b*t[2][0], (1-a-b)*t[0][1] + a*t[1][1] + b*t[2][1]}; c.label(std::vector<std::string>{"inside", "dyadic", "edge", "edge2", "vertex"}[kind]);
        std::array<V2, 3> up;
        for (size_t l = 0; l <= h.levels; l++) {
            S2 m = level(h, l); size_t id; std::string at = cat("level ", l, " point (", p[0], ",", p[1], ")");
            try { id = h.h.locate_point(typename S2::point_type(p[0], p[1]), l); } catch (const std::exception& e) { c.fail("not-found", at + ": " + e.what()); }
            c.check(id < m.cells_size(), "inexistent-cell", at); auto u = tri(m, cell_at(m, id)); double mg = margin(u, p), h1 = std::sqrt(std::fabs(cross(u[0], u[1], u[2]))), tol = 1e-13*h.scale/h1*50 + 1e-12;
            double longest = 0; for (int i = 0; i < 3; i++) longest = std::max(longest, std::hypot(u[i][0]-u[(i+1)%3][0], u[i][1]-u[(i+1)%3][1])); tol *= longest/h1;
            c.check(mg >= -tol, "cell-does-not-contain-the-point", at + cat(" smallest barycentric coordinate ", mg, " allowed ", -tol));
            if (l > 0) { V2 g{(u[0][0]+u[1][0]+u[2][0])/3, (u[0][1]+u[1][1]+u[2][1])/3}; c.check(margin(up, g) > 0.05, "located-outside-the-cell-of-the-previous-level", at); }
            up = u;
        }
    }
}
PROP("locate-barycenters", 800, 8000) {
    H h; gen(c, h, 2, 3); S2 m = level(h, h.levels); size_t k = 0;
    for (auto& cl : m) { auto t = tri(m, cl); typename S2::point_type g((t[0][0]+t[1][0]+t[2][0])/3, (t[0][1]+t[1][1]+t[2][1])/3); size_t id = h.h.locate_point(g, h.levels); c.check(id == k, "another-cell", cat("barycenter of ", k, " located in ", id)); k++; }
}
PROP("refused", 500, 10000) {
    H h; gen(c, h, 3, 2); typename S2::point_type in(0, 0); { S2 m = level(h, 0); auto t = tri(m, cell_at(m, 0)); in = typename S2::point_type((t[0][0]+t[1][0]+t[2][0])/3, (t[0][1]+t[1][1]+t[2][1])/3); }
    auto thrown = [&](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; };
    size_t over = h.levels + 1 + c.draw(3); c.check(thrown([&] { h.h.locate_point(in, over); }), "inexistent-level-accepted", cat(over, " of ", h.levels));
    mesh_hierarchy<double> none; c.check(thrown([&] { none.locate_point(in, 0); }), "empty-hierarchy-accepted");
    S2 m = level(h, 0); for (int i = 0; i < 10; i++) { V2 p{h.scale*3*c.sym(), h.scale*3*c.sym()}; double best = -1e300; for (auto& cl : m) best = std::max(best, margin(tri(m, cl), p)); if (best > -1e-3) continue; c.check(thrown([&] { h.h.locate_point(typename S2::point_type(p[0], p[1]), c.draw(h.levels + 1)); }), "outside-point-located", cat(p[0], " ", p[1])); }
}
