// Writers of the mesh file formats read by the library, from reference meshes, with the elements in random order.
#pragma once
#include "refmesh.hpp"
#include <fstream>
#include <functional>

namespace mf {
using pbt::Ctx; using ref::Mesh; using ref::Loop;
inline std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
struct File { std::string ext, text; };
inline std::vector<size_t> order(Ctx& c, size_t n) { std::vector<size_t> o(n); std::iota(o.begin(), o.end(), 0); if (c.chance(70)) c.shuffle(o); return o; }
inline std::vector<std::pair<Loop,size_t>> labelled(Ctx& c, const Mesh& m) { std::vector<std::pair<Loop,size_t>> v(m.bnd.begin(), m.bnd.end()); if (c.chance(70)) c.shuffle(v); return v; }
inline size_t dom(const Mesh& m, size_t i) { return m.dom.empty() ? 0 : m.dom[i]; }
inline Loop turned(Ctx& c, Loop l) { if (c.chance(50)) std::rotate(l.begin(), l.begin() + c.draw(l.size()), l.end()); if (c.chance(40)) std::reverse(l.begin(), l.end()); return l; }

inline File netgen2(Ctx& c, const Mesh& m) {
    std::ostringstream o; o << m.pts.size() << "\n"; for (auto& p : m.pts) o << num(p[0]) << " " << num(p[1]) << "\n";
    o << m.poly.size() << "\n"; for (auto i : order(c, m.poly.size())) { o << dom(m, i); for (auto v : turned(c, m.poly[i])) o << " " << v + 1; o << "\n"; }
    auto b = labelled(c, m); o << b.size() << "\n"; for (auto& [f, id] : b) { auto g = turned(c, f); o << id << " " << g[0] + 1 << " " << g[1] + 1 << "\n"; }
    return {"mesh2d", o.str()};
}
inline File netgen3(Ctx& c, const Mesh& m) {
    std::ostringstream o; o << m.pts.size() << "\n"; for (auto& p : m.pts) o << num(p[0]) << " " << num(p[1]) << " " << num(p[2]) << "\n";
    o << m.verts.size() << "\n"; for (auto i : order(c, m.verts.size())) { o << dom(m, i); Loop l = m.verts[i]; c.shuffle(l); for (auto v : l) o << " " << v + 1; o << "\n"; }
    auto b = labelled(c, m); o << b.size() << "\n"; for (auto& [f, id] : b) { o << id; for (auto v : turned(c, f)) o << " " << v + 1; o << "\n"; }
    return {"mesh", o.str()};
}
// no numbers in these two formats: every label is 0
inline File quad(Ctx& c, const Mesh& m) {
    std::ostringstream o; o << m.pts.size() << "\n"; for (auto& p : m.pts) o << num(p[0]) << " " << num(p[1]) << "\n";
    o << m.poly.size() << "\n"; for (auto i : order(c, m.poly.size())) { auto& q = m.poly[i]; o << q[0] << " " << q[1] << " " << q[3] << " " << q[2] << "\n"; }
    auto own = ref::face_owners(m); auto b = labelled(c, m); o << b.size() << "\n";
    for (auto& [f, id] : b) { auto& q = m.poly[own[f][0]];      // x fastest, also for the edges
        for (auto& e : {Loop{q[0],q[1]}, Loop{q[0],q[3]}, Loop{q[1],q[2]}, Loop{q[3],q[2]}}) if (ref::sorted(e) == f) o << e[0] << " " << e[1] << "\n"; }
    return {"quad", o.str()};
}
inline File hex(Ctx& c, const Mesh& m) {
    std::ostringstream o; o << m.pts.size() << "\n"; for (auto& p : m.pts) o << num(p[0]) << " " << num(p[1]) << " " << num(p[2]) << "\n";
    o << m.verts.size() << "\n"; for (auto i : order(c, m.verts.size())) { for (auto v : m.verts[i]) o << v << " "; o << "\n"; }
    auto own = ref::face_owners(m); auto b = labelled(c, m); o << b.size() << "\n";
    static const int F[6][4] = {{0,2,6,4},{1,3,7,5},{0,1,3,2},{4,5,7,6},{0,4,5,1},{2,6,7,3}};
    for (auto& [f, id] : b) { auto& v = m.verts[own[f][0]]; for (auto& k : F) { Loop l{v[k[0]],v[k[1]],v[k[2]],v[k[3]]}; if (ref::sorted(l) == f) o << l[0] << " " << l[1] << " " << l[2] << " " << l[3] << "\n"; } }
    return {"hex", o.str()};
}
// blocks by number of vertices (3 to 8); edges of the boundary and labelled interfaces; all edges with their neighbours
inline File fvca5(Ctx& c, const Mesh& m, bool domains) {
    static const std::map<size_t, std::string> names{{3,"triangles"},{4,"quadrangles"},{5,"pentagons"},{6,"hexagons"},{7,"ennagons"},{8,"ettagons"}};
    std::ostringstream o; auto blank = [&] { if (c.chance(20)) o << "\n"; };
    o << (c.chance(30) ? "  vertices  " : "vertices") << "\n" << m.pts.size() << "\n"; for (auto& p : m.pts) o << num(p[0]) << " " << num(p[1]) << "\n";
    std::map<size_t, std::vector<size_t>> by; for (auto i : order(c, m.poly.size())) by[m.poly[i].size()].push_back(i);
    std::vector<size_t> kinds; for (auto& [k, v] : by) kinds.push_back(k); c.shuffle(kinds);
    std::vector<size_t> pos(m.poly.size()); size_t n = 0;
    for (auto k : kinds) { blank(); o << names.at(k) << "\n" << by[k].size() << "\n"; for (auto i : by[k]) { pos[i] = ++n; auto l = turned(c, m.poly[i]); for (size_t j = 0; j < l.size(); j++) o << (j ? " " : "") << l[j] + 1; if (domains) o << " " << dom(m, i); o << "\n"; } }
    auto own = ref::face_owners(m); std::vector<Loop> outer, inner; for (auto& [f, id] : m.bnd) (own[f].size() == 1 ? outer : inner).push_back(f);
    auto edges = [&](std::vector<Loop> v, const char* name) { c.shuffle(v); blank(); o << name << "\n" << v.size() << "\n"; for (auto& f : v) { auto g = turned(c, f); o << g[0] + 1 << " " << g[1] + 1 << "\n"; } };
    edges(outer, "edges of the boundary"); if (!inner.empty()) edges(inner, "edges of transmission");
    std::vector<Loop> all; for (auto& [f, w] : own) all.push_back(f); c.shuffle(all);
    o << "all edges\n" << all.size() << "\n"; for (auto& f : all) { auto g = turned(c, f); auto& w = own[f]; size_t a = pos[w[0]], b = w.size() == 2 ? pos[w[1]] : 0; if (c.chance(50)) std::swap(a, b); o << g[0] + 1 << " " << g[1] + 1 << " " << a << " " << b << "\n"; }
    return {"typ1", o.str()};
}
struct Topo3 { std::vector<Loop> edges; std::map<Loop, size_t> eid; std::vector<size_t> fo, fpos, co; };     // numbering used in the file
inline Topo3 topo3(Ctx& c, const Mesh& m) {
    Topo3 t; std::set<Loop> es; for (auto& f : m.faces) for (size_t i = 0; i < f.size(); i++) es.insert(ref::sorted({f[i], f[(i+1) % f.size()]}));
    t.edges.assign(es.begin(), es.end()); if (c.chance(70)) c.shuffle(t.edges); for (size_t i = 0; i < t.edges.size(); i++) t.eid[t.edges[i]] = i;
    t.fo = order(c, m.faces.size()); t.fpos.resize(m.faces.size()); for (size_t i = 0; i < t.fo.size(); i++) t.fpos[t.fo[i]] = i;
    t.co = order(c, m.ncells()); return t;
}
inline std::vector<size_t> face_edges(Ctx& c, const Topo3& t, const Loop& f) { std::vector<size_t> r; for (size_t i = 0; i < f.size(); i++) r.push_back(t.eid.at(ref::sorted({f[i], f[(i+1) % f.size()]}))); c.shuffle(r); return r; }
// shared by FVCA6 (one-based) and medit 3D (zero-based)
inline std::string blocks3(Ctx& c, const Mesh& m, bool medit) {
    auto t = topo3(c, m); size_t b = medit ? 0 : 1; std::ostringstream o; auto own = ref::face_owners(m);
    auto line = [&](const std::vector<size_t>& v) { o << v.size(); for (auto x : v) o << " " << x + b; o << "\n"; };
    o << "Vertices\n" << m.pts.size() << "\n"; for (auto& p : m.pts) o << num(p[0]) << " " << num(p[1]) << " " << num(p[2]) << "\n";
    o << (medit ? "Volumes->Faces\n" : "Volumes->faces\n") << m.ncells() << "\n"; for (auto i : t.co) { std::vector<size_t> v; for (auto f : m.cellfaces[i]) v.push_back(t.fpos[f]); c.shuffle(v); line(v); }
    o << (medit ? "Volumes->Vertices\n" : "Volumes->Verticess\n") << m.ncells() << "\n"; for (auto i : t.co) { auto v = ref::cell_verts(m, i); c.shuffle(v); line(v); }
    o << (medit ? "Faces->Edges\n" : "Faces->Edgess\n") << m.faces.size() << "\n"; for (auto f : t.fo) line(face_edges(c, t, m.faces[f]));
    o << "Faces->Vertices\n" << m.faces.size() << "\n"; for (auto f : t.fo) line(turned(c, m.faces[f]));
    o << "Faces->Control volumes\n";
    if (medit) { std::map<Loop, size_t> fi; for (size_t i = 0; i < m.faces.size(); i++) fi[ref::sorted(m.faces[i])] = i; auto l = labelled(c, m); o << l.size() << "\n"; for (auto& [f, id] : l) o << t.fpos[fi[f]] << " " << id << "\n"; }
    else { std::vector<size_t> pos(m.ncells()); for (size_t i = 0; i < t.co.size(); i++) pos[t.co[i]] = i; o << m.faces.size() << "\n"; for (auto f : t.fo) { auto& w = own[ref::sorted(m.faces[f])]; o << pos[w[0]] + 1 << " " << (w.size() == 2 ? long(pos[w[1]] + 1) : -1) << "\n"; } }
    o << "Edges\n" << t.edges.size() << "\n"; for (auto& e : t.edges) { auto g = turned(c, e); o << g[0] + b << " " << g[1] + b << "\n"; }
    return o.str();
}
inline File fvca6(Ctx& c, const Mesh& m) { std::string h; for (int i = 0; i < 16; i++) h += c.chance(50) ? "comment line 3 4\n" : "\n"; return {"msh", h + blocks3(c, m, false)}; }
inline File medit3(Ctx& c, const Mesh& m) { return {"medit3d", "MeshVersionFormatted 2\nDimension 3\n" + blocks3(c, m, true)}; }
inline File medit2(Ctx& c, const Mesh& m) {
    static const std::map<size_t, std::string> names{{3,"Triangles"},{4,"Quadrilaterals"},{5,"Pentagons"},{6,"Hexagons"}};
    std::ostringstream o; o << "MeshVersionFormatted 2\nDimension 3\nVertices\n" << m.pts.size() << "\n"; for (auto& p : m.pts) o << num(p[0]) << " " << num(p[1]) << " 0 " << c.draw(3) << "\n";
    std::map<size_t, std::vector<size_t>> by; for (auto i : order(c, m.poly.size())) by[m.poly[i].size()].push_back(i);
    std::vector<size_t> kinds; for (auto& [k, v] : by) kinds.push_back(k); c.shuffle(kinds); bool first = c.chance(30);
    auto edges = [&] { auto b = labelled(c, m); o << "Edges\n" << b.size() << "\n"; for (auto& [f, id] : b) { auto g = turned(c, f); o << g[0] + 1 << " " << g[1] + 1 << " " << id << "\n"; } };
    if (first) edges();
    for (auto k : kinds) { o << names.at(k) << "\n" << by[k].size() << "\n"; for (auto i : by[k]) { for (auto v : turned(c, m.poly[i])) o << v + 1 << " "; o << dom(m, i) << "\n"; } }
    if (!first) edges();
    o << "End\n"; return {"medit2d", o.str()};
}
inline File poly(Ctx& c, const Mesh& m) {
    std::ostringstream o; bool three = m.dim == 3; std::vector<std::string> blocks; bool scrambled = c.chance(40);     // lines carry identifiers
    auto block = [&](const std::string& name, const std::vector<std::vector<size_t>>& v) { std::ostringstream s; s << name << " " << v.size() << "\n"; std::vector<size_t> k(v.size()); std::iota(k.begin(), k.end(), 0); if (scrambled) c.shuffle(k);
        for (auto i : k) { s << i << " " << v[i].size(); for (auto x : v[i]) s << " " << x; s << "\n"; } blocks.push_back(s.str()); };
    auto groups = [&](const std::string& name, const std::map<size_t, std::vector<size_t>>& g) { std::ostringstream s; s << name << " " << g.size() << "\n"; for (auto& [id, l] : g) { auto v = l; c.shuffle(v); s << "group" << id << " " << id << " " << v.size(); for (auto x : v) s << " " << x; s << "\n"; } blocks.push_back(s.str()); };
    { std::ostringstream s; s << "*Nodes " << m.pts.size() << "\n"; std::vector<size_t> k(m.pts.size()); std::iota(k.begin(), k.end(), 0); if (scrambled) c.shuffle(k); for (auto i : k) s << i << " " << num(m.pts[i][0]) << " " << num(m.pts[i][1]) << " " << num(three ? m.pts[i][2] : 0) << "\n"; blocks.push_back(s.str()); }
    if (c.chance(30)) groups("*Nodes->Groups", {{c.draw(5), {0}}});
    std::map<size_t, std::vector<size_t>> bg, dg;
    if (three) {
        auto t = topo3(c, m); std::vector<std::vector<size_t>> ev, fe, fv, vf, vv, ve; std::map<Loop, size_t> fi;
        for (auto& e : t.edges) ev.push_back(turned(c, e));
        for (size_t i = 0; i < t.fo.size(); i++) { auto& f = m.faces[t.fo[i]]; fi[ref::sorted(f)] = i; fe.push_back(face_edges(c, t, f)); fv.push_back(turned(c, f)); }
        for (size_t i = 0; i < t.co.size(); i++) { size_t k = t.co[i]; std::vector<size_t> v; std::set<size_t> es; for (auto f : m.cellfaces[k]) { v.push_back(t.fpos[f]); for (auto e : face_edges(c, t, m.faces[f])) es.insert(e); } c.shuffle(v); vf.push_back(v); auto q = ref::cell_verts(m, k); c.shuffle(q); vv.push_back(q); ve.push_back({es.begin(), es.end()}); dg[dom(m, k)].push_back(i); }
        for (auto& [f, id] : m.bnd) bg[id].push_back(fi[f]);
        block("*Edges->Nodes", ev); block("*Faces->Edges", fe); block("*Faces->Nodes", fv); block("*Volumes->Faces", vf); block("*Volumes->Nodes", vv); if (c.chance(30)) block("*Volumes->Edges", ve);
        groups("*Faces->Groups", bg); groups("*Volumes->Groups", dg);
    } else {
        auto own = ref::face_owners(m); std::vector<Loop> es; for (auto& [f, w] : own) es.push_back(f); c.shuffle(es); std::map<Loop, size_t> id; std::vector<std::vector<size_t>> ev, fe, fv;
        for (size_t i = 0; i < es.size(); i++) { id[es[i]] = i; ev.push_back(turned(c, es[i])); } auto co = order(c, m.poly.size());
        for (size_t i = 0; i < co.size(); i++) { auto& l = m.poly[co[i]]; std::vector<size_t> e; for (size_t j = 0; j < l.size(); j++) e.push_back(id[ref::sorted({l[j], l[(j+1) % l.size()]})]); c.shuffle(e); fe.push_back(e); fv.push_back(turned(c, l)); dg[dom(m, co[i])].push_back(i); }
        for (auto& [f, b] : m.bnd) bg[b].push_back(id[f]);
        block("*Edges->Nodes", ev); block("*Faces->Edges", fe); block("*Faces->Nodes", fv); groups("*Edges->Groups", bg); groups("*Faces->Groups", dg);
    }
    if (c.chance(50)) c.shuffle(blocks);
    o << "**BeginMesh\n*Dimension " << m.dim << "\n*Version 1\n"; for (auto& b : blocks) o << b; o << "**EndMesh\n";
    return {three ? "poly3d" : "poly2d", o.str()};
}
// labels: a random part of the outer faces, sometimes interfaces; random subdomains
inline void relabel(Ctx& c, Mesh& m, bool all_outer, bool zero, bool interfaces) {
    auto own = ref::face_owners(m); m.bnd.clear(); size_t nid = zero ? 1 : c.size(1, 6); bool sparse = !all_outer && c.chance(30), inter = interfaces && c.chance(40);
    for (auto& [f, o] : own) {
        if (o.size() == 1 && !(sparse && c.draw(3) == 0)) m.bnd[f] = zero ? 0 : c.draw(nid) * (1 + 2*c.draw(2));
        if (o.size() == 2 && inter && c.draw(3) == 0) m.bnd[f] = zero ? 0 : c.draw(nid) + 1;
    }
    size_t nd = zero ? 1 : c.size(1, 4); m.dom.clear(); for (size_t i = 0; i < m.ncells(); i++) m.dom.push_back(c.draw(nd) * 3);
}
inline bool limit_vertices(const Mesh& m, size_t n) { for (auto& l : m.poly) if (l.size() > n) return false; return true; }
inline std::string save(Ctx& c, const File& f, const std::string& stem = "m") { std::string fn = c.scratch + "/" + stem + "." + f.ext; std::ofstream o(fn, std::ios::binary); o << f.text; return fn; }
} // namespace mf
