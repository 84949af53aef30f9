// Reference meshes: generated independently of the library, with exact
// geometric oracles (measure, centroid, integrals of polynomials).
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <numeric>

namespace ref {

struct P { double v[3]; double& operator[](size_t i) { return v[i]; } double operator[](size_t i) const { return v[i]; }
    bool operator<(const P& o) const { return std::lexicographical_compare(v, v+3, o.v, o.v+3); } bool operator==(const P& o) const { return std::equal(v, v+3, o.v); } };
inline P operator+(P a, P b) { return {a[0]+b[0], a[1]+b[1], a[2]+b[2]}; }
inline P operator-(P a, P b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
inline P operator*(double s, P a) { return {s*a[0], s*a[1], s*a[2]}; }
inline double dot(P a, P b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline P cross(P a, P b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline double norm(P a) { return std::sqrt(dot(a,a)); }

using Loop = std::vector<size_t>;

struct Mesh {
    int dim = 2;
    std::string kind;
    std::vector<P> pts;
    std::vector<Loop> poly;                     // 2D cells: ccw loops
    std::vector<Loop> faces;                    // 3D faces: planar loops
    std::vector<std::vector<size_t>> cellfaces; // 3D cells: face indices
    std::vector<Loop> verts;                    // 3D cells: vertices (hexes: x fastest; tets: any order)
    std::vector<size_t> dom;                    // subdomain of each cell
    std::map<Loop, size_t> bnd;                 // boundary id of the face with these (sorted) vertices
    size_t ncells() const { return dim == 2 ? poly.size() : cellfaces.size(); }
};

inline Loop sorted(Loop l) { std::sort(l.begin(), l.end()); return l; }

// every face (sorted vertices) with the cells that own it
inline std::map<Loop, std::vector<size_t>> face_owners(const Mesh& m) {
    std::map<Loop, std::vector<size_t>> r;
    if (m.dim == 2) {
        for (size_t c = 0; c < m.poly.size(); c++)
            for (size_t i = 0; i < m.poly[c].size(); i++)
                r[sorted({m.poly[c][i], m.poly[c][(i+1) % m.poly[c].size()]})].push_back(c);
    } else {
        for (size_t c = 0; c < m.cellfaces.size(); c++)
            for (auto f : m.cellfaces[c]) r[sorted(m.faces[f])].push_back(c);
    }
    return r;
}

/* ---------------------------------------------------------------- quadrature */
inline const std::vector<std::pair<double,double>>& gauss(int n) {      // on [0,1]
    static std::map<int, std::vector<std::pair<double,double>>> cache;
    auto& v = cache[n];
    if (v.empty()) {
        for (int i = 0; i < n; i++) {
            long double x = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), dp = 1;
            for (int it = 0; it < 100; it++) {
                long double p0 = 1, p1 = x;
                if (n == 0) break;
                for (int k = 2; k <= n; k++) { long double p2 = ((2*k-1)*x*p1 - (k-1)*p0) / k; p0 = p1; p1 = p2; }
                if (n == 1) { p1 = x; p0 = 1; }
                dp = n * (x*p1 - p0) / (x*x - 1);
                long double dx = p1 / dp; x -= dx; if (fabsl(dx) < 1e-19L) break;
            }
            v.push_back({double((1 + x) / 2), double(1 / ((1 - x*x) * dp * dp))});
        }
    }
    return v;
}

// signed integral over the simplex (v[0],...,v[k]) for k = 1,2,3 ; exact for degree deg. The
// returned value carries the sign `sgn` chosen by the caller; jac is |measure| * k!.
template<typename F> double int_segment(P a, P b, int deg, F f) {
    auto& g = gauss(deg/2 + 1); double s = 0, L = norm(b - a);
    for (auto& [t, w] : g) s += w * f(a + t*(b-a));
    return s * L;
}
template<typename F> double int_triangle(P a, P b, P c, double jac, int deg, F f) {
    auto& g = gauss((deg+1)/2 + 1); double s = 0;
    for (auto& [u, wu] : g) for (auto& [v, wv] : g)
        s += wu * wv * (1-u) * f(a + u*(b-a) + (v*(1-u))*(c-a));
    return s * jac;
}
template<typename F> double int_tet(P a, P b, P c, P d, double jac, int deg, F f) {
    auto& g = gauss((deg+2)/2 + 1); double s = 0;
    for (auto& [u, wu] : g) for (auto& [v, wv] : g) for (auto& [z, wz] : g)
        s += wu * wv * wz * (1-u)*(1-u)*(1-v) * f(a + u*(b-a) + (v*(1-u))*(c-a) + (z*(1-u)*(1-v))*(d-a));
    return s * jac;
}
// planar simple polygon given by its vertices, in 2D (z=0) or 3D; f polynomial of degree deg
template<typename F> double int_polygon(const std::vector<P>& v, int deg, F f) {
    P n{0,0,0};
    for (size_t i = 1; i + 1 < v.size(); i++) n = n + cross(v[i]-v[0], v[i+1]-v[0]);
    double nn = norm(n); if (nn == 0) return 0; n = (1/nn) * n;
    double s = 0;
    for (size_t i = 1; i + 1 < v.size(); i++) {
        double jac = dot(n, cross(v[i]-v[0], v[i+1]-v[0]));     // signed
        if (jac != 0) s += int_triangle(v[0], v[i], v[i+1], jac, deg, f);
    }
    return s;
}
inline double area(const std::vector<P>& v) { return int_polygon(v, 0, [](P){ return 1.0; }); }
inline P normal(const std::vector<P>& v) {
    P n{0,0,0};
    for (size_t i = 1; i + 1 < v.size(); i++) n = n + cross(v[i]-v[0], v[i+1]-v[0]);
    return (1/norm(n)) * n;
}
inline std::vector<P> loop_pts(const Mesh& m, const Loop& l) { std::vector<P> v; for (auto i : l) v.push_back(m.pts[i]); return v; }
inline P mean(const std::vector<P>& v) { P s{0,0,0}; for (auto& p : v) s = s + p; return (1.0/v.size()) * s; }

inline Loop cell_verts(const Mesh& m, size_t c) {
    if (m.dim == 2) return m.poly[c];
    std::set<size_t> s; for (auto f : m.cellfaces[c]) s.insert(m.faces[f].begin(), m.faces[f].end());
    return Loop(s.begin(), s.end());
}
// polyhedron bounded by planar faces, star-shaped orientation resolved from an interior point
template<typename F> double int_cell(const Mesh& m, size_t c, int deg, F f) {
    if (m.dim == 2) return int_polygon(loop_pts(m, m.poly[c]), deg, f);
    P o = mean(loop_pts(m, cell_verts(m, c)));      // interior for convex cells
    double s = 0;
    for (auto fi : m.cellfaces[c]) {
        auto v = loop_pts(m, m.faces[fi]);
        P n = normal(v);     // the cell is star-shaped w.r.t. o: every face contributes positively
        for (size_t i = 1; i + 1 < v.size(); i++) {
            P tn = cross(v[i]-v[0], v[i+1]-v[0]);
            double sg = dot(tn, n) >= 0 ? 1 : -1;
            double jac = sg * norm(tn) * std::fabs(dot(n, v[0]-o));
            if (jac != 0) s += int_tet(o, v[0], v[i], v[i+1], jac, deg, f);
        }
    }
    return s;
}
inline double measure(const Mesh& m, size_t c) { return int_cell(m, c, 0, [](P){ return 1.0; }); }
inline double diameter(const std::vector<P>& v) { double d = 0; for (auto& a : v) for (auto& b : v) d = std::max(d, norm(a-b)); return d; }

/* ---------------------------------------------------------------- generators */
struct Affine { std::array<P,3> A{{{1,0,0},{0,1,0},{0,0,1}}}; P b{0,0,0};
    P operator()(P p) const { return {dot(A[0],p)+b[0], dot(A[1],p)+b[1], dot(A[2],p)+b[2]}; } };

inline double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r *= x; return r; }

// rigid motion * per-axis scaling * (optionally) shear; positive determinant; mild conditioning
inline Affine gen_affine(pbt::Ctx& c, int dim, bool shear, double maxlog = 1.0) {
    Affine T;
    double s = std::pow(10.0, maxlog * c.sym());
    P d{1,1,1};
    for (int i = 0; i < dim; i++) d[i] = s * (1.0 + c.unit());
    double th = c.chance(50) ? 2*M_PI*c.unit() : 0;
    std::array<P,3> R{{{std::cos(th),-std::sin(th),0},{std::sin(th),std::cos(th),0},{0,0,1}}};
    if (dim == 3) {
        double ph = c.chance(50) ? M_PI*c.unit() : 0;
        std::array<P,3> Q{{{1,0,0},{0,std::cos(ph),-std::sin(ph)},{0,std::sin(ph),std::cos(ph)}}};
        std::array<P,3> RQ; for (int i=0;i<3;i++) for (int j=0;j<3;j++) { RQ[i][j]=0; for (int k=0;k<3;k++) RQ[i][j]+=R[i][k]*Q[k][j]; }
        R = RQ;
    }
    std::array<P,3> S{{{1,0,0},{0,1,0},{0,0,1}}};
    if (shear) { S[0][1] = 0.5*c.sym(); if (dim == 3) { S[0][2] = 0.5*c.sym(); S[1][2] = 0.5*c.sym(); } }
    for (int i=0;i<3;i++) for (int j=0;j<3;j++) { T.A[i][j]=0; for (int k=0;k<3;k++) T.A[i][j]+=R[i][k]*d[k]*S[k][j]; }
    if (dim == 2) { T.A[2] = {0,0,1}; T.A[0][2]=T.A[1][2]=0; }
    for (int i = 0; i < dim; i++) T.b[i] = 2*s*c.sym();
    return T;
}
inline void apply(Mesh& m, const Affine& T) { for (auto& p : m.pts) p = T(p); }

inline std::vector<double> ticks(pbt::Ctx& c, size_t n) {
    std::vector<double> t{0}; for (size_t i = 0; i < n; i++) t.push_back(t.back() + 1.0 + 0.5*c.unit());
    for (auto& x : t) x /= t.back();
    return t;
}

inline void box_boundary(Mesh& m) {     // boundary ids of the box sides: library numbering
    auto own = face_owners(m);
    for (auto& [f, cs] : own) if (cs.size() == 1) {
        auto on = [&](int ax, double v) { for (auto i : f) if (std::fabs(m.pts[i][ax]-v) > 1e-12) return false; return true; };
        size_t id = 0;
        if (m.dim == 2) { if (on(1,0)) id = 0; else if (on(0,1)) id = 1; else if (on(1,1)) id = 2; else id = 3; }
        else { if (on(2,0)) id = 0; else if (on(1,0)) id = 1; else if (on(0,0)) id = 2; else if (on(2,1)) id = 3; else if (on(1,1)) id = 4; else id = 5; }
        m.bnd[f] = id;
    }
}

inline Mesh grid2d(pbt::Ctx& c, size_t nx, size_t ny, double jitter) {
    Mesh m; m.dim = 2; m.kind = "quad";
    auto tx = ticks(c, nx), ty = ticks(c, ny);
    double h = 0.34 / std::max(nx, ny);      // jitter <= 0.5 keeps every triangle of the grid positive
    for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++) {
        P p{tx[i], ty[j], 0};
        if (jitter > 0 && i > 0 && i < nx && j > 0 && j < ny) { p[0] += jitter*h*c.sym(); p[1] += jitter*h*c.sym(); }
        m.pts.push_back(p);
    }
    for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) {
        size_t a = j*(nx+1)+i; m.poly.push_back({a, a+1, a+nx+2, a+nx+1});
    }
    return m;
}
inline Mesh tri2d(pbt::Ctx& c, size_t nx, size_t ny, double jitter) {
    Mesh g = grid2d(c, nx, ny, jitter), m; m.dim = 2; m.kind = "tri"; m.pts = g.pts;
    for (auto& q : g.poly) {
        if (c.draw(2)) { m.poly.push_back({q[0],q[1],q[2]}); m.poly.push_back({q[0],q[2],q[3]}); }
        else { m.poly.push_back({q[0],q[1],q[3]}); m.poly.push_back({q[1],q[2],q[3]}); }
    }
    return m;
}
inline void compact_points(Mesh& m) {
    std::vector<long> mp(m.pts.size(), -1); std::vector<P> np;
    auto see = [&](Loop& l) { for (auto& v : l) { if (mp[v] < 0) { mp[v] = np.size(); np.push_back(m.pts[v]); } v = mp[v]; } };
    for (auto& l : m.poly) see(l);
    for (auto& l : m.faces) see(l);
    for (auto& l : m.verts) see(l);
    m.pts = np;
}
inline double signed_area2(const Mesh& m, const Loop& l) {
    double s = 0; for (size_t i = 0; i < l.size(); i++) { auto& a = m.pts[l[i]]; auto& b = m.pts[l[(i+1)%l.size()]]; s += a[0]*b[1]-a[1]*b[0]; } return s/2;
}
inline bool is_convex(const Mesh& m, const Loop& l, double tol = -1e-12) {
    for (size_t i = 0; i < l.size(); i++) { P a = m.pts[l[i]], b = m.pts[l[(i+1)%l.size()]], d = m.pts[l[(i+2)%l.size()]];
        if (cross(b-a, d-b)[2] < tol) return false; }
    return true;
}
// the vertex average lies in the kernel (star-shapedness w.r.t. it)
inline bool star_wrt_mean(const Mesh& m, const Loop& l, double tol = 1e-9) {
    P o = mean(loop_pts(m, l));
    for (size_t i = 0; i < l.size(); i++) { P a = m.pts[l[i]], b = m.pts[l[(i+1)%l.size()]]; if (cross(a-o, b-o)[2] <= tol) return false; }
    return true;
}
// merges random pairs of edge-neighbours; keeps simple polygons. convex: only convex results
inline void agglomerate(pbt::Ctx& c, Mesh& m, int times, bool convex, bool star) {
    for (int t = 0; t < times && m.poly.size() > 1; t++) {
        size_t a = c.draw(m.poly.size());
        // neighbours of a
        std::map<Loop, size_t> own;
        std::vector<size_t> nb;
        auto& A = m.poly[a];
        std::set<Loop> ea; for (size_t i = 0; i < A.size(); i++) ea.insert(sorted({A[i], A[(i+1)%A.size()]}));
        for (size_t b = 0; b < m.poly.size(); b++) if (b != a) { auto& B = m.poly[b];
            for (size_t i = 0; i < B.size(); i++) if (ea.count(sorted({B[i], B[(i+1)%B.size()]}))) { nb.push_back(b); break; } }
        if (nb.empty()) continue;
        size_t b = nb[c.draw(nb.size())];
        auto& B = m.poly[b];
        std::map<size_t, size_t> next; bool bad = false;
        std::set<Loop> eb; for (size_t i = 0; i < B.size(); i++) eb.insert(sorted({B[i], B[(i+1)%B.size()]}));
        auto add = [&](const Loop& L, const std::set<Loop>& other) { for (size_t i = 0; i < L.size(); i++) { size_t u = L[i], v = L[(i+1)%L.size()];
            if (other.count(sorted({u,v}))) continue; if (next.count(u)) bad = true; next[u] = v; } };
        add(A, eb); add(B, ea);
        if (bad || next.empty()) continue;
        Loop L; size_t s = next.begin()->first, v = s;
        do { L.push_back(v); if (!next.count(v)) { bad = true; break; } v = next[v]; } while (v != s && L.size() <= next.size());
        if (bad || L.size() != next.size()) continue;
        if (L.size() > 14) continue;
        if (convex && !is_convex(m, L, 1e-9)) continue;
        if (star && !star_wrt_mean(m, L)) continue;
        m.poly[a] = L; m.poly.erase(m.poly.begin() + b);
    }
    m.kind += convex ? "+aggl" : "+nonconvex-aggl";
    compact_points(m);
}
inline void hang_nodes(pbt::Ctx& c, Mesh& m, int times) {
    for (int t = 0; t < times; t++) {
        size_t a = c.draw(m.poly.size()), i = c.draw(m.poly[a].size());
        size_t u = m.poly[a][i], v = m.poly[a][(i+1)%m.poly[a].size()];
        double s = 0.3 + 0.4*c.unit(); size_t w = m.pts.size(); m.pts.push_back(m.pts[u] + s*(m.pts[v]-m.pts[u]));
        for (auto& L : m.poly) for (size_t k = 0; k < L.size(); k++) { size_t p = L[k], q = L[(k+1)%L.size()];
            if ((p==u&&q==v)||(p==v&&q==u)) { L.insert(L.begin()+k+1, w); break; } }
    }
    m.kind += "+hanging";
}
inline Mesh honeycomb(pbt::Ctx& c, size_t n) {
    // brick-offset layout: rows of bricks, each with 6 vertices (convex hexagons after jitter in y)
    Mesh m; m.dim = 2; m.kind = "hexagons";
    std::map<std::pair<int,int>, size_t> id;
    double amp = 0.2 + 0.6*c.unit();
    auto vtx = [&](int i, int j) { auto k = std::make_pair(i,j); auto it = id.find(k); if (it != id.end()) return it->second;
        double off = ((i + j) % 2 == 0) ? amp/2 : -amp/2; size_t r = m.pts.size(); m.pts.push_back({0.5*i, j + 0.5*off, 0}); id[k] = r; return r; };
    for (int j = 0; j < (int)n; j++) for (int i = 0; i < (int)n; i++) {
        int x = 2*i + (j % 2 == 0 ? 0 : 1);
        // bottom row j: x, x+1, x+2 ; top row j+1. bottom middle vertex must be lowered
        m.poly.push_back({vtx(x,j), vtx(x+1,j), vtx(x+2,j), vtx(x+2,j+1), vtx(x+1,j+1), vtx(x,j+1)});
    }
    return m;
}
inline void add_domains(pbt::Ctx& c, Mesh& m) {
    size_t nd = c.size(1, 3); m.dom.clear();
    for (size_t i = 0; i < m.ncells(); i++) m.dom.push_back(c.draw(nd));
}
inline void permute(pbt::Ctx& c, Mesh& m) {     // renumber points and cells at random, rotate loops
    std::vector<size_t> p(m.pts.size()); std::iota(p.begin(), p.end(), 0); c.shuffle(p);
    std::vector<P> np(m.pts.size()); for (size_t i = 0; i < p.size(); i++) np[p[i]] = m.pts[i];
    m.pts = np;
    for (auto& l : m.poly) { for (auto& v : l) v = p[v]; std::rotate(l.begin(), l.begin() + c.draw(l.size()), l.end()); }
    for (auto& l : m.faces) { for (auto& v : l) v = p[v]; std::rotate(l.begin(), l.begin() + c.draw(l.size()), l.end()); }
    for (auto& l : m.verts) for (auto& v : l) v = p[v];
    std::map<Loop, size_t> nb; for (auto& [f, i] : m.bnd) { Loop g = f; for (auto& v : g) v = p[v]; nb[sorted(g)] = i; } m.bnd = nb;
    if (m.dim == 2) { c.shuffle(m.poly); }
    else {
        std::vector<size_t> q(m.cellfaces.size()); std::iota(q.begin(), q.end(), 0); c.shuffle(q);
        auto cf = m.cellfaces; auto vv = m.verts;
        for (size_t i = 0; i < q.size(); i++) { m.cellfaces[i] = cf[q[i]]; if (!vv.empty()) m.verts[i] = vv[q[i]]; }
        for (auto& l : m.cellfaces) std::rotate(l.begin(), l.begin() + c.draw(l.size()), l.end());
        if (m.kind != "hex") for (auto& l : m.verts) if (!l.empty()) std::rotate(l.begin(), l.begin() + c.draw(l.size()), l.end());
    }
}

inline void permute_keep(pbt::Ctx& c, Mesh& m) {     // renumber points and cells, keep the order of the corners
    std::vector<size_t> p(m.pts.size()); std::iota(p.begin(), p.end(), 0); c.shuffle(p);
    std::vector<P> np(m.pts.size()); for (size_t i = 0; i < p.size(); i++) np[p[i]] = m.pts[i];
    m.pts = np;
    for (auto* ls : {&m.poly, &m.faces, &m.verts}) for (auto& l : *ls) for (auto& v : l) v = p[v];
    std::map<Loop, size_t> nb; for (auto& [f, i] : m.bnd) { Loop g = f; for (auto& v : g) v = p[v]; nb[sorted(g)] = i; } m.bnd = nb;
}

enum Want { ANY, CONVEX, STAR };
// unit-square polygonal mesh
inline Mesh gen_poly_unit(pbt::Ctx& c, size_t nmax, Want want) {
    size_t nx = c.size(1, nmax), ny = c.size(1, nmax);
    int k = (int)c.draw(6);
    Mesh m;
    switch (k) {
        case 0: m = grid2d(c, nx, ny, 0.5); break;
        case 1: m = tri2d(c, nx, ny, 0.5); break;
        case 2: m = tri2d(c, nx, ny, 0.5); agglomerate(c, m, (int)(nx*ny), want != ANY && want != STAR, want != ANY); break;
        case 3: m = grid2d(c, nx, ny, 0.4); hang_nodes(c, m, (int)c.range(1, 3)); break;
        case 4: m = grid2d(c, nx, ny, 0.4); agglomerate(c, m, (int)(nx*ny/2+1), want == CONVEX, want != ANY); break;
        default: m = honeycomb(c, std::min(nx, ny)); break;
    }
    return m;
}
inline Mesh gen_poly2d(pbt::Ctx& c, size_t nmax, Want want, bool affine = true) {
    Mesh m = gen_poly_unit(c, nmax, want);
    box_boundary(m); add_domains(c, m);
    if (affine) apply(m, gen_affine(c, 2, true));
    if (c.chance(50)) permute(c, m);
    return m;
}
inline Mesh gen_tri2d(pbt::Ctx& c, size_t nmax, bool affine = true) {
    Mesh m = tri2d(c, c.size(1, nmax), c.size(1, nmax), 0.5); box_boundary(m); add_domains(c, m);
    if (affine) apply(m, gen_affine(c, 2, true));
    if (c.chance(50)) permute(c, m);
    return m;
}
inline Mesh gen_rect2d(pbt::Ctx& c, size_t nmax, bool affine = true) {     // rectangles (rotated, scaled per axis)
    Mesh m = grid2d(c, c.size(1, nmax), c.size(1, nmax), 0); box_boundary(m); add_domains(c, m);
    if (affine) apply(m, gen_affine(c, 2, false));
    return m;
}

/* 3D */
inline size_t face_id(Mesh& m, std::map<Loop, size_t>& ids, const Loop& l) {
    Loop s = sorted(l); auto it = ids.find(s); if (it != ids.end()) return it->second;
    ids[s] = m.faces.size(); m.faces.push_back(l); return m.faces.size() - 1;
}
inline Mesh hex3d(pbt::Ctx& c, size_t nx, size_t ny, size_t nz) {
    Mesh m; m.dim = 3; m.kind = "hex"; auto tx = ticks(c, nx), ty = ticks(c, ny), tz = ticks(c, nz);
    for (size_t k = 0; k <= nz; k++) for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++) m.pts.push_back({tx[i], ty[j], tz[k]});
    std::map<Loop, size_t> ids;
    auto v = [&](size_t i, size_t j, size_t k) { return (k*(ny+1)+j)*(nx+1)+i; };
    for (size_t k = 0; k < nz; k++) for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) {
        Loop p; for (int b = 0; b < 8; b++) p.push_back(v(i+(b&1), j+((b>>1)&1), k+((b>>2)&1)));
        m.verts.push_back(p);
        m.cellfaces.push_back({face_id(m,ids,{p[0],p[2],p[6],p[4]}), face_id(m,ids,{p[1],p[3],p[7],p[5]}), face_id(m,ids,{p[0],p[1],p[3],p[2]}),
                               face_id(m,ids,{p[4],p[5],p[7],p[6]}), face_id(m,ids,{p[0],p[4],p[5],p[1]}), face_id(m,ids,{p[2],p[6],p[7],p[3]})});
    }
    return m;
}
inline void tets_to_faces(Mesh& m) {
    std::map<Loop, size_t> ids; m.faces.clear(); m.cellfaces.clear();
    for (auto& t : m.verts) m.cellfaces.push_back({face_id(m,ids,{t[0],t[1],t[2]}), face_id(m,ids,{t[0],t[1],t[3]}), face_id(m,ids,{t[0],t[2],t[3]}), face_id(m,ids,{t[1],t[2],t[3]})});
}
inline Mesh tet3d(pbt::Ctx& c, size_t nx, size_t ny, size_t nz) {
    Mesh h = hex3d(c, nx, ny, nz), m; m.dim = 3; m.kind = "tet"; m.pts = h.pts;
    double hh = 0.25 / std::max({nx, ny, nz}); 
    std::vector<P> d(m.pts.size(), P{0,0,0}); for (size_t i = 0; i < m.pts.size(); i++) { auto& p = m.pts[i]; bool in = true; for (int a = 0; a < 3; a++) in = in && p[a] > 1e-9 && p[a] < 1 - 1e-9; if (in) for (int a = 0; a < 3; a++) d[i][a] = hh*c.sym(); }
    static const int K[6][4] = {{0,1,3,7},{0,1,5,7},{0,2,3,7},{0,2,6,7},{0,4,5,7},{0,4,6,7}};
    for (auto& v : h.verts) for (auto& k : K) m.verts.push_back({v[k[0]],v[k[1]],v[k[2]],v[k[3]]});
    auto six = [&](const Loop& v) { return dot(m.pts[v[1]]-m.pts[v[0]], cross(m.pts[v[2]]-m.pts[v[0]], m.pts[v[3]]-m.pts[v[0]])); };
    for (int it = 0; it < 12; it++) { // the largest fraction of the perturbation that keeps every tetrahedron non-degenerate
        bool ok = true; double t = it == 11 ? 0 : std::ldexp(1.0, -it);
        for (size_t i = 0; i < m.pts.size(); i++) m.pts[i] = h.pts[i];
        std::vector<double> s0; for (auto& v : m.verts) s0.push_back(six(v));
        for (size_t i = 0; i < m.pts.size(); i++) m.pts[i] = h.pts[i] + t*d[i];
        for (size_t i = 0; i < m.verts.size() && ok; i++) ok = six(m.verts[i])/s0[i] > 0.02;
        if (ok) break;
    }
    tets_to_faces(m);
    return m;
}
inline Mesh prism3d(pbt::Ctx& c, const Mesh& b, size_t nz) {
    Mesh m; m.dim = 3; m.kind = "prism(" + b.kind + ")"; auto tz = ticks(c, nz); size_t n = b.pts.size();
    for (size_t k = 0; k <= nz; k++) for (auto p : b.pts) m.pts.push_back({p[0], p[1], tz[k]});
    std::map<Loop, size_t> ids;
    for (size_t k = 0; k < nz; k++) for (auto& q : b.poly) {
        std::vector<size_t> cf; Loop lo, hi; for (auto v : q) { lo.push_back(v+k*n); hi.push_back(v+(k+1)*n); }
        cf.push_back(face_id(m, ids, lo));
        for (size_t i = 0; i < q.size(); i++) { size_t j = (i+1)%q.size(); cf.push_back(face_id(m, ids, {lo[i],lo[j],hi[j],hi[i]})); }
        cf.push_back(face_id(m, ids, hi)); m.cellfaces.push_back(cf); m.verts.push_back({});
    }
    for (size_t i = 0; i < m.cellfaces.size(); i++) m.verts[i] = cell_verts(m, i);
    return m;
}
inline Mesh pyramids3d(pbt::Ctx& c, size_t nx, size_t ny, size_t nz) {     // each box split in 6 pyramids
    Mesh h = hex3d(c, nx, ny, nz), m; m.dim = 3; m.kind = "pyramids"; m.pts = h.pts; std::map<Loop, size_t> ids;
    for (size_t i = 0; i < h.cellfaces.size(); i++) {
        P o = mean(loop_pts(h, h.verts[i])); size_t a = m.pts.size(); m.pts.push_back(o);
        for (auto f : h.cellfaces[i]) { Loop l = h.faces[f]; std::vector<size_t> cf{face_id(m, ids, l)};
            for (size_t k = 0; k < 4; k++) cf.push_back(face_id(m, ids, {l[k], l[(k+1)%4], a}));
            m.cellfaces.push_back(cf); Loop vv = l; vv.push_back(a); m.verts.push_back(vv); }
    }
    return m;
}
inline Mesh gen_poly3d(pbt::Ctx& c, size_t nmax, bool affine = true) {
    Mesh m; int k = (int)c.draw(4);
    if (k == 0) m = hex3d(c, c.size(1,nmax), c.size(1,nmax), c.size(1,nmax));
    else if (k == 1) m = tet3d(c, 1, c.size(1,nmax), 1);
    else if (k == 2) { Mesh b = gen_poly_unit(c, nmax, CONVEX); m = prism3d(c, b, c.size(1, nmax)); }
    else m = pyramids3d(c, c.size(1,nmax), 1, 1);
    m.kind = "generic-" + m.kind;
    box_boundary(m); add_domains(c, m);
    if (affine) apply(m, gen_affine(c, 3, true));
    if (c.chance(50)) permute(c, m);
    return m;
}
inline Mesh gen_tet3d(pbt::Ctx& c, size_t nmax, bool affine = true) {
    Mesh m = tet3d(c, c.size(1,nmax), c.size(1,nmax), c.size(1,nmax)); box_boundary(m); add_domains(c, m);
    if (affine) apply(m, gen_affine(c, 3, true));
    if (c.chance(50)) permute(c, m);
    return m;
}
inline Mesh gen_hex3d(pbt::Ctx& c, size_t nmax, bool affine = true) {
    Mesh m = hex3d(c, c.size(1,nmax), c.size(1,nmax), c.size(1,nmax)); box_boundary(m); add_domains(c, m);
    if (affine) apply(m, gen_affine(c, 3, false));
    return m;
}
inline Mesh restrict_to(const Mesh& m, size_t c) {      // single cell as its own mesh
    Mesh r; r.dim = m.dim; r.kind = m.kind; r.pts = m.pts; if (!m.dom.empty()) r.dom = {m.dom[c]};
    if (m.dim == 2) r.poly = {m.poly[c]};
    else { std::vector<size_t> cf; for (auto f : m.cellfaces[c]) { cf.push_back(r.faces.size()); r.faces.push_back(m.faces[f]); } r.cellfaces = {cf}; r.verts = {m.verts[c]}; }
    compact_points(r);
    return r;
}
// a single random polygon (cell of its own mesh); star shaped around the origin
inline Mesh gen_polygon(pbt::Ctx& c, size_t nmin, size_t nmax, bool convex) {
    Mesh m; m.dim = 2; m.kind = convex ? "convex-polygon" : "star-polygon"; size_t n = c.size(nmin, nmax); Loop l;
    for (size_t i = 0; i < n; i++) {
        double th = 2*M_PI*(i + 0.6*c.unit())/n, r = convex ? 1.0 : (0.45 + 0.55*c.unit());
        m.pts.push_back({r*std::cos(th), r*std::sin(th), 0}); l.push_back(i);
    }
    m.poly = {l}; m.dom = {c.draw(3)}; for (auto& [f, o] : face_owners(m)) m.bnd[f] = c.draw(4);
    apply(m, gen_affine(c, 2, true));
    return m;
}
inline std::string describe(const Mesh& m) {
    std::string s = pbt::cat(m.kind, " mesh, ", m.ncells(), " cells, ", m.pts.size(), " points");
    if (m.ncells() <= 2 && m.pts.size() <= 10) { s += " {"; for (auto& p : m.pts) s += pbt::cat("(", p[0], ",", p[1], m.dim == 3 ? pbt::cat(",", p[2]) : std::string(), ")"); s += "}"; }
    return s;
}
} // namespace ref
