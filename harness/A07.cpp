// A07: degree bookkeeping (mesh, cell, face) against a reference map, and the numbering of local unknowns derived from it.
#include "hho.hpp"
using namespace disk; using namespace hh;
struct R { bool u; size_t k; };
static bool eq(const DegreeInfo& a, const R& b) { return a.hasUnknowns() == b.u && a.degree() == b.k; }
static std::string sh(const DegreeInfo& a) { return cat("(", a.hasUnknowns(), ",", a.degree(), ")"); }
static std::string sh(const R& a) { return cat("(", a.u, ",", a.k, ")"); }

template<typename M> static void run(Ctx& c, const ref::Mesh& m, M& msh, const std::vector<size_t>& cm) {
    constexpr int d = M::dimension; const size_t nc = msh.cells_size(), nf = msh.faces_size(); (void)cm;
    c.note << ref::describe(m); c.label(m.kind);
    // reference
    std::vector<R> C, F, G, Q; MeshDegreeInfo<M> mdi; std::ostringstream h; size_t how = c.draw(4);
    size_t k = c.draw(4), f = c.draw(4), g = c.draw(4);
    if (how == 0) { mdi = MeshDegreeInfo<M>(msh, k); C.assign(nc, {true,k}); F.assign(nf, {true,k}); G.assign(nc, {true,k}); Q.assign(nc, {true,k+1}); }
    else if (how == 1) { mdi = MeshDegreeInfo<M>(msh, k, f); C.assign(nc, {true,k}); F.assign(nf, {true,f}); G.assign(nc, {true,f}); Q.assign(nc, {true,f+1}); }
    else if (how == 2) { mdi = MeshDegreeInfo<M>(msh, k, f, g); C.assign(nc, {true,k}); F.assign(nf, {true,f}); G.assign(nc, {true,g}); Q.assign(nc, {true,f+1}); }
    else { mdi = MeshDegreeInfo<M>(msh); C.assign(nc, {false,0}); F.assign(nf, {false,0}); G = C; Q = C; }
    h << " init" << how << " " << k << f << g;
    std::vector<typename M::cell_type> cls(msh.cells_begin(), msh.cells_end()); std::vector<typename M::face_type> fcs(msh.faces_begin(), msh.faces_end());
    size_t nops = c.size(0, 12);
    for (size_t t = 0; t < nops; t++) {
        size_t op = c.draw(6), ci = c.draw(nc), fi = c.draw(nf), kk = c.draw(4); bool u = c.chance(60);
        switch (op) {
        case 0: mdi.degree(msh, cls[ci], kk); C[ci].k = kk; h << " c" << ci << "=" << kk; break;
        case 1: mdi.degree(msh, fcs[fi], kk); F[fi].k = kk; h << " f" << fi << "=" << kk; break;
        case 2: mdi.hasUnknowns(msh, cls[ci], u); C[ci].u = u; h << " cu" << ci << "=" << u; break;
        case 3: mdi.hasUnknowns(msh, fcs[fi], u); F[fi].u = u; h << " fu" << fi << "=" << u; break;
        case 4: mdi.degreeInfo(msh, cls[ci], DegreeInfo(u, kk)); C[ci] = {u, kk}; h << " C" << ci << "=" << u << kk; break;
        default: mdi.degreeInfo(msh, fcs[fi], DegreeInfo(u, kk)); F[fi] = {u, kk}; h << " F" << fi << "=" << u << kk; break; }
    }
    c.note << h.str(); c.nontrivial(nops > 0 && nc > 1);
    const auto& q = mdi; auto ac = q.cells_degree(), af = q.faces_degree(); c.check(ac.size() == nc && af.size() == nf, "sizes");
    for (size_t i = 0; i < nc; i++) { auto di = q.degreeInfo(msh, cls[i]); c.check(eq(di, C[i]) && eq(ac[i], C[i]) && q.degree(msh, cls[i]) == C[i].k && q.hasUnknowns(msh, cls[i]) == C[i].u, "cell", cat("cell ", i, " got ", sh(di), " expected ", sh(C[i]))); }
    for (size_t i = 0; i < nf; i++) { auto di = q.degreeInfo(msh, fcs[i]); c.check(eq(di, F[i]) && eq(af[i], F[i]) && q.degree(msh, fcs[i]) == F[i].k && q.hasUnknowns(msh, fcs[i]) == F[i].u, "face", cat("face ", i, " got ", sh(di), " expected ", sh(F[i]))); }
    for (size_t i = 0; i < nc; i++) {
        auto w = cat("cell ", i); auto cdi = q.cellDegreeInfo(msh, cls[i]); auto fs = faces(msh, cls[i]); auto fd = cdi.facesDegreeInfo(), fd2 = q.degreeInfo(msh, fs);
        c.check(cdi.cell_degree() == C[i].k && cdi.cell_hasUnknowns() == C[i].u && eq(cdi.cellDegreeInfo(), C[i]), "cell-info", w);
        c.check(cdi.grad_degree() == G[i].k && cdi.grad_hasUnknowns() == G[i].u && eq(cdi.gradientDegreeInfo(), G[i]), "gradient-info", w);
        c.check(cdi.reconstruction_degree() == Q[i].k && cdi.reconstruction_hasUnknowns() == Q[i].u && eq(cdi.reconstructionDegreeInfo(), Q[i]), "reconstruction-info", w);
        c.check(fd.size() == fs.size() && fd2.size() == fs.size(), "faces-info-size", w);
        size_t so = 0, vo = 0; auto os = scalar_faces_offset(msh, cls[i], mdi), ov = vector_faces_offset(msh, cls[i], mdi); c.check(os.size() == fs.size() && ov.size() == fs.size(), "offsets-size", w);
        for (size_t j = 0; j < fs.size(); j++) {
            size_t id = offset(msh, fs[j]); auto wf = cat(w, " face ", j, " (", id, ")");
            c.check(eq(fd[j], F[id]) && eq(fd2[j], F[id]), "shared-face-info", cat(wf, " got ", sh(fd[j]), " expected ", sh(F[id])));
            size_t sb = F[id].u ? bs::dimP(F[id].k, d-1) : 0, vb = sb*d;
            c.check(scalar_face_dofs(msh, fd[j]) == sb && vector_face_dofs(msh, fd[j]) == vb, "face-unknowns", wf);
            c.check(os[j] == so && ov[j] == vo, "face-offset", cat(wf, " scalar ", os[j], " expected ", so, " vector ", ov[j], " expected ", vo)); so += sb; vo += vb;
        }
        c.check(scalar_faces_dofs(msh, fd) == so && scalar_faces_dofs(msh, cls[i], mdi) == so && vector_faces_dofs(msh, fd) == vo && vector_faces_dofs(msh, cls[i], mdi) == vo, "unknowns-of-faces", w);
    }
    // interpolation: one block per cell and face with unknowns, in that order, each the projection on its own element
    size_t i = c.draw(nc); if (C[i].u || true) {
        auto w = cat("interpolate on cell ", i); auto fs = faces(msh, cls[i]); Cell<M> K(m, msh, cm, i);
        auto s = K.sfun(poly(c, 3, K.v, d)); std::vector<Sum> vs; for (int a = 0; a < d; a++) vs.push_back(poly(c, 2, K.v, d)); auto v = K.vfun(vs);
        Vec x = project_function(msh, cls[i], mdi, s, 2), y = project_function(msh, cls[i], mdi, v, 2); size_t o = bs::dimP(C[i].k, d), p = o*d;
        size_t n = o, l = p; for (auto& fc : fs) { auto& r = F[offset(msh, fc)]; if (r.u) { n += bs::dimP(r.k, d-1); l += d*bs::dimP(r.k, d-1); } }
        c.check(size_t(x.size()) == n && size_t(y.size()) == l, "interpolate-size", cat(w, " got ", x.size(), ",", y.size(), " expected ", n, ",", l));
        auto same = [&](const Vec& a, const Vec& b, const char* key) { c.check(a.size() == b.size() && (a.size() == 0 || (a-b).cwiseAbs().maxCoeff() <= 1e-11*(1 + b.cwiseAbs().maxCoeff())), key, w); };
        same(x.head(o), project_function(msh, cls[i], C[i].k, s, 2), "interpolate-cell"); same(y.head(p), project_function(msh, cls[i], C[i].k, v, 2), "interpolate-cell-vector");
        for (auto& fc : fs) { auto& r = F[offset(msh, fc)]; if (!r.u) continue; size_t a = bs::dimP(r.k, d-1), b = a*d;
            same(x.segment(o, a), project_function(msh, fc, r.k, s, 2), "interpolate-face"); same(y.segment(p, b), project_function(msh, fc, r.k, v, 2), "interpolate-face-vector"); o += a; p += b; }
    }
    // infos of a single cell
    { size_t i = c.draw(nc), n = howmany_faces(msh, cls[i]); auto w = "cell constructor"; auto all = [&](const CellDegreeInfo<M>& x, size_t cd, size_t fd, size_t gd, size_t rd) {
        c.check(x.cell_degree() == cd && x.grad_degree() == gd && x.reconstruction_degree() == rd && x.cell_hasUnknowns() && x.grad_hasUnknowns() && x.reconstruction_hasUnknowns(), "cell-constructor", w);
        auto v = x.facesDegreeInfo(); c.check(v.size() == n, "cell-constructor-faces", w); for (auto& z : v) c.check(eq(z, {true, fd}), "cell-constructor-faces", w); };
      all(CellDegreeInfo<M>(msh, cls[i], k), k, k, k, k+1); all(CellDegreeInfo<M>(msh, cls[i], k, f), k, f, f, f+1); all(CellDegreeInfo<M>(msh, cls[i], k, f, g), k, f, g, f+1);
      std::vector<DegreeInfo> fi; for (size_t j = 0; j < n; j++) fi.push_back(DegreeInfo(c.chance(50), size_t(c.draw(4))));
      for (int t = 0; t < 2; t++) { CellDegreeInfo<M> x = t ? CellDegreeInfo<M>(k, f, g, fi) : CellDegreeInfo<M>(DegreeInfo(k), DegreeInfo(f), DegreeInfo(g), fi); c.check(x.cell_degree() == k && x.reconstruction_degree() == f && x.grad_degree() == g, "cell-constructor-explicit", w); auto v = x.facesDegreeInfo(); c.check(v.size() == n, "cell-constructor-explicit", w); for (size_t j = 0; j < n; j++) c.check(eq(v[j], {fi[j].hasUnknowns(), fi[j].degree()}), "cell-constructor-explicit", w); }
    }
}
PROP("generic-2d", 12000, 120000) { on_g2(c, [](auto& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm); }); }
PROP("triangles", 12000, 120000) { on_s2(c, [](auto& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm); }); }
PROP("rectangles", 3000, 90000) { on_c2(c, [](auto& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm); }); }
PROP("generic-3d", 1200, 25000) { on_g3(c, [](auto& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm); }); }
PROP("tetrahedra", 1500, 30000) { on_s3(c, [](auto& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm); }); }
PROP("boxes", 1500, 30000) { on_c3(c, [](auto& c, auto& m, auto& msh, auto& cm) { run(c, m, msh, cm); }); }
// the degrees of the method: an admissible triple is kept, the reconstruction is one above the faces
PROP("method-degrees", 2000, 20000) {
    size_t cd = c.draw(8), fd = c.draw(8), gd = c.draw(10); c.note << cd << " " << fd << " " << gd; c.nontrivial(true);
    bool ok = cd + 1 == fd || cd == fd || cd == fd + 1; { std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf());
        hho_degree_info e, a(cd), x(cd, fd), y(cd, fd, gd); std::cout.rdbuf(b);
        c.check(e.cell_degree() == 1 && e.face_degree() == 1 && e.grad_degree() == 1 && e.reconstruction_degree() == 2, "default");
        c.check(a.cell_degree() == cd && a.face_degree() == cd && a.grad_degree() == cd && a.reconstruction_degree() == cd+1, "equal-order");
        c.check(x.cell_degree() == (ok ? cd : fd) && x.face_degree() == fd && x.grad_degree() == fd && x.reconstruction_degree() == fd+1, "pair", cat("got ", x.cell_degree(), " ", x.face_degree(), " ", x.grad_degree()));
        if (ok && gd >= fd) c.check(y.cell_degree() == cd && y.face_degree() == fd && y.grad_degree() == gd && y.reconstruction_degree() == fd+1, "triple");
        size_t n1 = c.draw(9), n2 = c.draw(9), n3 = c.draw(9); y.cell_degree(n1); y.face_degree(n2); y.reconstruction_degree(n3); c.check(y.cell_degree() == n1 && y.face_degree() == n2 && y.reconstruction_degree() == n3, "setters"); }
}
