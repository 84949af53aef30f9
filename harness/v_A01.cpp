// A01: global assembly against a dense reference. Nothing is assumed about the global numbering: it is recovered from the way
// a solution is distributed back, required to be a bijection shared by neighbouring cells, and then used to build the reference system.
#include "hho.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
#if FAM == 5
#include "diskpp/methods/hho_assemblers.hpp"
#endif
using namespace disk; using namespace hh;
template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

template<typename M> struct Sys {
    static constexpr int d = M::dimension; Ctx& c; const ref::Mesh& m; const M& msh; std::vector<Cell<M>> C; std::vector<std::vector<size_t>> fid; std::vector<std::pair<size_t,size_t>> own; std::vector<typename M::face_type> fcs; std::vector<long> label;
    std::vector<size_t> nd; std::vector<std::vector<char>> pres; std::vector<Vec> val; std::vector<std::vector<long>> slot; size_t N = 0; double q = 1e-13;
    Sys(Ctx& cc, const ref::Mesh& rm, const M& mm, const std::vector<size_t>& cm) : c(cc), m(rm), msh(mm) {
        size_t nf = msh.faces_size(); own.assign(nf, {size_t(-1), 0}); for (size_t i = 0; i < msh.cells_size(); i++) { C.emplace_back(m, msh, cm, i); std::vector<size_t> id; for (size_t f = 0; f < C[i].fcs.size(); f++) { id.push_back(msh.lookup(C[i].fcs[f])); own[id.back()] = {i, f}; } fid.push_back(id); q = std::max(q, C[i].q); }
        fcs.assign(msh.faces_begin(), msh.faces_end()); for (auto& fc : fcs) { Loop k; for (auto& x : fc.point_ids()) k.push_back(size_t(x)); auto b = m.bnd.find(ref::sorted(k)); label.push_back(b == m.bnd.end() ? -1 : long(b->second)); }
        nd.assign(nf, 0); pres.resize(nf); val.resize(nf);
    }
    Q fq(size_t g, int deg) const { return C[own[g].first].fq(own[g].second, deg); }
    const std::vector<P>& fv(size_t g) const { return C[own[g].first].fv[own[g].second]; }
    template<int comps> auto fb(size_t g, size_t k) const { if constexpr (comps == 1) return make_scalar_monomial_basis(msh, fcs[g], k); else return make_vector_monomial_basis(msh, fcs[g], k); }
    // face functions tested against data u of degree ud; gram matrix in G
    template<int comps> Vec load(size_t g, size_t k, const std::vector<Sum>& u, int ud, Mat* G = nullptr) const { auto b = fb<comps>(g, k); Vec r = Vec::Zero(b.size()); if (G) *G = Mat::Zero(b.size(), b.size()); for (auto& x : fq(g, std::max(int(2*k), int(k) + ud))) { auto f0 = b.eval_functions(D<M>(x.x)); Mat F = f0; Vec uu(comps); for (int a = 0; a < comps; a++) uu(a) = u[a](x.x); r += x.w*F*uu; if (G) *G += x.w*F*F.transpose(); } return r; }
    template<int comps> Vec project(size_t g, size_t k, const std::vector<Sum>& u, int ud) const { Mat G; Vec r = load<comps>(g, k, u, ud, &G); Vec s = G.diagonal().cwiseSqrt().cwiseInverse(); Mat Gs = s.asDiagonal()*G*s.asDiagonal(); return s.asDiagonal()*Gs.ldlt().solve(s.asDiagonal()*r); }
    void dofs(size_t g, size_t n) { nd[g] = n; pres[g].assign(n, 0); val[g] = Vec::Zero(n); }
    size_t local(size_t i) const { size_t n = 0; for (auto g : fid[i]) n += nd[g]; return n; }
    void count() { N = 0; for (auto& p : pres) for (auto x : p) N += !x; slot.clear(); for (auto n : nd) slot.push_back(std::vector<long>(n, -1)); }
    double tol() const { return std::max(1e-9, 10*q); }
    void see(size_t g, const Vec& a, const Vec& b, const Vec& s2, const std::string& w) {
        for (size_t k = 0; k < nd[g]; k++) { auto ww = cat(w, " face ", g, " dof ", k);
            if (pres[g][k]) { double sc = std::max(1e-3, val[g].norm()); c.close(a(k), val[g](k), tol(), sc, "prescribed-value", ww); c.close(b(k), val[g](k), tol(), sc, "prescribed-value", ww); }
            else { long id = std::lround(a(k)) - 1; c.check(std::fabs(a(k) - id - 1) < 1e-12 && id >= 0 && id < long(N), "free-dof-not-an-unknown", cat(ww, ": ", a(k), " of ", N)); c.check(b(k) == s2(id), "free-dof-not-an-unknown", ww); c.check(slot[g][k] < 0 || slot[g][k] == id, "inconsistent-unknown", cat(ww, ": ", slot[g][k], " and ", id)); slot[g][k] = id; } } }
    // take(i, sol): the face unknowns of cell i
    template<typename Take> void probe(Take take, const std::string& what) { if (N == 0) return; Vec s1(N), s2(N); for (size_t i = 0; i < N; i++) { s1(i) = i + 1; s2(i) = 0.25 - 3.0*i; }
        for (size_t i = 0; i < C.size(); i++) { Vec a = take(i, s1), b = take(i, s2); c.check(size_t(a.size()) == local(i) && size_t(b.size()) == local(i), "local-size", what); size_t o = 0; for (auto g : fid[i]) { see(g, a.segment(o, nd[g]), b.segment(o, nd[g]), s2, cat(what, " cell ", i)); o += nd[g]; } } }
    template<typename Exp> void probe_expand(Exp ex, const std::string& what) { if (N == 0) return; Vec s1(N), s2(N); for (size_t i = 0; i < N; i++) { s1(i) = i + 1; s2(i) = 0.25 - 3.0*i; } Vec a = ex(s1), b = ex(s2); size_t n = 0; for (auto k : nd) n += k; c.check(size_t(a.size()) == n && size_t(b.size()) == n, "expanded-size", what); size_t o = 0; for (size_t g = 0; g < nd.size(); g++) { see(g, a.segment(o, nd[g]), b.segment(o, nd[g]), s2, what); o += nd[g]; } }
    void bijective(size_t lo = 0) { std::vector<int> hit(N, 0); for (size_t i = 0; i < lo; i++) hit[i]++; for (auto& s : slot) for (auto x : s) if (x >= 0) hit[x]++; for (size_t i = 0; i < N; i++) c.check(hit[i] == 1, "numbering", cat("unknown ", i, " stands for ", hit[i], " face functions")); }
    Mat L; Vec R; double sL = 1, sR = 1;
    void start() { L = Mat::Zero(N, N); R = Vec::Zero(N); sL = 1; sR = 1; }
    void add(size_t i, const Mat& A, const Vec& b) { size_t n = local(i), o = 0; std::vector<long> s(n, -1); Vec g = Vec::Zero(n); for (auto f : fid[i]) { for (size_t k = 0; k < nd[f]; k++) { s[o] = slot[f][k]; if (pres[f][k]) g(o) = val[f](k); o++; } }
        Vec t = b - A*g; sR += A.cwiseAbs().sum()*(g.size() ? g.cwiseAbs().maxCoeff() : 0); for (size_t a = 0; a < n; a++) if (s[a] >= 0) { R(s[a]) += t(a); for (size_t e = 0; e < n; e++) if (s[e] >= 0) L(s[a], s[e]) += A(a, e); } }
    void traction(size_t g, const Vec& t) { for (size_t k = 0; k < nd[g]; k++) if (slot[g][k] >= 0) R(slot[g][k]) += t(k); sR += t.cwiseAbs().sum(); }
    void mass(size_t g, const Mat& G) { for (size_t a = 0; a < nd[g]; a++) for (size_t b = 0; b < nd[g]; b++) if (slot[g][a] >= 0 && slot[g][b] >= 0) L(slot[g][a], slot[g][b]) += G(a, b); sL += G.cwiseAbs().sum(); }
    template<typename S> void compare(const S& LHS, const Vec& RHS, const std::string& what) { c.check(size_t(LHS.rows()) == N && size_t(LHS.cols()) == N && size_t(RHS.size()) == N, "system-size", cat(what, ": ", LHS.rows(), " unknowns instead of ", N)); if (!N) return; Mat A = LHS; double e = 0; Eigen::Index i, j; e = (A - L).cwiseAbs().maxCoeff(&i, &j); c.check(e <= tol()*sL, "matrix", cat(what, ": entry (", i, ",", j, ") is ", A(i,j), " instead of ", L(i,j))); Vec r = (RHS - R).cwiseAbs(); e = r.maxCoeff(&i); c.check(e <= tol()*sR, "right-hand-side", cat(what, ": entry ", i, " is ", RHS(i), " instead of ", R(i))); }
    Mat rndm(size_t n) { Mat A(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) A(i, j) = c.sym(); return A; }
    Vec rndv(size_t n) { Vec v(n); for (size_t i = 0; i < n; i++) v(i) = c.sym(); return v; }
    // polynomial data, O(1) on the whole mesh
    std::vector<Sum> data(int k, int comps) { std::vector<Sum> s; for (int a = 0; a < comps; a++) s.push_back(poly(c, k, m.pts, d)); return s; }
    std::vector<size_t> order() { std::vector<size_t> o; for (size_t i = 0; i < C.size(); i++) o.push_back(i); c.shuffle(o); return o; }
};
static void relabel(Ctx& c, ref::Mesh& m, size_t nid) { auto own = ref::face_owners(m); m.bnd.clear(); bool sparse = c.chance(20), inter = c.chance(20); for (auto& [f, o] : own) { if (o.size() == 1 && !(sparse && c.draw(3) == 0)) m.bnd[f] = c.draw(nid); if (o.size() == 2 && inter && c.draw(3) == 0) m.bnd[f] = c.draw(nid); } }
template<typename Run> static void any(Ctx& c, int which, Run run) {
    std::vector<size_t> cm;
    auto go = [&](ref::Mesh m, auto mk) { relabel(c, m, c.size(1, 5)); auto msh = mk(m, &cm); c.note << ref::describe(m); c.label(m.kind); c.nontrivial(m.poly.size() + m.cellfaces.size() > 1); run(c, m, msh, cm); };
    auto gs2 = [](auto& m, auto* p) { return dm::make_s2(m, p); }; auto gg2 = [](auto& m, auto* p) { return dm::make_g2(m, p); }; auto gg3 = [](auto& m, auto* p) { return dm::make_g3(m, p); }; auto gs3 = [](auto& m, auto* p) { return dm::make_s3(m, p); };
    switch (which) { case 0: go(ref::gen_poly2d(c, 3, ref::ANY), gg2); break; case 1: go(ref::gen_tri2d(c, 3), gs2); break; case 2: go(ref::gen_poly3d(c, 2), gg3); break; default: go(ref::gen_tet3d(c, 2), gs3); }
}

#if FAM == 1
// ------------------------------------------------------------ scalar problems
enum { PLAIN, CONDENSED, PRIMAL };
template<typename M> static void scalar(Ctx& c, const ref::Mesh& m, M& msh, const std::vector<size_t>& cm) {
    constexpr int d = M::dimension; Sys<M> S(c, m, msh, cm); auto [k, f] = degrees(c, d == 2 ? 3 : 2); hho_degree_info hdi(k, f); int odi = c.size(0, 2); int ud = f + c.draw(2*odi + 1); size_t nf = msh.faces_size();
    int kind = c.draw(3); auto [cc, ff] = std::pair<int,int>(k, f); c.note << " cell degree " << cc << " face degree " << ff << " kind " << kind; c.label(kind == PLAIN ? "plain" : kind == CONDENSED ? "condensed" : "primal");
    using BC = scalar_boundary_conditions<M>; BC bnd(msh); struct B { int type; std::vector<Sum> u; }; std::vector<B> bc;
    for (long id = 0; id < 6; id++) { int t = c.draw(4); auto u = S.data(ud, 1); bc.push_back({t, u}); auto fun = S.C[0].sfun(u[0]); bool has = false; for (auto l : S.label) has |= l == id; if (!has) bc.back().type = 3; else if (kind != PLAIN) { if (t == 0) bnd.addDirichletBC(DIRICHLET, id, fun); if (t == 1) bnd.addNeumannBC(NEUMANN, id, fun); if (t == 2) bnd.addRobinBC(ROBIN, id, fun); } c.note << " " << t; }
    auto g0 = S.data(ud, 1); auto dfun = S.C[0].sfun(g0[0]); auto zero = S.data(0, 1); zero[0].a.assign(zero[0].a.size(), 0.0);
    for (size_t g = 0; g < nf; g++) { S.dofs(g, bs::dimP(ff, d-1)); const std::vector<Sum>* u = nullptr; if (kind == PLAIN) { if (S.label[g] >= 0) u = &g0; } else if (S.label[g] >= 0 && bc[S.label[g]].type == 0) u = &bc[S.label[g]].u; if (u) { S.pres[g].assign(S.nd[g], 1); S.val[g] = S.template project<1>(g, ff, *u, ud); } }
    S.count(); const auto& cells = S.C; std::vector<Mat> A; std::vector<Vec> b; for (size_t i = 0; i < cells.size(); i++) { A.push_back(S.rndm(S.local(i))); b.push_back(S.rndv(S.local(i))); }
    bool neu = false, rob = false; if (kind != PLAIN) for (size_t g = 0; g < nf; g++) if (S.label[g] >= 0) { neu |= bc[S.label[g]].type == 1; rob |= bc[S.label[g]].type == 2; }
    auto natural = [&](auto& as) { if (kind == PRIMAL || neu) as.impose_neumann_boundary_conditions(msh, bnd, odi); else if (kind == CONDENSED) c.check(throws([&] { as.impose_neumann_boundary_conditions(msh, bnd, odi); }), "neumann-without-faces-accepted"); if (rob) as.impose_robin_boundary_conditions(msh, bnd, odi); };
    auto reference = [&] { S.bijective(); S.start(); for (size_t i = 0; i < cells.size(); i++) S.add(i, A[i], b[i]); if (kind != PLAIN) for (size_t g = 0; g < nf; g++) if (S.label[g] >= 0) { auto& x = bc[S.label[g]]; if (x.type == 1 || x.type == 2) { Mat G; Vec t = S.template load<1>(g, ff, x.u, ud, &G); S.traction(g, t); if (x.type == 2) S.mass(g, G); } } };
    bool first = c.chance(30);
    if (kind == PLAIN) { auto as = make_diffusion_assembler(msh, hdi); S.probe([&](size_t i, const Vec& s) { return Vec(as.take_local_solution(msh, cells[i].cl, s, dfun, odi)); }, "diffusion"); S.probe([&](size_t i, const Vec& s) { return Vec(as.take_local_data(msh, cells[i].cl, s, dfun, odi)); }, "diffusion data"); reference(); for (auto i : S.order()) as.assemble(msh, cells[i].cl, A[i], b[i], dfun, odi); as.finalize(); S.compare(as.LHS, as.RHS, "diffusion"); }
    else if (kind == CONDENSED) { auto as = make_diffusion_assembler(msh, hdi, bnd); S.probe([&](size_t i, const Vec& s) { return Vec(as.take_local_data(msh, cells[i].cl, bnd, s, odi)); }, "diffusion"); reference(); if (first) natural(as); for (auto i : S.order()) as.assemble(msh, cells[i].cl, bnd, A[i], b[i], odi); if (!first) natural(as); as.finalize(); S.compare(as.LHS, as.RHS, "diffusion"); }
    else { auto as = make_scalar_primal_hho_assembler(msh, hdi, bnd); S.probe([&](size_t i, const Vec& s) { return Vec(as.take_local_solution(msh, cells[i].cl, bnd, s, odi)); }, "primal"); S.probe_expand([&](const Vec& s) { return Vec(as.expand_solution(msh, bnd, s, odi)); }, "primal"); c.check(as.global_system_size() == S.N, "system-size"); reference();
        for (int rep = 0; rep < 2; rep++) { if (rep) { if (!c.chance(30)) break; as.initialize(); } if (first) natural(as); for (auto i : S.order()) as.assemble(msh, cells[i].cl, bnd, A[i], b[i], odi); if (!first) natural(as); as.finalize(); S.compare(as.LHS, as.RHS, rep ? "primal reassembled" : "primal"); } }
    // contradictory conditions on one face are refused
    if (kind != PLAIN && c.chance(20)) { long id = -1; for (auto l : S.label) if (l >= 0) id = l; if (id < 0) return; int p = c.draw(3); BC bb(msh); auto fun = S.C[0].sfun(g0[0]); if (p != 0) bb.addDirichletBC(DIRICHLET, id, fun); if (p != 1) bb.addNeumannBC(NEUMANN, id, fun); if (p != 2) bb.addRobinBC(ROBIN, id, fun);
        auto ref = [&](auto as) { bool t = throws([&] { if (bb.nb_faces_neumann()) as.impose_neumann_boundary_conditions(msh, bb, odi); if (bb.nb_faces_robin()) as.impose_robin_boundary_conditions(msh, bb, odi); }); c.check(t, "contradictory-conditions-accepted", cat("kind ", p)); };
        if (kind == CONDENSED) ref(make_diffusion_assembler(msh, hdi, bb)); else ref(make_scalar_primal_hho_assembler(msh, hdi, bb)); c.label("refused"); }
}
PROP("scalar_g2", 3500*3, 60000) { any(c, 0, [](Ctx& c, auto& m, auto& msh, auto& cm) { scalar(c, m, msh, cm); }); }
PROP("scalar_s2", 3500*3, 60000) { any(c, 1, [](Ctx& c, auto& m, auto& msh, auto& cm) { scalar(c, m, msh, cm); }); }
PROP("scalar_s3", 1000*3, 20000) { any(c, 3, [](Ctx& c, auto& m, auto& msh, auto& cm) { scalar(c, m, msh, cm); }); }
#endif

#if FAM >= 2 && FAM <= 4
// ------------------------------------------------------------ vector problems
enum { MECH, MECHNL, VPRIM, VPRIMNL, VMECHNL };
// components imposed by a boundary type
static std::array<int,3> comps(size_t t) { switch (t) { case DIRICHLET: case CLAMPED: return {1,1,1}; case DX: return {1,0,0}; case DY: return {0,1,0}; case DZ: return {0,0,1}; case DXDY: return {1,1,0}; case DXDZ: return {1,0,1}; case DYDZ: return {0,1,1}; } return {0,0,0}; }
template<typename M> static void vec(Ctx& c, const ref::Mesh& m, M& msh, const std::vector<size_t>& cm) {
    constexpr int d = M::dimension; Sys<M> S(c, m, msh, cm); auto [kk, ff] = degrees(c, 2); int k = kk, f = ff; hho_degree_info hdi(k, f); size_t nf = msh.faces_size();
    int kind = FAM == 2 ? (int)c.draw(2) : FAM == 3 ? VPRIM + (int)c.draw(2) : VMECHNL; bool nl = kind == MECHNL || kind == VPRIMNL || kind == VMECHNL, adaptive = kind >= VPRIM && c.chance(50); int di = c.size(0, 2);
    c.label(kind == MECH ? "mechanics" : kind == MECHNL ? "mechanics-nl" : kind == VPRIM ? "primal" : kind == VPRIMNL ? "primal-nl" : "vmechanics"); if (adaptive) c.label("adaptive"); c.note << " kind " << kind << " face degree " << f << (adaptive ? " adaptive" : "");
    std::vector<size_t> types = d == 2 ? std::vector<size_t>{DIRICHLET, CLAMPED, DX, DY} : std::vector<size_t>{DIRICHLET, CLAMPED, DX, DY, DZ, DXDY, DXDZ, DYDZ};
    using BC = vector_boundary_conditions<M>; BC bnd(msh); struct B { size_t t = 0; bool D = false, Nm = false, S = false; std::vector<Sum> u, g; }; std::vector<B> bc(6); int fmin = adaptive ? 0 : f, ud = fmin + c.draw(2*di + 1);
    for (long id = 0; id < 6; id++) { B& x = bc[id]; x.u = S.data(ud, d); x.g = S.data(ud, d); bool has = false; for (auto l : S.label) has |= l == id; if (!has) continue; int t = c.draw(10);
        if (t < 5) { x.D = true; x.t = types[c.draw(types.size())]; } if (t == 5 || t == 6 || (x.D && x.t != DIRICHLET && x.t != CLAMPED && c.chance(50))) x.Nm = true; if (t == 7 && kind >= VPRIM) x.S = true;
        if (x.D) bnd.addDirichletBC(x.t, id, S.C[0].vfun(x.u)); if (x.Nm) bnd.addNeumannBC(NEUMANN, id, S.C[0].vfun(x.g)); if (x.S) bnd.addContactBC(SIGNORINI_FACE, id); c.note << " " << id << ":" << (x.D ? cat("D", x.t) : "") << (x.Nm ? "N" : "") << (x.S ? "S" : ""); }
    MeshDegreeInfo<M> mdi(msh, size_t(k), size_t(f)); std::vector<int> fd(nf, f);
    for (size_t g = 0; g < nf; g++) { B* x = S.label[g] >= 0 ? &bc[S.label[g]] : nullptr; bool has = true; if (adaptive) { fd[g] = c.draw(3); has = (x && (x->D || x->Nm || x->S)) || !c.chance(15); mdi.degreeInfo(msh, S.fcs[g], DegreeInfo(has, size_t(fd[g]))); } else if (x && x->S) fd[g] = f + 1;
        S.dofs(g, has ? d*bs::dimP(fd[g], d-1) : 0); if (!has) c.label("face-without-unknowns"); }
    std::vector<dynamic_vector<double>> solF; for (size_t g = 0; g < nf; g++) solF.push_back(S.rndv(S.nd[g]));
    for (size_t g = 0; g < nf; g++) if (S.label[g] >= 0 && bc[S.label[g]].D && S.nd[g]) { auto& x = bc[S.label[g]]; auto im = comps(x.t); Vec v = x.t == CLAMPED ? Vec(Vec::Zero(S.nd[g])) : S.template project<d>(g, fd[g], x.u, ud); if (nl) v -= solF[g]; for (size_t i = 0; i < S.nd[g]; i++) { S.pres[g][i] = im[i%d]; if (im[i%d]) S.val[g](i) = v(i); } }
    S.count(); const auto& cells = S.C; std::vector<Mat> A; std::vector<Vec> b; for (size_t i = 0; i < cells.size(); i++) { A.push_back(S.rndm(S.local(i))); b.push_back(S.rndv(S.local(i))); }
    bool first = c.chance(30);
    auto reference = [&] { S.bijective(); S.start(); for (size_t i = 0; i < cells.size(); i++) S.add(i, A[i], b[i]); for (size_t g = 0; g < nf; g++) if (S.label[g] >= 0 && bc[S.label[g]].Nm) S.traction(g, S.template load<d>(g, fd[g], bc[S.label[g]].g, ud)); };
    auto contradictory = [&](auto make) { if (!c.chance(15)) return; long id = -1; for (auto l : S.label) if (l >= 0) id = l; if (id < 0) return; BC bb(msh); auto fun = S.C[0].vfun(bc[0].u); bb.addDirichletBC(c.chance(50) ? DIRICHLET : CLAMPED, id, fun); bb.addNeumannBC(NEUMANN, id, fun); auto as = make(bb); c.check(throws([&] { as.impose_neumann_boundary_conditions(msh, bb, di); }), "contradictory-conditions-accepted"); c.label("refused"); };
#if FAM == 2
    auto as = make_mechanics_assembler(msh, hdi, bnd);
    if (nl) { S.probe_expand([&](const Vec& s) { return Vec(as.expand_solution_nl(msh, bnd, s, solF, di)); }, "mechanics nl"); }
    else { S.probe([&](size_t i, const Vec& s) { return Vec(as.take_local_data(msh, cells[i].cl, bnd, s, di)); }, "mechanics"); S.probe_expand([&](const Vec& s) { return Vec(as.expand_solution(msh, bnd, s, di)); }, "mechanics"); }
    reference();
    for (int rep = 0; rep < 2; rep++) { if (rep) { if (!nl || !c.chance(40)) break; as.setZeroRhs(); } if (first) as.impose_neumann_boundary_conditions(msh, bnd, di); for (auto i : S.order()) { std::pair<dynamic_matrix<double>, dynamic_vector<double>> lc(A[i], b[i]); if (nl) as.assemble_nl(msh, cells[i].cl, bnd, lc, solF, di); else as.assemble(msh, cells[i].cl, bnd, lc, di); } if (!first) as.impose_neumann_boundary_conditions(msh, bnd, di); as.finalize(); S.compare(as.LHS, as.RHS, cat("mechanics", nl ? " nl" : "", rep ? " second iteration" : "")); }
    contradictory([&](auto& bb) { return make_mechanics_assembler(msh, hdi, bb); });
#else
    auto drive = [&](auto as) {
        if constexpr (FAM == 3) { if (!nl) { S.probe([&](size_t i, const Vec& s) { return Vec(as.take_local_solution(msh, cells[i].cl, bnd, s, di)); }, "primal"); S.probe_expand([&](const Vec& s) { return Vec(as.expand_solution(msh, bnd, s, di)); }, "primal"); } }
        if (nl) { S.probe([&](size_t i, const Vec& s) { return Vec(as.take_local_solution_nonlinear(msh, cells[i].cl, bnd, s, solF, di)); }, "nonlinear"); S.probe_expand([&](const Vec& s) { return Vec(as.expand_solution_nonlinear(msh, bnd, s, solF, di)); }, "nonlinear"); }
        c.check(as.global_system_size() == S.N, "system-size"); reference();
        for (int rep = 0; rep < 2; rep++) { if (rep) { if (!c.chance(30)) break; as.initialize(); } if (first) as.impose_neumann_boundary_conditions(msh, bnd, di); for (auto i : S.order()) { if constexpr (FAM == 3) { if (!nl) { as.assemble(msh, cells[i].cl, bnd, A[i], b[i], di); continue; } } as.assemble_nonlinear(msh, cells[i].cl, bnd, A[i], b[i], solF, di); } if (!first) as.impose_neumann_boundary_conditions(msh, bnd, di); as.finalize(); S.compare(as.LHS, as.RHS, cat(nl ? "nonlinear" : "primal", rep ? " reassembled" : "")); } };
#if FAM == 3
    if (adaptive) drive(make_vector_primal_hho_assembler(msh, mdi, bnd)); else drive(make_vector_primal_hho_assembler(msh, hdi, bnd));
    contradictory([&](auto& bb) { return make_vector_primal_hho_assembler(msh, hdi, bb); });
#else
    if (adaptive) drive(make_vector_mechanics_hho_assembler(msh, mdi, bnd)); else drive(make_vector_mechanics_hho_assembler(msh, hdi, bnd));
    contradictory([&](auto& bb) { return make_vector_mechanics_hho_assembler(msh, hdi, bb); });
#endif
#endif
}
PROP("vector_g2", 3000*3, 60000) { any(c, 0, [](Ctx& c, auto& m, auto& msh, auto& cm) { vec(c, m, msh, cm); }); }
PROP("vector_s3", 1000*3, 20000) { any(c, 3, [](Ctx& c, auto& m, auto& msh, auto& cm) { vec(c, m, msh, cm); }); }
#endif

#if FAM == 5
// ------------------------------------------------------------ saddle point problems: cells, faces, pressures, one multiplier
template<typename M> static void stokes(Ctx& c, const ref::Mesh& m, M& msh, const std::vector<size_t>& cm) {
    constexpr int d = M::dimension; Sys<M> S(c, m, msh, cm); auto [kk, ff] = degrees(c, 2); int k = kk, f = ff; hho_degree_info hdi(k, f); size_t nf = msh.faces_size(), nc = S.C.size(), cA = d*bs::dimP(k, d), cB = bs::dimP(f, d);
    int kind = c.draw(3); c.label(kind == 0 ? "assemble" : kind == 1 ? "assemble-alg" : "split"); c.note << " degrees " << k << " " << f << " kind " << kind;
    using BC = vector_boundary_conditions<M>; BC bnd(msh); struct B { bool D = false; std::vector<Sum> u; }; std::vector<B> bc(6);
    for (long id = 0; id < 6; id++) { B& x = bc[id]; x.u = S.data(f, d); bool has = false; for (auto l : S.label) has |= l == id; if (!has) continue; x.D = c.chance(70); if (x.D) bnd.addDirichletBC(DIRICHLET, id, S.C[0].vfun(x.u)); c.note << " " << id << ":" << x.D; }
    size_t free = 0; for (size_t g = 0; g < nf; g++) { S.dofs(g, d*bs::dimP(f, d-1)); if (S.label[g] >= 0 && bc[S.label[g]].D) { S.pres[g].assign(S.nd[g], 1); S.val[g] = S.template project<d>(g, f, bc[S.label[g]].u, f); } else free += S.nd[g]; }
    size_t N = nc*cA + free + nc*cB + 1; S.count(); S.N = N; const auto& cells = S.C;
    // cells, pressures and multiplier get their unknowns from take_velocity / take_pressure; the multiplier is what is left
    std::vector<std::vector<long>> cs(nc), ps(nc); std::vector<Mat> A, Bm; std::vector<Vec> b; for (size_t i = 0; i < nc; i++) { size_t n = cA + S.local(i); A.push_back(S.rndm(n)); b.push_back(S.rndv(n)); Mat X(cB, n); for (size_t a = 0; a < cB; a++) for (size_t e = 0; e < n; e++) X(a, e) = c.sym(); Bm.push_back(X); }
    auto drive = [&](auto& as, auto assemble) {
        c.check(as.global_system_size() == N, "system-size", cat(as.global_system_size(), " instead of ", N)); Vec s1(N); for (size_t i = 0; i < N; i++) s1(i) = i + 1; std::vector<int> hit(N, 0); auto idx = [&](double v) { long id = std::lround(v) - 1; c.check(std::fabs(v - id - 1) < 1e-12 && id >= 0 && id < long(N), "free-dof-not-an-unknown"); hit[id]++; return id; };
        for (size_t i = 0; i < nc; i++) { Vec v = as.take_velocity(msh, cells[i].cl, s1), p = as.take_pressure(msh, cells[i].cl, s1); c.check(size_t(v.size()) == cA + S.local(i) && size_t(p.size()) == cB, "local-size"); for (size_t a = 0; a < cA; a++) cs[i].push_back(idx(v(a))); for (size_t a = 0; a < cB; a++) ps[i].push_back(idx(p(a))); }
        S.probe([&](size_t i, const Vec& s) { Vec v = as.take_velocity(msh, cells[i].cl, s); return Vec(v.tail(S.local(i))); }, "velocity"); for (auto& s : S.slot) for (auto x : s) if (x >= 0) hit[x]++;
        long mult = -1; for (size_t i = 0; i < N; i++) { c.check(hit[i] <= 1, "numbering", cat("unknown ", i, " used ", hit[i], " times")); if (!hit[i]) { c.check(mult < 0, "numbering", "more than one unknown is unused"); mult = i; } } c.check(mult >= 0, "numbering", "no multiplier");
        Mat L = Mat::Zero(N, N); Vec R = Vec::Zero(N); double sR = 1;
        for (size_t i = 0; i < nc; i++) { size_t n = cA + S.local(i); std::vector<long> s(n, -1); Vec g = Vec::Zero(n); for (size_t a = 0; a < cA; a++) s[a] = cs[i][a]; size_t o = cA; for (auto q : S.fid[i]) for (size_t a = 0; a < S.nd[q]; a++) { s[o] = S.slot[q][a]; g(o) = S.val[q](a); o++; }
            Vec t = -(A[i]*g); for (size_t a = 0; a < n; a++) if (a < cA || kind > 0) t(a) += b[i](a); Vec tb = -(Bm[i]*g); sR += 2*n*g.cwiseAbs().maxCoeff();
            for (size_t a = 0; a < n; a++) if (s[a] >= 0) { R(s[a]) += t(a); for (size_t e = 0; e < n; e++) if (s[e] >= 0) L(s[a], s[e]) += A[i](a, e); for (size_t e = 0; e < cB; e++) { L(s[a], ps[i][e]) += Bm[i](e, a); L(ps[i][e], s[a]) += Bm[i](e, a); } }
            auto pb = make_scalar_monomial_basis(msh, cells[i].cl, size_t(f)); for (size_t e = 0; e < cB; e++) R(ps[i][e]) += tb(e); for (auto& x : cells[i].cq(f)) { Vec ph = pb.eval_functions(D<M>(x.x)); for (size_t e = 0; e < cB; e++) { L(ps[i][e], mult) += x.w*ph(e); L(mult, ps[i][e]) += x.w*ph(e); } } }
        assemble(as); S.L = L; S.R = R; S.sR = sR; S.sL = 1; S.compare(as.LHS, as.RHS, "stokes"); };
    if (kind < 2) { auto as = make_stokes_assembler(msh, hdi, bnd); drive(as, [&](auto& as) { for (int rep = 0; rep < 2; rep++) { if (rep) { if (!c.chance(30)) break; as.initialize(); } for (auto i : S.order()) { if (kind == 0) as.assemble(msh, cells[i].cl, A[i], Bm[i], b[i]); else as.assemble_alg(msh, cells[i].cl, A[i], Bm[i], b[i]); } as.finalize(); } }); }
    else { auto as = make_stokes_assembler_alg(msh, hdi, bnd); drive(as, [&](auto& as) { as.initialize_lhs(); for (auto i : S.order()) as.assemble_lhs(msh, cells[i].cl, A[i], Bm[i]); as.finalize_lhs(); for (int rep = 0; rep < 2; rep++) { as.initialize_rhs(); for (auto i : S.order()) as.assemble_rhs(msh, cells[i].cl, b[i]); as.finalize_rhs(); } }); }
}
// ------------------------------------------------------------ the generic condensed assembler with homogeneous conditions
template<typename M> static void basic(Ctx& c, const ref::Mesh& m, M& msh, const std::vector<size_t>& cm) {
    constexpr int d = M::dimension; Sys<M> S(c, m, msh, cm); size_t f = c.draw(4), nf = msh.faces_size(); using FB = basis::scalar_monomial<M, typename M::face_type, double>; bool given = c.chance(50); std::vector<bool> dir(nf);
    for (size_t g = 0; g < nf; g++) { dir[g] = given ? c.chance(40) : S.label[g] >= 0; S.dofs(g, bs::dimP(f, d-1)); if (dir[g]) S.pres[g].assign(S.nd[g], 1); } S.count(); c.note << " basic degree " << f << (given ? " given" : ""); const auto& cells = S.C;
    using AS = hho::basic_condensed_assembler<M, FB>; AS as = given ? AS(msh, f, dir) : AS(msh, f); c.check(as.dofs() == S.N, "system-size"); S.probe([&](size_t i, const Vec& s) { return Vec(as.take_local_solution(msh, cells[i].cl, s)); }, "basic"); S.bijective(); S.start();
    for (auto i : S.order()) { Mat A = S.rndm(S.local(i)); Vec b = S.rndv(S.local(i)); S.add(i, A, b); as.assemble(msh, cells[i].cl, A, b); } as.finalize(); S.compare(as.LHS, as.RHS, "basic");
}
PROP("stokes_g2", 2500*3, 50000) { any(c, 0, [](Ctx& c, auto& m, auto& msh, auto& cm) { stokes(c, m, msh, cm); }); }
PROP("stokes_s3", 500*3, 8000) { any(c, 3, [](Ctx& c, auto& m, auto& msh, auto& cm) { stokes(c, m, msh, cm); }); }
PROP("basic_g2", 3000*3, 60000) { any(c, 0, [](Ctx& c, auto& m, auto& msh, auto& cm) { basic(c, m, msh, cm); }); }
PROP("basic_s3", 1000*3, 20000) { any(c, 3, [](Ctx& c, auto& m, auto& msh, auto& cm) { basic(c, m, msh, cm); }); }
#endif
