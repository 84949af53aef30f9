// A02: boundary-condition bookkeeping against a face-by-face reference, for any mesh, labels and registration history.
#include "hho.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
using namespace disk; using namespace hh;

template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static void relabel(Ctx& c, ref::Mesh& m) {
    auto own = ref::face_owners(m); m.bnd.clear(); size_t nid = c.size(1, 6); bool sparse = c.chance(25), inter = c.chance(35);
    for (auto& [f, o] : own) {
        if (o.size() == 1 && !(sparse && c.draw(3) == 0)) m.bnd[f] = c.draw(nid) * (1 + 2*c.draw(2));
        if (o.size() == 2 && inter && c.draw(3) == 0) m.bnd[f] = c.draw(nid) + 1; }
}
struct Rec { bool on = false; size_t type = 0, id = 0; long fun = -1; };
static size_t face_basis(size_t k, int d) { return bs::dimP(k, d-1); }

template<typename M, bool S> static void history(Ctx& c, ref::Mesh& m, M& msh, const std::vector<size_t>& cm) {
    constexpr int d = M::dimension; using BC = BoundaryConditions<M, S>; using pt = typename M::point_type; using FT = typename BC::function_type;
    BC bnd(msh); const size_t nf = msh.faces_size();
    // reference state, per face
    std::vector<Rec> dir(nf), neu(nf), rob(nf), con(nf); double factor = 1; std::vector<std::array<double,4>> F[4]; std::ostringstream h;
    std::vector<long> label(nf, -1); { size_t i = 0; for (auto& fc : faces(msh)) { Loop k; for (auto& x : fc.point_ids()) k.push_back(size_t(x)); auto b = m.bnd.find(ref::sorted(k)); if (b != m.bnd.end()) label[i] = long(b->second); i++; } }
    auto mk = [&](int kind) { std::array<double,4> a{c.sym(), c.sym(), c.sym(), c.sym()}; F[kind].push_back(a); return a; };
    auto vfun = [](std::array<double,4> a) { return [a](const pt& p) -> FT { P q = dm::toP(p); double s = a[0] + a[1]*q[0] + a[2]*q[1] + a[3]*q[2]; if constexpr (S) return s; else { FT r; for (int i = 0; i < d; i++) r(i) = s + i*a[1]*q[0] - 2.0*i; return r; } }; };
    auto sfun = [](std::array<double,4> a) { return [a](const pt& p) -> double { P q = dm::toP(p); return a[0] + a[1]*q[0] + a[2]*q[1] + a[3]*q[2]; }; };
    size_t nops = c.size(0, 8), applied = 0;
    std::vector<size_t> dtypes = S ? std::vector<size_t>{DIRICHLET, NOTHING} : std::vector<size_t>{DIRICHLET, CLAMPED, DX, DY, DZ, DXDY, DXDZ, DYDZ, NOTHING};
    auto reg = [&](std::vector<Rec>& v, size_t type, size_t id, long fun, bool all = false) { for (size_t i = 0; i < nf; i++) if (label[i] >= 0 && (all || size_t(label[i]) == id)) { v[i] = Rec{true, type, all ? size_t(label[i]) : id, fun}; applied++; } };
    for (size_t k = 0; k < nops; k++) {
        size_t id = c.draw(8), op = c.draw(7);
        if (op == 0) { auto a = mk(0); bnd.addDirichletEverywhere(vfun(a)); reg(dir, DIRICHLET, 0, F[0].size()-1, true); h << " D*"; }
        else if (op <= 2) { size_t t = dtypes[c.draw(dtypes.size())]; auto a = mk(0); bnd.addDirichletBC(t, id, vfun(a)); reg(dir, t, id, F[0].size()-1); h << " D(" << t << "," << id << ")"; }
        else if (op == 3) { size_t t = c.chance(70) ? NEUMANN : FREE; auto a = mk(1); bnd.addNeumannBC(t, id, vfun(a)); reg(neu, t, id, F[1].size()-1); h << " N(" << t << "," << id << ")"; }
        else if (op == 4) { size_t t = c.chance(70) ? ROBIN : WHATEVER; auto a = mk(2); bnd.addRobinBC(t, id, vfun(a)); reg(rob, t, id, F[2].size()-1); h << " R(" << t << "," << id << ")"; }
        else if (op == 5) { size_t t = SIGNORINI + c.draw(3); if (c.chance(50)) { auto a = mk(3); bnd.addContactBC(t, id, sfun(a)); reg(con, t, id, F[3].size()-1); h << " C(" << t << "," << id << ",f)"; } else { bnd.addContactBC(t, id); reg(con, t, id, -1); h << " C(" << t << "," << id << ")"; } }
        else { factor = c.sym()*3; bnd.multiplyAllFunctionsByAFactor(factor); h << " x" << factor; }
    }
    c.note << (S ? " scalar:" : " vector:") << h.str(); c.nontrivial(applied > 0);
    const BC& b = bnd;
    auto cnt = [&](std::vector<Rec>& v) { size_t n = 0; for (auto& r : v) n += r.on; return n; };
    c.check(b.nb_faces_dirichlet() == cnt(dir), "count-dirichlet", cat("got ", b.nb_faces_dirichlet(), " expected ", cnt(dir)));
    c.check(b.nb_faces_neumann() == cnt(neu), "count-neumann", cat("got ", b.nb_faces_neumann(), " expected ", cnt(neu)));
    c.check(b.nb_faces_robin() == cnt(rob), "count-robin", cat("got ", b.nb_faces_robin(), " expected ", cnt(rob)));
    c.check(b.nb_faces_contact() == cnt(con), "count-contact", cat("got ", b.nb_faces_contact(), " expected ", cnt(con)));
    c.check(b.nb_faces_boundary() == cnt(dir)+cnt(neu)+cnt(rob)+cnt(con), "count-boundary");
    size_t i = 0;
    for (auto& fc : faces(msh)) {
        auto w = cat("face ", i, " label ", label[i]); P x; { auto ps = points(msh, fc); P s{0,0,0}; for (auto& p : ps) s = s + dm::toP(p); x = (1.0/ps.size())*s; } auto px = D<M>(x);
        auto same = [&](FT got, std::array<double,4> a, const char* what) { double e = 0, sc = 1; auto want = vfun(a)(px); if constexpr (S) { e = std::fabs(got - factor*want); sc += std::fabs(factor*want); } else { e = (got - factor*want).norm(); sc += (factor*want).norm(); } c.check(e <= 1e-12*sc, what, cat(w, " error ", e)); };
        c.check(b.is_dirichlet_face(i) == dir[i].on && b.is_dirichlet_face(fc) == dir[i].on, "is-dirichlet", w);
        c.check(b.is_neumann_face(i) == neu[i].on && b.is_neumann_face(fc) == neu[i].on, "is-neumann", w);
        c.check(b.is_robin_face(i) == rob[i].on && b.is_robin_face(fc) == rob[i].on, "is-robin", w);
        c.check(b.is_contact_face(i) == con[i].on && b.is_contact_face(fc) == con[i].on, "is-contact", w);
        size_t t = dir[i].on ? dir[i].type : size_t(NOTHING); c.check(b.dirichlet_boundary_type(i) == t && b.dirichlet_boundary_type(fc) == t, "dirichlet-type", w);
        t = neu[i].on ? neu[i].type : size_t(FREE); c.check(b.neumann_boundary_type(i) == t && b.neumann_boundary_type(fc) == t, "neumann-type", w);
        t = rob[i].on ? rob[i].type : size_t(WHATEVER); c.check(b.robin_boundary_type(i) == t && b.robin_boundary_type(fc) == t, "robin-type", w);
        t = con[i].on ? con[i].type : size_t(NO_CONTACT); c.check(b.contact_boundary_type(i) == t && b.contact_boundary_type(fc) == t, "contact-type", w);
        if (dir[i].on) { c.check(b.dirichlet_boundary_id(i) == dir[i].id && b.dirichlet_boundary_id(fc) == dir[i].id, "dirichlet-id", w); same(b.dirichlet_boundary_func(i)(px), F[0][dir[i].fun], "dirichlet-function"); same(b.dirichlet_boundary_func(fc)(px), F[0][dir[i].fun], "dirichlet-function"); }
        else c.check(throws([&] { b.dirichlet_boundary_func(i); }) && throws([&] { b.dirichlet_boundary_func(fc); }), "dirichlet-function-refused", w);
        if (neu[i].on) { c.check(b.neumann_boundary_id(i) == neu[i].id && b.neumann_boundary_id(fc) == neu[i].id, "neumann-id", w); same(b.neumann_boundary_func(i)(px), F[1][neu[i].fun], "neumann-function"); same(b.neumann_boundary_func(fc)(px), F[1][neu[i].fun], "neumann-function"); }
        else c.check(throws([&] { b.neumann_boundary_func(i); }), "neumann-function-refused", w);
        if (rob[i].on) { c.check(b.robin_boundary_id(i) == rob[i].id && b.robin_boundary_id(fc) == rob[i].id, "robin-id", w); same(b.robin_boundary_func(i)(px), F[2][rob[i].fun], "robin-function"); same(b.robin_boundary_func(fc)(px), F[2][rob[i].fun], "robin-function"); }
        else c.check(throws([&] { b.robin_boundary_func(i); }), "robin-function-refused", w);
        if (con[i].on) { c.check(b.contact_boundary_id(i) == con[i].id && b.contact_boundary_id(fc) == con[i].id, "contact-id", w);
            if (con[i].fun >= 0) { double g = b.contact_boundary_func(fc)(px), e = sfun(F[3][con[i].fun])(px); if (factor == 1) c.close(g, e, 1e-12, 1, "contact-function", w); } else c.check(throws([&] { b.contact_boundary_func(i); }), "contact-function-refused", w); }
        else c.check(throws([&] { b.contact_boundary_func(fc); }), "contact-function-refused", w);
        // imposed unknowns
        { size_t k = c.draw(4), nb = face_basis(k, d), tt = dir[i].type, want = 0; bool bad = false;
          if (dir[i].on) { if (tt == NOTHING) want = 0; else if (tt == DIRICHLET || tt == CLAMPED) want = S ? nb : nb*d; else { bool z = tt == DZ || tt == DXDZ || tt == DYDZ; want = nb*(tt >= DXDY ? 2 : 1); if (z && d == 2) bad = true; } }
          if (bad) c.check(throws([&] { b.dirichlet_imposed_dofs(i, k); }), "z-component-refused-in-2D", w);
          else { size_t got = b.dirichlet_imposed_dofs(i, k); c.check(got == want, "imposed-dofs", cat(w, " type ", tt, " degree ", k, " got ", got, " expected ", want)); } }
        i++;
    }
    size_t ci = 0;
    for (auto& cl : cells(msh)) {
        auto fcs = faces(msh, cl); bool hd = false, hn = false, hr = false, hc = false; size_t nc = 0; std::vector<size_t> wo, un, wi; auto w = cat("cell ", ci++);
        for (auto& fc : fcs) { size_t id = offset(msh, fc); hd |= dir[id].on; hn |= neu[id].on; hr |= rob[id].on; hc |= con[id].on; nc += con[id].on; if (!con[id].on) wo.push_back(id); else wi.push_back(id); if (!(con[id].on && con[id].type == SIGNORINI_CELL)) un.push_back(id); }
        c.check(b.cell_has_dirichlet_faces(cl) == hd && b.cell_has_neumann_faces(cl) == hn && b.cell_has_robin_faces(cl) == hr && b.cell_has_contact_faces(cl) == hc, "cell-has", w);
        c.check(b.howmany_contact_faces(cl) == nc && b.howmany_without_contact_faces(cl) == fcs.size() - nc, "contact-count-of-cell", w);
        auto ids = [&](const auto& v) { std::vector<size_t> r; for (auto& f : v) r.push_back(offset(msh, f)); return r; };
        c.check(ids(b.faces_without_contact(cl)) == wo, "faces-without-contact", w); c.check(ids(b.faces_with_contact(cl)) == wi, "faces-with-contact", w); c.check(ids(b.faces_with_unknowns(cl)) == un, "faces-with-unknowns", w);
    }
}
template<typename M> static void both(Ctx& c, ref::Mesh& m, M& msh, const std::vector<size_t>& cm) { c.note << ref::describe(m); c.label(m.kind); if (c.chance(50)) history<M, true>(c, m, msh, cm); else history<M, false>(c, m, msh, cm); }
PROP("generic-2d", 6000, 200000) { auto m = ref::gen_poly2d(c, c.thorough ? 6 : 4, ref::ANY); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_g2(m, &cm); both(c, m, msh, cm); }
PROP("triangles", 6000, 200000) { auto m = ref::gen_tri2d(c, c.thorough ? 7 : 4); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_s2(m, &cm); both(c, m, msh, cm); }
PROP("rectangles", 4000, 120000) { auto m = ref::gen_rect2d(c, c.thorough ? 8 : 5); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_c2(m, &cm); both(c, m, msh, cm); }
PROP("generic-3d", 4000, 100000) { auto m = ref::gen_poly3d(c, c.thorough ? 3 : 2); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_g3(m, &cm); both(c, m, msh, cm); }
PROP("tetrahedra", 4000, 100000) { auto m = ref::gen_tet3d(c, c.thorough ? 3 : 2); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_s3(m, &cm); both(c, m, msh, cm); }
PROP("boxes", 4000, 100000) { auto m = ref::gen_hex3d(c, c.thorough ? 4 : 3); relabel(c, m); std::vector<size_t> cm; auto msh = dm::make_c3(m, &cm); both(c, m, msh, cm); }
