// S02: exported databases hold exactly the meshes and the variables given, and failures to write are reported.
#include "diskmesh.hpp"
#include <filesystem>
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mesh/rational.hpp"
#include "diskpp/output/silo.hpp"
#include "diskpp/output/postMesh.hpp"
using namespace disk; using namespace dm;
using pbt::Ctx; using pbt::cat; using ref::P;
using R = rational<int64_t>; using RS2 = simplicial_mesh<R, 2>; using FS2 = simplicial_mesh<float, 2>; using FG2 = generic_mesh<float, 2>;

static struct Quiet { Quiet() { DBShowErrors(DB_NONE, nullptr); } } quiet;
struct Mute { std::ostringstream s; std::streambuf* o; Mute() { o = std::cout.rdbuf(s.rdbuf()); } ~Mute() { std::cout.rdbuf(o); } };

// ---------------------------------------------------------------- what a database has to contain
struct XMesh { int dim; size_t nodes; std::vector<std::vector<double>> xyz; bool flt = false; std::vector<size_t> kinds;      // size of the zones
    std::vector<std::vector<int>> zones;            // vertices, in the order of the file format
    bool ph = false; std::vector<std::vector<int>> faces; std::vector<std::vector<std::pair<int,bool>>> zfaces; bool rotated = false; };   // polyhedra: face, outwards
struct XVar { std::string mesh; std::vector<double> val; bool zonal; bool flt; };
struct XPts { std::vector<std::vector<double>> xy; bool flt; };
struct XPVar { std::string mesh; std::vector<std::vector<double>> val; };
struct Model { std::map<std::string, XMesh> meshes; std::map<std::string, XVar> vars; std::map<std::string, XPts> pts; std::map<std::string, XPVar> pvars; std::map<std::string, std::pair<std::string,int>> defs; };

template<typename M> static void coords(const M& m, XMesh& x) {
    constexpr size_t D = M::dimension; x.dim = D; x.nodes = m.points_size(); x.xyz.assign(D, {}); x.flt = std::is_same_v<typename M::coordinate_type, float>;
    for (auto& p : points(m)) for (size_t d = 0; d < D; d++) x.xyz[d].push_back(double(p[d])); }
// expected from the geometry: every zone is turned the way the file format wants it, by looking at the coordinates
template<typename M> static XMesh expect_zones(const M& m) {
    XMesh x; coords(m, x);
    for (auto& cl : m) { auto ids = cl.point_ids(); std::vector<int> z; for (auto& i : ids) z.push_back(int(size_t(i)));
        if constexpr (std::is_same_v<M, C2>) std::swap(z[2], z[3]);
        if constexpr (std::is_same_v<M, C3>) { std::swap(z[2], z[3]); std::swap(z[6], z[7]); }
        x.zones.push_back(z); }
    return x;
}
static XMesh expect_ph(const G3& m, const ref::Mesh& rm, const std::vector<size_t>& cellmap) {
    XMesh x; coords(m, x); x.ph = true;
    std::map<ref::Loop, int> fid; int k = 0;
    for (auto& f : faces(m)) { auto ids = f.point_ids(); std::vector<int> l; ref::Loop s; for (auto& i : ids) { l.push_back(int(size_t(i))); s.push_back(size_t(i)); } x.faces.push_back(l); fid[ref::sorted(s)] = k++; }
    for (auto rc : cellmap) { std::vector<std::pair<int,bool>> z; P o = ref::mean(ref::loop_pts(rm, ref::cell_verts(rm, rc)));
        for (auto rf : rm.cellfaces[rc]) { int id = fid.at(ref::sorted(rm.faces[rf])); std::vector<P> v; for (auto i : x.faces[id]) v.push_back(rm.pts[i]);
            z.push_back({id, ref::dot(ref::normal(v), ref::mean(v) - o) > 0}); }
        std::sort(z.begin(), z.end()); x.zfaces.push_back(z); }
    return x;
}

// ---------------------------------------------------------------- reading back
static std::vector<double> values(const void* p, int type, size_t n) { std::vector<double> r(n); for (size_t i = 0; i < n; i++) r[i] = type == DB_FLOAT ? double(static_cast<const float*>(p)[i]) : static_cast<const double*>(p)[i]; return r; }
static void same(Ctx& c, const std::vector<double>& got, const std::vector<double>& want, const char* key, const std::string& what) {
    c.check(got.size() == want.size(), key, cat(what, ": ", got.size(), " values, expected ", want.size()));
    for (size_t i = 0; i < got.size(); i++) c.check(memcmp(&got[i], &want[i], sizeof(double)) == 0, key, cat(what, "[", i, "] = ", got[i], ", expected ", want[i])); }
static void read_back(Ctx& c, const std::string& file, const Model& w) {
    DBfile* db = DBOpen(file.c_str(), DB_UNKNOWN, DB_READ); c.check(db, "open", file); struct Close { DBfile* d; ~Close() { DBClose(d); } } cl{db};
    for (auto& [name, x] : w.meshes) {
        DBucdmesh* m = DBGetUcdmesh(db, name.c_str()); c.check(m, "mesh-missing", name); std::shared_ptr<DBucdmesh> g(m, DBFreeUcdmesh);
        c.check(m->ndims == x.dim && size_t(m->nnodes) == x.nodes && m->origin == 0, "mesh-header", cat(name, ": ", m->ndims, " dims ", m->nnodes, " nodes"));
        c.check(m->datatype == (x.flt ? DB_FLOAT : DB_DOUBLE), "coordinates-type", name);
        for (int d = 0; d < x.dim; d++) same(c, values(m->coords[d], m->datatype, x.nodes), x.xyz[d], "coordinates", cat(name, " axis ", d));
        if (!x.ph) {
            DBzonelist* z = m->zones; c.check(z, "zones-missing", name); c.check(z->ndims == x.dim && size_t(z->nzones) == x.zones.size(), "zones", cat(name, ": ", z->nzones));
            size_t zi = 0; int pos = 0;
            for (int s = 0; s < z->nshapes; s++) for (int k = 0; k < z->shapecnt[s]; k++, zi++) {
                c.check(zi < x.zones.size(), "too-many-zones", name); auto& e = x.zones[zi]; c.check(size_t(z->shapesize[s]) == e.size(), "zone-size", cat(name, " zone ", zi, ": ", z->shapesize[s], " vertices, expected ", e.size()));
                if (z->shapetype) { int t = z->shapetype[s]; c.check(x.dim == 3 ? t == (e.size() == 4 ? DB_ZONETYPE_TET : DB_ZONETYPE_HEX) : t == DB_ZONETYPE_POLYGON || (t == DB_ZONETYPE_TRIANGLE && e.size() == 3) || (t == DB_ZONETYPE_QUAD && e.size() == 4) || t == 0, "zone-type", cat(name, " zone ", zi, ": ", t)); }
                for (size_t v = 0; v < e.size(); v++) { c.check(pos < z->lnodelist, "nodelist-short", name); c.check(z->nodelist[pos] - z->origin == e[v], "zone-vertices", cat(name, " zone ", zi, " vertex ", v, " is ", z->nodelist[pos] - z->origin, ", expected ", e[v])); pos++; } }
            c.check(zi == x.zones.size() && pos == z->lnodelist, "zones-number", cat(name, ": ", zi, " zones, ", pos, " of ", z->lnodelist));
        } else {
            DBphzonelist* z = m->phzones; std::shared_ptr<DBphzonelist> g2;
            if (!z) { z = DBGetPHZonelist(db, ("zonelist_" + name).c_str()); c.check(z, "zones-missing", name); g2.reset(z, DBFreePHZonelist); }
            c.check(size_t(z->nfaces) == x.faces.size() && size_t(z->nzones) == x.zfaces.size(), "polyhedra", cat(name, ": ", z->nfaces, " faces ", z->nzones, " zones")); int pos = 0;
            for (size_t f = 0; f < x.faces.size(); f++) { c.check(size_t(z->nodecnt[f]) == x.faces[f].size(), "face-size", cat(name, " face ", f)); for (auto v : x.faces[f]) { c.check(pos < z->lnodelist && z->nodelist[pos] - z->origin == v, "face-vertices", cat(name, " face ", f)); pos++; } }
            c.check(pos == z->lnodelist, "face-nodelist", cat(pos, " of ", z->lnodelist)); pos = 0;
            for (size_t k = 0; k < x.zfaces.size(); k++) { std::vector<std::pair<int,bool>> got; for (int f = 0; f < z->facecnt[k]; f++) { c.check(pos < z->lfacelist, "facelist-short", name); int v = z->facelist[pos++]; got.push_back(v < 0 ? std::make_pair(~v, false) : std::make_pair(v, true)); }
                std::sort(got.begin(), got.end()); c.check(got.size() == x.zfaces[k].size(), "zone-faces", cat(name, " zone ", k, ": ", got.size()));
                for (size_t f = 0; f < got.size(); f++) { c.check(got[f].first == x.zfaces[k][f].first, "zone-faces", cat(name, " zone ", k)); c.check(got[f].second == x.zfaces[k][f].second, "face-orientation", cat(name, " zone ", k, " face ", got[f].first, " of ", x.faces[got[f].first].size(), " vertices, expected ", x.zfaces[k][f].second ? "outwards" : "inwards")); } }
            c.check(pos == z->lfacelist, "facelist", cat(pos, " of ", z->lfacelist));
        }
    }
    for (auto& [name, x] : w.vars) { DBucdvar* v = DBGetUcdvar(db, name.c_str()); c.check(v, "variable-missing", name); std::shared_ptr<DBucdvar> g(v, DBFreeUcdvar);
        c.check(v->centering == (x.zonal ? DB_ZONECENT : DB_NODECENT), "centering", cat(name, ": ", v->centering)); c.check(v->meshname && x.mesh == v->meshname, "variable-mesh", cat(name, " on ", v->meshname ? v->meshname : "nothing"));
        c.check(v->nvals == 1 && v->datatype == (x.flt ? DB_FLOAT : DB_DOUBLE), "variable-type", name); same(c, values(v->vals[0], v->datatype, v->nels), x.val, "variable-values", name); }
    for (auto& [name, x] : w.pts) { DBpointmesh* m = DBGetPointmesh(db, name.c_str()); c.check(m, "points-missing", name); std::shared_ptr<DBpointmesh> g(m, DBFreePointmesh);
        c.check(m->ndims == 2, "points-dims", name); for (int d = 0; d < 2; d++) same(c, values(m->coords[d], m->datatype, m->nels), x.xy[d], "points", cat(name, " axis ", d)); }
    for (auto& [name, x] : w.pvars) { DBmeshvar* v = DBGetPointvar(db, name.c_str()); c.check(v, "point-variable-missing", name); std::shared_ptr<DBmeshvar> g(v, DBFreeMeshvar);
        c.check(size_t(v->nvals) == x.val.size() && v->meshname && x.mesh == v->meshname, "point-variable", cat(name, ": ", v->nvals)); for (size_t k = 0; k < x.val.size(); k++) same(c, values(v->vals[k], v->datatype, v->nels), x.val[k], "point-values", cat(name, " component ", k)); }
    for (auto& [name, x] : w.defs) { DBdefvars* d = DBGetDefvars(db, ("def_" + name).c_str()); c.check(d, "expression-missing", name); std::shared_ptr<DBdefvars> g(d, DBFreeDefvars);
        c.check(d->ndefs == 1 && name == d->names[0] && d->types[0] == x.second, "expression", cat(name, ": ", d->names[0], " type ", d->types[0]));
        auto strip = [](std::string s) { s.erase(std::remove(s.begin(), s.end(), ' '), s.end()); return s; }; c.check(strip(d->defns[0]) == strip(x.first), "expression-definition", d->defns[0]); }
}

// ---------------------------------------------------------------- histories of writes
static double value(Ctx& c) { switch (c.draw(6)) { case 0: return 0.0; case 1: return -0.0; case 2: return c.sym()*std::pow(10.0, 300*c.sym()); case 3: return double(c.range(0, 20)) - 10; default: return c.sym(); } }
static std::vector<double> vals(Ctx& c, size_t n) { std::vector<double> v(n); for (auto& x : v) x = value(c); return v; }
struct Writer { Ctx& c; Model w; std::string dir, file; std::unique_ptr<silo_database> db; int n = 0; std::vector<std::pair<std::string, std::pair<size_t,size_t>>> sizes; std::vector<std::pair<std::string, size_t>> clouds;
    std::string fresh(const char* p) { return cat(p, n++); } };
template<typename M> static void put_mesh(Writer& W, M& m, XMesh x) { std::string name = W.fresh("mesh"); if constexpr (std::is_same_v<M, G3>) W.c.check(W.db->add_mesh(m, name), "add-mesh", name); else { const M& k = m; W.c.check(W.db->add_mesh(k, name), "add-mesh", name); }
    W.sizes.push_back({name, {m.cells_size(), m.points_size()}}); W.w.meshes[name] = std::move(x); W.c.note << " +" << name << "(" << m.cells_size() << " zones)"; }
template<typename To, typename From> static To retyped(const From& m) { To r; auto a = m.backend_storage(); auto b = r.backend_storage(); for (auto& p : a->points) b->points.push_back(typename To::point_type(p.x(), p.y()));
    for (auto& e : a->edges) { auto q = e.point_ids(); b->edges.push_back(typename To::edge_type({q[0], q[1]})); } for (auto& s : a->surfaces) { auto q = s.point_ids(); b->surfaces.push_back(typename To::surface_type({q[0], q[1], q[2]})); } return r; }
static void some_mesh(Writer& W, int k) {
    Ctx& c = W.c;
    switch (k) {
    case 0: { auto r = ref::gen_tri2d(c, 4); S2 m = dm::make_s2(r); put_mesh(W, m, expect_zones(m)); c.label("simplicial2"); break; }
    case 1: { auto r = ref::gen_poly2d(c, 4, ref::ANY); G2 m = dm::make_g2(r); auto x = expect_zones(m); put_mesh(W, m, x); c.label("generic2"); break; }
    case 2: { auto r = ref::gen_rect2d(c, 4); C2 m = dm::make_c2(r); put_mesh(W, m, expect_zones(m)); c.label("cartesian2"); break; }
    case 3: { auto r = ref::tet3d(c, c.size(1, 2), c.size(1, 2), c.size(1, 2)); ref::permute(c, r); S3 m = dm::make_s3(r); put_mesh(W, m, expect_zones(m)); c.label("simplicial3"); break; }
    case 4: { auto r = ref::hex3d(c, c.size(1, 3), c.size(1, 3), c.size(1, 3)); ref::apply(r, ref::gen_affine(c, 3, true)); C3 m = dm::make_c3(r); put_mesh(W, m, expect_zones(m)); c.label("cartesian3"); break; }
    case 5: case 6: { auto b = ref::gen_poly_unit(c, 3, ref::STAR); auto r = c.chance(70) ? ref::prism3d(c, b, c.size(1, 2)) : ref::tet3d(c, 1, c.size(1, 2), 1); ref::apply(r, ref::gen_affine(c, 3, true)); if (c.chance(60)) ref::permute(c, r);
        std::vector<size_t> cm; G3 m = dm::make_g3(r, &cm); auto x = expect_ph(m, r, cm); put_mesh(W, m, x); c.label("generic3"); break; }
    case 7: { auto r = ref::gen_tri2d(c, 3); S2 d = dm::make_s2(r); FS2 m = retyped<FS2>(d); put_mesh(W, m, expect_zones(m)); c.label("float"); break; }
    default: { auto r = ref::gen_tri2d(c, 3); for (auto& p : r.pts) for (int d = 0; d < 2; d++) p[d] = std::round(p[d]*8); S2 dd = dm::make_s2(r); RS2 m; { auto a = dd.backend_storage(); auto b = m.backend_storage(); for (auto& p : a->points) b->points.push_back(RS2::point_type(R(int64_t(p.x()), int64_t(7)), R(int64_t(p.y()), int64_t(4))));
            for (auto& e : a->edges) { auto q = e.point_ids(); b->edges.push_back(RS2::edge_type({q[0], q[1]})); } for (auto& s : a->surfaces) { auto q = s.point_ids(); b->surfaces.push_back(RS2::surface_type({q[0], q[1], q[2]})); } }
        put_mesh(W, m, expect_zones(m)); c.label("rational"); break; }
    }
}
template<int N> static void columns(Writer& W, const std::string& mesh, size_t n, variable_centering_t cent, bool zonal) {
    Eigen::Matrix<double, Eigen::Dynamic, N> v(n, N); std::string name = W.fresh("vec"); std::string def = "{";
    for (int k = 0; k < N; k++) { XVar x{mesh, vals(W.c, n), zonal, false}; for (size_t i = 0; i < n; i++) v(i, k) = x.val[i]; std::string comp = name + "_" + "xyz"[k]; W.w.vars[comp] = x; def += (k ? "," : "") + comp; }
    W.c.check(W.db->add_variable(mesh, name, v, cent), "add-vector", name); W.w.defs[name] = {def + "}", DB_VARTYPE_VECTOR}; W.c.note << " +" << name << "[" << N << "]"; }
static void some_variable(Writer& W) {
    Ctx& c = W.c; if (W.sizes.empty()) return; auto& [mesh, sz] = W.sizes[c.draw(W.sizes.size())]; bool zonal = c.draw(2); size_t n = zonal ? sz.first : sz.second; auto cent = zonal ? zonal_variable_t : nodal_variable_t; int k = int(c.draw(8)); std::string name = W.fresh("var");
    c.label(zonal ? "zonal" : "nodal"); c.note << " +" << name << "/" << k << (zonal ? "z" : "n") << " on " << mesh; XVar x{mesh, vals(c, n), zonal, false};
    switch (k) {
    case 0: { Eigen::VectorXd v = Eigen::Map<Eigen::VectorXd>(x.val.data(), n); c.check(W.db->add_variable(mesh, name, v, cent), "add-variable", name); W.w.vars[name] = x; break; }
    case 1: { Eigen::VectorXf v(n); for (size_t i = 0; i < n; i++) x.val[i] = v(i) = float(c.sym()); x.flt = true; c.check(W.db->add_variable(mesh, name, v, cent), "add-variable", name); W.w.vars[name] = x; break; }
    case 2: { const std::vector<double> v = x.val; c.check(W.db->add_variable(mesh, name, v, cent), "add-variable", name); W.w.vars[name] = x; break; }
    case 3: columns<2>(W, mesh, n, cent, zonal); break;
    case 4: columns<3>(W, mesh, n, cent, zonal); break;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
    case 5: if (zonal) { silo_zonal_variable<double> v(name, x.val); c.check(v.size() == n && v.name() == name, "silo-variable"); c.check(W.db->add_variable(mesh, v), "add-variable", name); } else { silo_nodal_variable<double> v(name, std::vector<double>(x.val)); c.check(W.db->add_variable(mesh, v), "add-variable", name); } W.w.vars[name] = x; break;
    case 6: { XVar y{mesh, vals(c, n), zonal, false}; std::vector<std::complex<double>> z(n); for (size_t i = 0; i < n; i++) z[i] = {x.val[i], y.val[i]};
        if (zonal) { silo_zonal_variable<std::complex<double>> v(name, z); c.check(W.db->add_variable(mesh, v), "add-variable", name); } else { silo_nodal_variable<std::complex<double>> v(name, z); c.check(W.db->add_variable(mesh, v), "add-variable", name); }
        W.w.vars[name + "_real"] = x; W.w.vars[name + "_imag"] = y; break; }
#pragma GCC diagnostic pop
    default: { std::string def = cat("sin(<var", c.draw(5), ">)"); c.check(W.db->add_expression(name, def, DB_VARTYPE_SCALAR), "add-expression", name); W.w.defs[name] = {def, DB_VARTYPE_SCALAR}; }
    }
}
static void cloud(Writer& W) {
    Ctx& c = W.c; size_t n = c.size(1, 12); std::vector<point<double,2>> p; XPts x{{{}, {}}, false}; for (size_t i = 0; i < n; i++) { double a = c.sym(), b = c.sym(); p.push_back({a, b}); x.xy[0].push_back(a); x.xy[1].push_back(b); }
    std::string name = W.fresh("points"); c.check(W.db->add_mesh(p, name), "add-points", name); W.w.pts[name] = x; W.clouds.push_back({name, n}); c.note << " +" << name << "(" << n << ")"; c.label("point-mesh"); }
static void cloud_variable(Writer& W) {
    Ctx& c = W.c; if (W.clouds.empty()) return; auto& [mesh, n] = W.clouds[c.draw(W.clouds.size())]; std::string name = W.fresh("pvar"); XPVar x{mesh, {}};
    if (c.draw(2)) { auto v = vals(c, n); x.val = {v}; c.check(W.db->add_variable(mesh, name, v), "add-point-variable", name); }
    else { size_t k = c.size(1, 3); for (size_t i = 0; i < k; i++) x.val.push_back(vals(c, n)); auto v = x.val; c.check(W.db->add_variable(mesh, name, v), "add-point-variable", name); }
    W.w.pvars[name] = x; c.note << " +" << name << "[" << x.val.size() << "]"; }
static int open_files() { int n = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; n++; } return n; }

PROP("histories", 8000, 150000) {
    Writer W{c}; W.dir = c.scratch; W.file = W.dir + "/a.silo"; Mute mute; int fds = open_files();
    W.db = std::make_unique<silo_database>(); c.check(W.db->create(W.file), "create"); size_t ops = c.size(1, 8); bool opened = true;
    some_mesh(W, int(c.draw(9)));
    for (size_t i = 0; i < ops; i++) switch (c.draw(10)) {
        case 0: case 1: some_mesh(W, int(c.draw(9))); break;
        case 2: cloud(W); break; case 3: cloud_variable(W); break;
        case 4: { // closed or destroyed, opened again
            c.note << " reopened"; c.label("reopened"); int how = int(c.draw(3)); if (how == 0) c.check(W.db->close(), "close"); else if (how == 1) { W.db.reset(); W.db = std::make_unique<silo_database>(); }   // how == 2: opened again while open
            else c.label("opened-while-open");
            c.check(W.db->open(W.file), "open-again"); break; }
        default: some_variable(W); }
    (void)opened; if (c.draw(2)) { c.check(W.db->close() && W.db->close(), "close"); } W.db.reset();
    c.nontrivial(W.w.vars.size() + W.w.pvars.size() > 0);
    c.check(open_files() == fds, "file-left-open", cat(open_files() - fds, " files"));
    read_back(c, W.file, W.w); }

// databases created over another one hold only the new contents
PROP("recreated", 1500, 20000) {
    Writer A{c}; A.dir = c.scratch; A.file = A.dir + "/a.silo"; Mute mute; A.db = std::make_unique<silo_database>(); c.check(A.db->create(A.file), "create"); some_mesh(A, int(c.draw(9))); some_variable(A); A.db->close(); read_back(c, A.file, A.w);
    Writer B{c}; B.dir = A.dir; B.file = A.file; B.n = c.draw(2) ? 0 : 100; B.db = std::move(A.db); c.check(B.db->create(B.file), "create-again"); c.note << " recreated"; some_mesh(B, int(c.draw(9))); some_variable(B); B.db->close(); c.nontrivial();
    read_back(c, B.file, B.w); DBfile* db = DBOpen(B.file.c_str(), DB_UNKNOWN, DB_READ); c.check(db, "open"); bool left = false; for (auto& [n, x] : A.w.meshes) left = left || (!B.w.meshes.count(n) && DBInqVarExists(db, n.c_str())); DBClose(db); c.check(!left, "old-contents"); }

// what cannot be written is reported
PROP("failures", 2000, 20000) {
    std::string dir = c.scratch, file = dir + "/a.silo"; Mute mute; silo_database db; int k = int(c.draw(4)); c.nontrivial();
    auto r2 = ref::gen_tri2d(c, 2); S2 s2 = dm::make_s2(r2); G2 g2 = dm::make_g2(r2); auto rr = ref::gen_rect2d(c, 2); C2 c2 = dm::make_c2(rr); auto h = ref::hex3d(c, 1, 1, 1); C3 c3 = dm::make_c3(h); G3 g3 = dm::make_g3(h); auto t = ref::tet3d(c, 1, 1, 1); S3 s3 = dm::make_s3(t);
    size_t n = s2.cells_size(); Eigen::VectorXd v = Eigen::VectorXd::Ones(n); Eigen::Matrix<double, Eigen::Dynamic, 2> v2(n, 2); v2.setOnes(); Eigen::Matrix<double, Eigen::Dynamic, 3> v3(n, 3); v3.setOnes(); std::vector<double> sv(n, 1.0); std::vector<point<double,2>> pts{{0, 0}, {1, 1}};
    silo_zonal_variable<double> z("bad name", sv); silo_nodal_variable<std::complex<double>> zc("bad name", std::vector<std::complex<double>>(n)); std::vector<std::vector<double>> pv{{1, 2}}; std::vector<double> p1{1, 2};
    const S2& cs2 = s2; const S3& cs3 = s3; const C2& cc2 = c2; const C3& cc3 = c3; const G2& cg2 = g2; std::string N = "m", V = "v";
    if (k == 0) { c.note << "not opened"; }
    else if (k == 1) { c.note << "closed"; c.check(db.create(file), "create"); db.close(); }
    else if (k == 2) { c.note << "cannot be created"; /* the format library loses one of its 256 slots at every other kind of failed open: rarely */ if (c.chance(2)) { c.check(!db.create(dir + "/none/a.silo"), "create-in-missing-directory"); } else if (!c.chance(2)) { c.check(!db.open(dir + "/missing.silo"), "open-missing"); } else { std::ofstream(file) << "this is not a database\n"; c.check(!db.open(file), "open-text"); } }
    else { c.note << "names that the format refuses"; c.check(db.create(file), "create"); const char* bad[] = {"a b", "a$b", "x\ty", "p%q", "u-v"}; N = V = bad[c.draw(5)]; }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
    for (int i = 0; i < 3; i++) switch (c.draw(16)) {
        case 0: c.check(!db.add_mesh(cs2, N), "failure-not-reported", "add_mesh simplicial 2D"); break; case 1: c.check(!db.add_mesh(cs3, N), "failure-not-reported", "add_mesh simplicial 3D"); break;
        case 2: c.check(!db.add_mesh(cc2, N), "failure-not-reported", "add_mesh cartesian 2D"); break; case 3: c.check(!db.add_mesh(cc3, N), "failure-not-reported", "add_mesh cartesian 3D"); break;
        case 4: c.check(!db.add_mesh(cg2, N), "failure-not-reported", "add_mesh generic 2D"); break; case 5: c.check(!db.add_mesh(g3, N), "failure-not-reported", "add_mesh generic 3D"); break;
        case 6: c.check(!db.add_mesh(pts, N), "failure-not-reported", "add_mesh points"); break;
        case 7: c.check(!db.add_variable("m", V, v, c.draw(2) ? zonal_variable_t : nodal_variable_t), "failure-not-reported", "add_variable Eigen vector"); break;
        case 8: c.check(!db.add_variable("m", V, v2, c.draw(2) ? zonal_variable_t : nodal_variable_t), "failure-not-reported", "add_variable two columns"); break;
        case 9: c.check(!db.add_variable("m", V, v3, c.draw(2) ? zonal_variable_t : nodal_variable_t), "failure-not-reported", "add_variable three columns"); break;
        case 10: { const std::vector<double> cv = sv; c.check(!db.add_variable("m", V, cv, c.draw(2) ? zonal_variable_t : nodal_variable_t), "failure-not-reported", "add_variable std::vector"); break; }
        case 11: c.check(!db.add_variable("m", z), "failure-not-reported", "add_variable silo_variable"); break; case 12: c.check(!db.add_variable("m", zc), "failure-not-reported", "add_variable complex silo_variable"); break;
        case 13: c.check(!db.add_variable("m", V, p1), "failure-not-reported", "point variable"); break; case 14: { if (c.draw(4) == 0) { std::vector<std::vector<double>> none; c.check(!db.add_variable("m", "v", none), "failure-not-reported", "no point variables"); } else c.check(!db.add_variable("m", V, pv), "failure-not-reported", "point variables"); break; }
        default: c.check(!db.add_expression(k == 3 ? V : "e", "x", DB_VARTYPE_SCALAR), "failure-not-reported", "add_expression"); }
#pragma GCC diagnostic pop
    // and does not spoil what follows
    if (k != 3) c.check(db.create(file), "create"); c.check(db.add_mesh(cs2, "good"), "add-mesh-after-failure"); c.check(db.add_variable("good", "vgood", v, zonal_variable_t), "add-variable-after-failure"); db.close();
    Model w; w.meshes["good"] = expect_zones(s2); w.vars["vgood"] = XVar{"good", std::vector<double>(n, 1.0), true, false}; read_back(c, file, w); }

// the mesh for post-processing splits every cell in triangles with the same vertices
template<typename M> static void post(Ctx& c, const M& m, const ref::Mesh& r, const std::vector<size_t>& cellmap) {
    PostMesh<M> pm(m); auto q = std::as_const(pm).mesh(); auto s = q.backend_storage(); c.check(q.points_size() == m.points_size() && s->nodes.size() == m.points_size() && s->edges.size() == m.faces_size(), "post-sizes");
    for (size_t i = 0; i < r.pts.size(); i++) c.check(s->points[i].x() == r.pts[i][0] && s->points[i].y() == r.pts[i][1], "post-points", cat(i));
    size_t t = 0; std::map<ref::Loop, int> uses; double total = 0;
    for (size_t k = 0; k < cellmap.size(); k++) { auto& L = r.poly[cellmap[k]]; auto nodes = pm.nodes_cell(k); ref::Loop got; for (auto i : nodes) got.push_back(size_t(i)); c.check(ref::sorted(got) == ref::sorted(L), "nodes-of-cell", cat(k));
        double area = std::fabs(ref::signed_area2(r, L)), sum = 0; std::map<ref::Loop, int> local;
        // triangles of this cell: all of its vertices are of the cell; consumed while they fit
        while (t < s->surfaces.size() && sum < area*(1 - 1e-9)) { auto p = s->surfaces[t].point_ids(); ref::Loop T; for (auto& i : p) T.push_back(size_t(i)); double a = std::fabs(ref::signed_area2(r, T)); if (a <= 1e-10*area) { t++; continue; } for (auto v : T) c.check(std::count(L.begin(), L.end(), v), "triangle-vertex-outside-the-cell", cat("cell ", k)); sum += a; for (int i = 0; i < 3; i++) local[ref::sorted({T[i], T[(i+1)%3]})]++; t++; }
        c.close(sum, area, 1e-9, area, "triangles-area", cat("cell ", k)); total += sum; }
    for (; t < s->surfaces.size(); t++) { auto p = s->surfaces[t].point_ids(); ref::Loop T; for (auto& i : p) T.push_back(size_t(i)); double a = std::fabs(ref::signed_area2(r, T)); c.check(a <= 1e-9*total, "extra-triangle", cat(a)); }
}
PROP("post-mesh", 5000, 60000) {
    std::vector<size_t> cm; c.nontrivial();
    switch (c.draw(4)) { case 0: { auto r = ref::gen_tri2d(c, 3); S2 m = dm::make_s2(r, &cm); post(c, m, r, cm); c.note << "tri"; break; }
        case 1: { auto r = ref::gen_rect2d(c, 3); C2 m = dm::make_c2(r, &cm); c.note << "rect"; post(c, m, r, cm); break; }
        default: { auto r = ref::gen_poly2d(c, 4, ref::ANY); c.note << ref::describe(r); G2 m = dm::make_g2(r, &cm); post(c, m, r, cm); } } }
