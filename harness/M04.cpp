// M04: a missing, truncated or malformed mesh file is refused or gives a mesh made of existing elements; never a crash, a hang or an access outside the data.
// Built with AddressSanitizer and UndefinedBehaviorSanitizer, assertions off (as the project does).
#include <optional>
#include <set>
#include <new>
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
#include "diskmesh.hpp"
#include "meshfiles.hpp"
#include "diskpp/loaders/loader.hpp"
using namespace disk; using namespace dm;
using pbt::Ctx; using pbt::cat; using ref::P; using ref::Loop;

// a limited memory: a header that announces too many elements ends in std::bad_alloc
static void* limited(size_t n) { if (n > (size_t(1) << 28)) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return limited(n); }
void* operator new[](size_t n) { return limited(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

enum Format { NETGEN2, NETGEN3, QUAD, HEX, FVCA5, FVCA6, MEDIT2, MEDIT3, POLY2, POLY3, NFORMATS };
static const char* names[] = {"netgen2d", "netgen3d", "quad", "hex", "fvca5", "fvca6", "medit2d", "medit3d", "poly2d", "poly3d"};
static const char* exts[] = {"mesh2d", "mesh", "quad", "hex", "typ1", "msh", "medit2d", "medit3d", "poly2d", "poly3d"};

template<typename M> static void valid(Ctx& c, const M& msh, const std::string& w) {
    auto st = msh.backend_storage(); size_t np = msh.points_size(), k = 0;
    c.check(st->nodes.size() == np, w + "/nodes", cat(st->nodes.size(), " nodes ", np, " points"));
    for (auto& n : st->nodes) c.check(size_t(n.point_ids()[0]) < np, w + "/node-without-point");
    c.check(st->boundary_info.size() == msh.faces_size(), w + "/boundary-infos", cat(st->boundary_info.size(), " for ", msh.faces_size(), " faces"));
    c.check(st->subdomain_info.size() == msh.cells_size(), w + "/subdomain-infos", cat(st->subdomain_info.size(), " for ", msh.cells_size(), " cells"));
    for (auto& cl : msh) { for (auto& p : cl.point_ids()) c.check(size_t(p) < np, w + "/cell-with-inexistent-point", cat("cell ", k, " point ", size_t(p), " of ", np));
        if constexpr (std::is_same_v<M, G2> || std::is_same_v<M, G3>) for (auto it = cl.subelement_id_begin(); it != cl.subelement_id_end(); it++) c.check(size_t(*it) < msh.faces_size(), w + "/cell-with-inexistent-face", cat("cell ", k, " face ", size_t(*it), " of ", msh.faces_size()));
        for (auto& f : faces(msh, cl)) c.check(offset(msh, f) < msh.faces_size(), w + "/face-of-cell"); points(msh, cl); k++; }
    k = 0; for (auto& fc : faces(msh)) { for (auto& p : fc.point_ids()) c.check(size_t(p) < np, w + "/face-with-inexistent-point", cat("face ", k, " point ", size_t(p), " of ", np));
        if constexpr (std::is_same_v<M, G3>) for (auto it = fc.subelement_id_begin(); it != fc.subelement_id_end(); it++) c.check(size_t(*it) < st->edges.size(), w + "/face-with-inexistent-edge");
        points(msh, fc); k++; }
    if constexpr (M::dimension == 3) for (auto& e : st->edges) for (auto& p : e.point_ids()) c.check(size_t(p) < np, w + "/edge-with-inexistent-point");
}
struct Result { bool loaded; size_t points, cells, bfaces, last; std::string why; };
template<typename M> static Result attempt(Ctx& c, bool (*load)(const char*, M&), const std::string& fn, const char* w) {
    M msh; bool ok = false; std::string why = "false";
    try { ok = load(fn.c_str(), msh); } catch (const pbt::Fail&) { throw; } catch (const std::exception& e) { why = e.what(); }
    c.label(std::string(w) + (ok ? ":loaded" : ":refused")); if (!ok) return {false, 0, 0, 0, 0, why};
    valid(c, msh, w); size_t ids = 0; for (auto& b : msh.backend_storage()->boundary_info) if (b.is_boundary()) ids += b.id();
    return {true, msh.points_size(), msh.cells_size(), msh.boundary_faces_size(), ids, ""};
}
static Result load(Ctx& c, int fmt, const std::string& fn) {
    const char* w = names[fmt];
    switch (fmt) {
        case NETGEN2: return attempt<S2>(c, [](const char* f, S2& m) { return load_mesh_netgen(f, m); }, fn, w);
        case NETGEN3: return attempt<S3>(c, [](const char* f, S3& m) { return load_mesh_netgen(f, m); }, fn, w);
        case QUAD: return attempt<C2>(c, [](const char* f, C2& m) { return load_mesh_diskpp_cartesian(f, m); }, fn, w);
        case HEX: return attempt<C3>(c, [](const char* f, C3& m) { return load_mesh_diskpp_cartesian(f, m); }, fn, w);
        case FVCA5: return attempt<G2>(c, [](const char* f, G2& m) { return load_mesh_fvca5_2d(f, m); }, fn, w);
        case FVCA6: return attempt<G3>(c, [](const char* f, G3& m) { return load_mesh_fvca6_3d(f, m); }, fn, w);
        case MEDIT2: return attempt<G2>(c, [](const char* f, G2& m) { return load_mesh_medit(f, m); }, fn, w);
        case MEDIT3: return attempt<G3>(c, [](const char* f, G3& m) { return load_mesh_medit(f, m); }, fn, w);
        case POLY2: return attempt<G2>(c, [](const char* f, G2& m) { return load_mesh_poly(f, m); }, fn, w);
        default: return attempt<G3>(c, [](const char* f, G3& m) { return load_mesh_poly(f, m); }, fn, w);
    }
}
static ref::Mesh mesh_for(Ctx& c, int fmt) {
    switch (fmt) {
        case NETGEN2: { auto m = ref::gen_tri2d(c, 2); mf::relabel(c, m, false, false, true); return m; }
        case NETGEN3: { auto m = ref::gen_tet3d(c, 1); mf::relabel(c, m, false, false, true); return m; }
        case QUAD: { auto m = ref::gen_rect2d(c, 3); mf::relabel(c, m, false, true, true); return m; }
        case HEX: { auto m = ref::hex3d(c, c.size(1, 2), c.size(1, 2), 1); mf::relabel(c, m, false, true, true); return m; }
        case FVCA5: case MEDIT2: case POLY2: { auto m = ref::gen_poly_unit(c, 2, ref::ANY); if (!mf::limit_vertices(m, fmt == FVCA5 ? 8 : fmt == MEDIT2 ? 6 : 99)) throw pbt::Discard(); mf::relabel(c, m, fmt == FVCA5, fmt == FVCA5, true); return m; }
        default: { auto m = ref::gen_poly3d(c, 1, false); mf::relabel(c, m, fmt == FVCA6, fmt == FVCA6, fmt != FVCA6); return m; }
    }
}
static mf::File write(Ctx& c, int fmt, const ref::Mesh& m) {
    switch (fmt) {
        case NETGEN2: return mf::netgen2(c, m); case NETGEN3: return mf::netgen3(c, m); case QUAD: return mf::quad(c, m); case HEX: return mf::hex(c, m);
        case FVCA5: return mf::fvca5(c, m, c.chance(40)); case FVCA6: return mf::fvca6(c, m); case MEDIT2: return mf::medit2(c, m); case MEDIT3: return mf::medit3(c, m); default: return mf::poly(c, m);
    }
}
static bool space(char x) { return x == ' ' || x == '\n' || x == '\t' || x == '\r'; }
struct Tok { size_t b, e; };
static std::vector<Tok> tokens(const std::string& s) { std::vector<Tok> t; size_t i = 0; while (i < s.size()) { while (i < s.size() && space(s[i])) i++; size_t b = i; while (i < s.size() && !space(s[i])) i++; if (i > b) t.push_back({b, i}); } return t; }

PROP("missing", 300, 3000) {
    int fmt = int(c.draw(NFORMATS)), kind = int(c.draw(4)); c.nontrivial(); std::string fn = c.scratch + "/none." + exts[fmt];
    c.note << names[fmt] << (kind == 0 ? " absent" : kind == 1 ? " empty" : kind == 2 ? " directory" : " empty name");
    std::remove(fn.c_str()); ::rmdir(fn.c_str());
    if (kind == 1) std::ofstream(fn).flush(); if (kind == 2) ::mkdir(fn.c_str(), 0700); if (kind == 3) fn = "";
    auto r = load(c, fmt, fn); c.check(!r.loaded || (kind == 1 && r.points == 0 && fmt == FVCA5), "not-refused", names[fmt]);
    if (kind == 2) ::rmdir(fn.c_str());
}
PROP("truncated", 3000, 100000) {
    int fmt = int(c.draw(NFORMATS)); auto m = mesh_for(c, fmt); auto f = write(c, fmt, m); auto t = tokens(f.text); c.nontrivial(m.ncells() > 0);
    size_t cut = c.draw(f.text.size()); c.note << names[fmt] << " cut at " << cut << " of " << f.text.size(); f.text.resize(cut); c.note << ": ..." << f.text.substr(cut > 60 ? cut - 60 : 0);
    auto r = load(c, fmt, mf::save(c, f)); if (cut <= t.back().b && !(fmt == FVCA5 && cut == 0)) {
        // blocks of FVCA5 are optional: a file cut after the vertices has no cells
        c.check(!r.loaded || (fmt == FVCA5 && r.cells == 0), cat(names[fmt], "/incomplete-file-accepted"), cat(r.points, " points ", r.cells, " cells"));
    }
}
// the elements use a point that is not there
PROP("missing-point", 2000, 60000) {
    int fmt = int(c.draw(NFORMATS)); auto m = mesh_for(c, fmt); c.nontrivial(m.ncells() > 0); c.note << names[fmt] << " " << ref::describe(m);
    std::set<size_t> used; for (size_t i = 0; i < m.ncells(); i++) for (auto v : ref::cell_verts(m, i)) used.insert(v); if (!used.count(m.pts.size() - 1)) throw pbt::Discard();
    m.pts.pop_back(); auto f = write(c, fmt, m); auto r = load(c, fmt, mf::save(c, f)); c.check(!r.loaded, cat(names[fmt], "/missing-point-accepted"));
}
PROP("corrupt", 40000, 600000) {
    int fmt = int(c.draw(NFORMATS)); auto m = mesh_for(c, fmt); auto f = write(c, fmt, m); c.nontrivial(m.ncells() > 0); auto& s = f.text;
    static const std::vector<std::string> evil{"0", "1", "2", "3", "-1", "1000", "99999", "100000000", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "nan", "inf", "1e999", "-0.0", "abc", "0x10", ".", "1.5", "+", "*Nodes", "End", "**EndMesh", "Edges", "vertices"};
    c.note << names[fmt]; size_t n = c.size(1, 3);
    for (size_t k = 0; k < n; k++) {
        auto t = tokens(s); if (t.empty()) break;
        auto lines = [&] { std::vector<Tok> l; size_t b = 0; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == '\n') { l.push_back({b, i < s.size() ? i + 1 : i}); b = i + 1; } return l; };
        switch (c.draw(9)) {
            case 0: { auto q = t[c.draw(t.size())]; auto& e = c.pick(evil); c.note << " token '" << s.substr(q.b, q.e - q.b) << "' at " << q.b << " -> '" << e << "'"; s.replace(q.b, q.e - q.b, e); break; }
            case 1: { auto q = t[c.draw(t.size())]; c.note << " token at " << q.b << " removed"; s.erase(q.b, q.e - q.b); break; }
            case 2: { auto q = t[c.draw(t.size())]; c.note << " token at " << q.b << " doubled"; s.insert(q.b, s.substr(q.b, q.e - q.b) + " "); break; }
            case 3: { auto a = t[c.draw(t.size())], b = t[c.draw(t.size())]; std::string x = s.substr(a.b, a.e - a.b); c.note << " token at " << b.b << " -> '" << x << "'"; s.replace(b.b, b.e - b.b, x); break; }
            case 4: { auto l = lines(); auto q = l[c.draw(l.size())]; c.note << " line at " << q.b << " removed"; s.erase(q.b, q.e - q.b); break; }
            case 5: { auto l = lines(); auto q = l[c.draw(l.size())]; std::string x = s.substr(q.b, q.e - q.b); auto p = l[c.draw(l.size())].b; c.note << " line at " << q.b << " copied to " << p; s.insert(p, x); break; }
            case 6: { size_t p = c.draw(s.size()); unsigned char v = (unsigned char)c.draw(256); c.note << " byte " << p << " -> " << int(v); s[p] = char(v); break; }
            case 7: { auto l = lines(); auto q = l[c.draw(l.size())]; size_t e = std::min(s.size(), q.b + c.draw(200)); c.note << " bytes " << q.b << "-" << e << " removed"; s.erase(q.b, e - q.b); break; }
            default: { auto q = t[c.draw(t.size())]; std::string x = s.substr(q.b, q.e - q.b); char* e; long v = strtol(x.c_str(), &e, 10); if (*e) break; long d = c.range(-2, 2); c.note << " number " << v << " at " << q.b << " changed by " << d; s.replace(q.b, q.e - q.b, std::to_string(long((unsigned long)v + (unsigned long)d))); break; }
        }
    }
    load(c, fmt, mf::save(c, f));
}
PROP("random-bytes", 1000, 20000) {
    int fmt = int(c.draw(NFORMATS)); mf::File f; f.ext = exts[fmt]; size_t n = c.size(0, 300); bool text = c.chance(60); c.nontrivial(n > 0); c.note << names[fmt] << " " << n << " bytes";
    for (size_t i = 0; i < n; i++) f.text += text ? "0123456789 \n.-e"[c.draw(15)] : char(c.draw(256)); load(c, fmt, mf::save(c, f));
}
// files that end exactly at the end of a memory page
PROP("page-size", 1500, 30000) {
    int fmt = int(c.draw(4)); auto m = mesh_for(c, fmt); auto f = write(c, fmt, m); size_t ids = 0; for (auto& [k, v] : m.bnd) ids += v; while (space(f.text.back())) f.text.pop_back();
    long off = c.range(-1, 1); size_t n = f.text.size(), target = (n / 4096 + 1) * 4096 + off; if (target < n) target += 4096; f.text = std::string(target - n, c.chance(50) ? ' ' : '\n') + f.text;
    c.note << names[fmt] << " file of " << f.text.size() << " bytes"; c.nontrivial(off == 0); auto r = load(c, fmt, mf::save(c, f));
    c.check(r.loaded, cat(names[fmt], "/refused"), r.why); c.check(r.points == m.pts.size() && r.cells == m.ncells() && r.bfaces == m.bnd.size() && r.last == ids, cat(names[fmt], "/page-size-changes-the-mesh"), cat(r.bfaces, " boundary faces, sum of ids ", r.last, " expected ", m.bnd.size(), " and ", ids));
}
