// L04: time stepping with bisection against an exact model; solver parameter files.
#include "pbt.hpp"
#include <iostream>
#include <fstream>
#include <map>
#include <list>
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/mechanics/NewtonSolver/TimeManager.hpp"
#include "diskpp/mechanics/NewtonSolver/StabilizationManager.hpp"
#include "diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp"
using pbt::Ctx; using pbt::cat; using namespace disk::mechanics;
struct Step { long double a, b; size_t lev; };
template<typename T> static void steps(Ctx& c) { std::vector<std::pair<T,int>> req; int n = c.range(1, 4); T t = 0; bool deci = c.chance(60); for (int i = 0; i < n; i++) { if (deci) t = T((std::round(double(t)*1000) + double(c.range(1, 3000)))/1000); else t += T(std::pow(10.0, c.range(-3, 3))*(0.05 + c.unit())); req.push_back({t, int(c.range(1, c.chance(30) ? 200 : 12))}); } int ctor = c.draw(3); if (ctor == 0) req.resize(1); T fin = req.back().first; if (ctor == 2) { int k = c.draw(4); if (k == 0) fin = req[c.draw(req.size())].first; else if (k == 1) { size_t i = c.draw(req.size()); T s = i ? req[i-1].first : T(0); int m = req[i].second, j = c.range(1, m); fin = s + T(j)*(req[i].first - s)/T(m); if (deci) fin = T(std::round(double(fin)*1e9)/1e9); } else if (k == 2) fin = T(c.unit())*req.back().first; else fin = req.back().first*2; if (!(fin > 0)) fin = req[0].first; }
    long double tol = 1e-6L; std::list<Step> ref; std::vector<T> exact; T s = 0; for (auto& [e, m] : req) { long double d = (static_cast<long double>(e) - s)/m; for (int i = 0; i < m; i++) { long double a = s + i*d, b = i + 1 == m ? static_cast<long double>(e) : s + (i + 1)*d; long double off = std::abs(b - fin); if (d < 1e-6L*fin || (off > 1e-9L*d && off < 1e-6L*d)) throw pbt::Discard(); if (off <= 1e-9L*d) b = fin; if (b > fin) goto done; ref.push_back({a, b, 0}); if (b == static_cast<long double>(e)) exact.push_back(e); } s = e; if (e >= fin) break; } done:; bool hits = !ref.empty() && ref.back().b == static_cast<long double>(fin); std::ostringstream os; for (auto& [e, m] : req) os << double(e) << "/" << m << " "; if (ctor == 2) os << "final " << double(fin); c.note << os.str(); std::string w = os.str();
    ListOfTimeStep<T> li = ctor == 0 ? ListOfTimeStep<T>(req[0].first, size_t(req[0].second)) : ctor == 1 ? ListOfTimeStep<T>(req) : ListOfTimeStep<T>(req, fin); c.check(li.numberOfTimeStep() == ref.size(), "number-of-steps", cat(w, ": got ", li.numberOfTimeStep(), " expected ", ref.size())); size_t done = 0; T last = 0; std::vector<T> ends; int ops = 0, pfail = c.pick(std::vector<int>{0, 20, 45}); size_t deepest = 0; int maxlev = c.range(1, 6); c.nontrivial(pfail > 0 || ctor > 0);
    while (true) { c.check(li.empty() == ref.empty(), "empty", w); c.check(li.numberOfRemainingTimeStep() == ref.size() && li.numberOfTimeStepRealized() == done && li.numberOfTimeStep() == ref.size() + done && li.indexOfCurrentTimeStep() == done + 1, "counters", w); if (li.empty()) break; auto st = li.getCurrentTimeStep(); auto& r = ref.front(); long double sc = std::max(std::abs(r.b - r.a), 1e-7L*r.b) + 1e-30L; c.check(st.start_time() == last, "gap-between-steps", cat(w, ": starts at ", double(st.start_time()), " after ", double(last))); c.check(st.end_time() > st.start_time(), "step-does-not-advance", w); c.close(double(st.start_time()), double(r.a), double(tol), double(sc), "start-time", w); c.close(double(st.end_time()), double(r.b), double(tol), double(sc), "end-time", w); c.check(st.increment_time() == st.end_time() - st.start_time(), "increment", w); c.check(st.level() == r.lev, "level", w);
        if (r.lev < size_t(maxlev) && c.chance(pfail) && ops++ < 400) { li.splitCurrentTimeStep(); long double m = (r.a + r.b)/2; Step s1{r.a, m, r.lev + 1}, s2{m, r.b, r.lev + 1}; ref.pop_front(); ref.push_front(s2); ref.push_front(s1); deepest = std::max(deepest, s1.lev); } else { last = st.end_time(); ends.push_back(last); li.removeCurrentTimeStep(); ref.pop_front(); done++; } }
    for (auto& e : exact) if (!(std::abs(e - fin) < 1e-9*fin)) c.check(std::find(ends.begin(), ends.end(), e) != ends.end(), "requested-time-not-reached-exactly", cat(w, ": ", double(e))); if (exact.size() && !ends.empty() && ctor != 2) c.check(ends.back() == req.back().first, "end-time-not-reached-exactly", w); if (ctor == 2 && hits) c.check(!ends.empty() && ends.back() == fin, "final-time-not-reached-exactly", w); c.label(cat("deepest ", deepest)); }
PROP("steps", 30000, 1000000) { steps<double>(c); }
PROP("steps-extended", 5000, 200000) { steps<long double>(c); }
// parameter files
struct P { std::string text; std::function<bool(const NewtonSolverParameter<double>&)> ok; };
static std::string word(Ctx& c, bool& v) { v = c.chance(50); return v ? (c.chance(50) ? "true" : "True") : c.pick(std::vector<std::string>{"false", "False", "no"}); }
static std::string num(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static std::string config(Ctx& c, std::vector<P>& ps) { using R = const NewtonSolverParameter<double>&; std::vector<int> ks; for (int i = 0; i < 19; i++) ks.push_back(i); c.shuffle(ks); ks.resize(c.range(0, 19)); bool stab = std::find(ks.begin(), ks.end(), 6) != ks.end(); for (int k : ks) { int a = c.range(0, 9); double x = (c.unit() + 0.001)*std::pow(10.0, c.range(-8, 8)); bool v; auto add = [&](std::string t, std::function<bool(R)> f) { ps.push_back({t, f}); }; switch (k) {
    case 0: add(cat("FaceDegree ", a), [=](R r) { return r.m_face_degree == a && r.getFaceDegree() == a; }); break; case 1: add(cat("CellDegree ", a), [=](R r) { return r.m_cell_degree == a && r.getCellDegree() == a; }); break; case 2: add(cat("GradDegree ", a), [=](R r) { return r.m_grad_degree == a && r.getGradDegree() == a; }); break; case 3: add(cat("Sublevel ", a), [=](R r) { return r.m_sublevel == a; }); break;
    case 4: { int n = c.range(0, 5); std::string t = cat("TimeStep ", n); std::vector<std::pair<double,int>> q; for (int i = 0; i < n; i++) { q.push_back({x + i, int(c.range(1, 99))}); t += "\n  " + num(q.back().first) + " " + std::to_string(q.back().second); } add(t, [=](R r) { return r.m_time_step == q; }); break; }
    case 5: add("FinalTime " + num(x), [=](R r) { return r.m_has_user_end_time && r.m_user_end_time == x; }); break; case 6: { auto w = word(c, v); add("Stabilization " + w, [=](R r) { return r.m_stab == v; }); break; } case 7: { auto w = word(c, v); add("AdaptativeStabilization " + w, [=](R r) { return r.m_adapt_stab == v; }); break; } case 8: { int q = c.draw(4); const char* nm[] = {"HDG", "HHO", "NO", "DG"}; add(cat("StabType ", nm[q]), [=](R r) { return stab || r.m_stab_type == q; }); break; }
    case 9: add("Beta " + num(x), [=](R r) { return r.m_beta == x && r.getStabilizationParameter() == x; }); break; case 10: { auto w = word(c, v); add("Verbose " + w, [=](R r) { return r.m_verbose == v && r.getVerbose() == v; }); break; } case 11: add(cat("IterMax ", a), [=](R r) { return r.m_iter_max == a; }); break; case 12: add("Epsilon " + num(x), [=](R r) { return r.m_epsilon == x; }); break; case 13: { auto w = word(c, v); add("Precomputation " + w, [=](R r) { return r.m_precomputation == v && r.getPrecomputation() == v; }); break; } case 14: add("Theta " + num(-x), [=](R r) { return r.m_theta == -x; }); break; case 15: add("Gamma0 " + num(x), [=](R r) { return r.m_gamma_0 == x; }); break;
    case 16: { int q = c.draw(3); const char* nm[] = {"NO", "TRESCA", "COULOMB"}; add(cat("Friction ", nm[q]), [=](R r) { return r.m_frot_type == q; }); break; } case 17: add("Threshold " + num(x), [=](R r) { return r.m_threshold == x; }); break; default: { if (c.chance(50)) { auto w = word(c, v); add("Dynamic " + w, [=](R r) { return r.m_dynamic == v && r.isUnsteady() == v; }); } else { int n = c.range(0, 4); std::string t = cat("TimeSave ", n); std::list<double> q; for (int i = 0; i < n; i++) { q.push_back(x*i); t += " " + num(q.back()); } add(t, [=](R r) { return r.m_n_time_save == n && r.m_time_save == q; }); } } } }
    std::string out = c.chance(90) ? "BeginParameters\n" : "\n  BeginParameters "; for (auto& p : ps) out += (c.chance(30) ? "   " : "") + p.text + (c.chance(80) ? "\n" : "  "); out += "EndParameters"; if (c.chance(70)) out += "\n"; if (c.chance(10)) out += " trailing text"; return out; }
static std::string write(Ctx& c, const std::string& s) { std::string f = c.scratch + "/newton.par"; std::ofstream(f, std::ios::binary) << s; return f; }
struct Quiet { std::streambuf* o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
PROP("parameters", 6000, 200000) { std::vector<P> ps; auto t = config(c, ps); c.note << t; c.nontrivial(ps.size() > 0); NewtonSolverParameter<double> r, d; bool ok; { Quiet q; ok = r.readParameters(write(c, t)); } c.check(ok, "well-formed-file-refused", t); for (auto& p : ps) c.check(p.ok(r), "parameter-lost", p.text); auto has = [&](const char* k) { return t.find(k) != std::string::npos; }; if (!has("FaceDegree")) c.check(r.m_face_degree == d.m_face_degree, "default-changed"); if (!has("TimeStep")) c.check(r.m_time_step == d.m_time_step, "default-changed"); if (!has("Beta")) c.check(r.m_beta == d.m_beta, "default-changed"); if (!has("FinalTime")) c.check(!r.m_has_user_end_time, "default-changed"); if (!has("Epsilon")) c.check(r.m_epsilon == d.m_epsilon, "default-changed"); if (!has("Stabilization")) c.check(r.m_stab == d.m_stab, "default-changed");
    r.setTimeStep(3.5, 7); c.check(r.m_time_step == std::vector<std::pair<double,int>>{{3.5, 7}}, "set-time-step"); r.setGradDegree(4); r.setFaceDegree(2); r.setCellDegree(3); r.setStabilizationParameter(9); r.setVerbose(true); r.setPrecomputation(true); r.isUnsteady(true); r.setUnsteadyParameters({{"beta", 0.25}}); c.check(r.getGradDegree() == 4 && r.getFaceDegree() == 2 && r.getCellDegree() == 3 && r.getStabilizationParameter() == 9 && r.getVerbose() && r.getPrecomputation() && r.isUnsteady() && r.getUnsteadyParameters().at("beta") == 0.25, "setters"); }
PROP("malformed-parameters", 6000, 200000) { std::vector<P> ps; auto t = config(c, ps); c.nontrivial(); int kind = c.draw(5); bool refuse = false; std::string u = t; switch (kind) { case 0: { size_t e = t.find("EndParameters"); u = t.substr(0, c.draw(e + 13)); refuse = true; break; } case 1: { size_t e = t.find("EndParameters"); u = t.substr(0, e) + "Unknown 3\n" + t.substr(e); refuse = true; break; } case 2: u = t.substr(t.find("BeginParameters") + 15); refuse = true; break; case 3: { size_t e = t.find("EndParameters"); u = t.substr(0, e) + c.pick(std::vector<std::string>{"FaceDegree x\n", "TimeStep 3 1.0\n", "Beta many\n", "TimeSave 2 0.5\n"}) + t.substr(e); refuse = true; break; } default: { int n = c.range(1, 8); for (int i = 0; i < n && u.size(); i++) { size_t p = c.draw(u.size()); switch (c.draw(3)) { case 0: u[p] = char(c.draw(256)); break; case 1: u.erase(p, c.range(1, 4)); break; default: u.insert(p, 1, char(c.range(32, 126))); } } } }
    c.label(cat("kind ", kind)); c.note << u; NewtonSolverParameter<double> r; bool ok = false; { Quiet q; try { ok = r.readParameters(write(c, u)); } catch (const std::exception&) {} } if (refuse) c.check(!ok, "malformed-file-accepted", u); NewtonSolverParameter<double> z; { Quiet q; c.check(!z.readParameters(c.scratch + "/missing.par"), "missing-file-accepted"); } }
PROP("stabilization", 3000, 100000) { disk::simplicial_mesh<double,2> msh; auto m = disk::make_simple_mesher(msh); for (int i = c.range(0, 1); i > 0; i--) m.refine(); size_t n = msh.cells_size(); double v = c.unit(); StabCoeffManager<double> s(msh, v); std::vector<double> cur(n, v), nxt(n, v); std::vector<disk::simplicial_mesh<double,2>::cell> cl(msh.cells_begin(), msh.cells_end()); c.nontrivial(); for (int k = c.range(1, 20); k > 0; k--) { size_t i = c.draw(n); double x = c.sym(); switch (c.draw(3)) { case 0: s.setValue(msh, cl[i], x); cur[i] = x; break; case 1: s.setValueNext(msh, cl[i], x); nxt[i] = x; break; default: s.update(); cur = nxt; } for (size_t j = 0; j < n; j++) c.check(s.getValue(msh, cl[j]) == cur[j], "stabilization-coefficient"); } }
