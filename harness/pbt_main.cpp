#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

namespace pbt {

static constexpr size_t TAPE_MAX = 1u << 18;
struct Tape {
    volatile int    running;    // 1 while a case is being evaluated
    volatile int    sub;
    volatile long   idx;
    volatile int    outcome;    // 0 none, 1 pass, 2 fail, 3 discard
    volatile size_t n;
    uint64_t        v[TAPE_MAX];
    char            key[256];
    char            msg[4096];
    char            note[4096];
};

std::vector<Sub>& registry() { static std::vector<Sub> r; return r; }

static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}

uint64_t Ctx::draw(uint64_t n) {
    if (n == 0) return 0;
    uint64_t r;
    if (replay) {
        r = pos < tape->n ? tape->v[pos] % n : 0;
        if (pos < TAPE_MAX) tape->v[pos] = r;
        pos++;
        return r;
    }
    r = splitmix(rng) % n;
    if (pos >= TAPE_MAX) throw Discard();
    tape->v[pos++] = r;
    tape->n = pos;
    return r;
}

static void copystr(char* dst, size_t n, const std::string& s) {
    size_t k = std::min(n - 1, s.size()); memcpy(dst, s.data(), k); dst[k] = 0;
}

static void arm(int secs) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static void wipe_dir(const std::string& d) {
    // removes the regular files of a flat scratch directory
    if (d.compare(0, 8, "/tmp/pbt") != 0) return;
    DIR* dp = opendir(d.c_str()); if (!dp) return;
    while (auto e = readdir(dp)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((d + "/" + n).c_str()); }
    closedir(dp);
}

// keeps the description of the case when the process dies in it
static Ctx* g_cur = nullptr;
static void save_note() { if (g_cur && g_cur->tape) { Tape* t = g_cur->tape; Ctx* c = g_cur; g_cur = nullptr; copystr(t->note, sizeof t->note, c->note.str()); } }
static void on_crash(int sig) { signal(sig, SIG_DFL); save_note(); raise(sig); }

static void eval(Ctx& c, const Sub& s) {
    Tape* t = c.tape;
    if (c.replay) { g_cur = &c; for (int sg : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(sg, on_crash); atexit(save_note); }
    t->outcome = 0; t->key[0] = t->msg[0] = 0;
    t->running = 1;
    static const int limit = getenv("PBT_HANG") ? atoi(getenv("PBT_HANG")) : 150;      // seconds of processor time
    arm(limit);
    try {
        s.fn(c);
        t->outcome = 1;
    } catch (const Fail& f) {
        t->outcome = 2; copystr(t->key, sizeof t->key, s.name + "/" + f.key); copystr(t->msg, sizeof t->msg, f.msg);
    } catch (const Discard&) {
        t->outcome = 3;
    } catch (const std::exception& e) {
        t->outcome = 2; copystr(t->key, sizeof t->key, s.name + "/exception"); copystr(t->msg, sizeof t->msg, std::string("uncaught exception: ") + e.what());
    } catch (...) {
        t->outcome = 2; copystr(t->key, sizeof t->key, s.name + "/exception"); copystr(t->msg, sizeof t->msg, "uncaught exception of unknown type");
    }
    arm(0);
    g_cur = nullptr;
    copystr(t->note, sizeof t->note, c.note.str());
    t->running = 0;
}

struct Failure { int sub; long idx; std::vector<uint64_t> tape; std::string key, msg, note; int count = 1; bool known = false; bool stable = true; };

static std::string scratch_root;
static bool g_thorough = false;

static Tape* new_tape() {
    void* p = mmap(nullptr, sizeof(Tape), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Tape*)p;
}

static std::string crash_name(int status) {
    if (WIFSIGNALED(status)) {
        if (WTERMSIG(status) == SIGVTALRM) return "hang";
        return std::string("crash-") + strsignal(WTERMSIG(status));
    }
    if (WIFEXITED(status)) return "exit-" + std::to_string(WEXITSTATUS(status));
    return "died";
}

static void silence() {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); if (!getenv("PBT_STDERR")) dup2(fd, 2); close(fd); }
}

// evaluates one tape in a forked child; returns failure key ("" when it passes)
static std::string run_isolated(int sub, const std::vector<uint64_t>& in, Tape* t, std::vector<uint64_t>* consumed, std::string* msg, std::string* note, bool quiet = true) {
    std::string sc = scratch_root + "/iso"; mkdir(sc.c_str(), 0700);
    t->n = std::min(in.size(), TAPE_MAX); memcpy((void*)t->v, in.data(), t->n * 8);
    t->outcome = 0; t->key[0] = t->msg[0] = t->note[0] = 0;  t->running = 0;
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) silence();
        if (chdir(sc.c_str())) {}
        Ctx c; c.tape = t; c.replay = true; c.scratch = sc; c.thorough = g_thorough;
        size_t n0 = t->n; (void)n0;
        eval(c, registry()[sub]);
        t->idx = (long)std::min(c.pos, TAPE_MAX);
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    wipe_dir(sc);
    bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0) || t->running;
    std::string key;
    if (crashed) { key = registry()[sub].name + "/" + crash_name(st); if (msg) *msg = "the process running the case died: " + crash_name(st); }
    else if (t->outcome == 2) { key = t->key; if (msg) *msg = t->msg; }
    if (note) *note = t->note;
    if (consumed) {
        size_t k = crashed ? size_t(t->n) : std::min(size_t(t->n), size_t(t->idx));
        consumed->assign(t->v, t->v + k);
    }
    return key;
}

static void shrink(Failure& f, Tape* t, int budget, double secs) {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return budget > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
    std::vector<uint64_t> best = f.tape, used;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        budget--;
        std::string m, n;
        if (run_isolated(f.sub, cand, t, &used, &m, &n) == f.key) { if (used.size() <= cand.size()) best = used; else best = cand; f.msg = m; f.note = n; return true; }
        return false;
    };
    attempt(best);
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1 && left(); chunk /= 2) {
            for (size_t i = 0; i < best.size() && left();) {          // zero out chunks
                auto cand = best; bool any = false;
                for (size_t j = i; j < std::min(best.size(), i + chunk); j++) { any |= cand[j] != 0; cand[j] = 0; }
                if (any && attempt(cand)) progress = true;
                i += chunk;
            }
            for (size_t i = 0; i < best.size() && left();) {          // delete chunks
                auto cand = best;
                cand.erase(cand.begin() + i, cand.begin() + std::min(best.size(), i + chunk));
                if (cand.size() < best.size() && attempt(cand)) progress = true; else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size() && left(); i++) {          // reduce values
            while (i < best.size() && best[i] > 0 && left()) {
                auto cand = best; cand[i] = best[i] / 2;
                if (attempt(cand)) { progress = true; continue; }
                cand = best; cand[i] = best[i] - 1;
                if (attempt(cand)) { progress = true; continue; }
                break;
            }
        }
    }
    f.tape = best;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

struct ShardOut {
    std::map<std::string, long> labels; long evals = 0, discards = 0, nontriv = 0; std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
};

// Runs the cases of one shard starting after (sub0, idx0); writes results to files.
static void worker(int shard, int shards, uint64_t seed, double factor, const std::string& only, int sub0, long idx0, Tape* t, const std::string& base) {
    silence();
    std::string sc = scratch_root + "/w" + std::to_string(shard);
    mkdir(sc.c_str(), 0700); if (chdir(sc.c_str())) {}
    FILE* fo = fopen((base + ".res").c_str(), "a");
    std::map<int, std::map<std::string,int>> failkeys;
    for (int s = sub0; s < (int)registry().size(); s++) {
        const Sub& sb = registry()[s];
        if (!only.empty() && sb.name.find(only) == std::string::npos) continue;
        long N = std::max<long>(1, (long)std::llround((g_thorough ? sb.thorough : sb.quick) * factor));
        uint64_t sh = fnv(sb.name.data(), sb.name.size());
        int samples = 0;
        for (long i = (s == sub0 ? idx0 : 0); i < N; i++) {
            if (int((i + s) % shards) != shard) continue;
            Ctx c; c.tape = t; c.scratch = sc; c.thorough = g_thorough;
            uint64_t st = seed * 0x9E3779B97F4A7C15ULL ^ sh ^ (uint64_t(i) * 0xD1B54A32D192ED03ULL);
            splitmix(st); c.rng = st;
            t->n = 0; t->sub = s; t->idx = i;
            eval(c, sb);
            if (t->outcome == 3) { fprintf(fo, "D %d\n", s); }
            else {
                uint64_t h = fnv((void*)t->v, t->n * 8, sh);
                fprintf(fo, "E %d %d %016llx\n", s, c.is_nontrivial ? 1 : 0, (unsigned long long)h);
                std::sort(c.labels.begin(), c.labels.end());
                c.labels.erase(std::unique(c.labels.begin(), c.labels.end()), c.labels.end());
                for (auto& l : c.labels) fprintf(fo, "L %d %s\n", s, l.c_str());
                if (c.is_nontrivial && samples < 1 && t->note[0]) { samples++; std::string n = t->note; std::replace(n.begin(), n.end(), '\n', ' '); fprintf(fo, "S %d %s\n", s, n.c_str()); }
            }
            if (t->outcome == 2) {
                int& k = failkeys[s][t->key];
                k++;
                if (k <= 2) {
                    std::string m = t->msg; std::replace(m.begin(), m.end(), '\n', ' ');
                    fprintf(fo, "F %d %ld %s\t%s\t", s, i, t->key, m.c_str());
                    for (size_t j = 0; j < t->n; j++) fprintf(fo, "%llu ", (unsigned long long)t->v[j]);
                    fprintf(fo, "\n");
                } else fprintf(fo, "X %d %s\n", s, t->key);
            }
            fflush(fo);
            if (t->outcome == 2) wipe_dir(sc);
        }
    }
    wipe_dir(sc);
    fclose(fo);
    _exit(0);
}

} // namespace pbt

using namespace pbt;

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    g_thorough = a["--tier"] == "thorough";
    uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
    int shards = a.count("--shards") ? atoi(a["--shards"].c_str()) : 8;
    double factor = a.count("--factor") ? atof(a["--factor"].c_str()) : 1.0;
    double maxsecs = a.count("--max-secs") ? atof(a["--max-secs"].c_str()) : 1e9;
    int max_shrink = a.count("--shrink") ? atoi(a["--shrink"].c_str()) : 250;
    std::sort(registry().begin(), registry().end(), [](const Sub& x, const Sub& y) { return x.name < y.name; });
    char tmpl[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    scratch_root = tmpl;
    Tape* iso = new_tape();
    auto cleanup = [&] {
        for (auto d : {std::string("/iso"), std::string("")}) if (!d.empty()) { wipe_dir(scratch_root + d); rmdir((scratch_root + d).c_str()); }
        for (int k = 0; k < 64; k++) { std::string d = scratch_root + "/w" + std::to_string(k); wipe_dir(d); rmdir(d.c_str()); }
        rmdir(scratch_root.c_str());
    };

    if (a.count("--replay")) {
        std::ifstream in(a["--replay"]); std::string line, sub; std::vector<uint64_t> tape;
        while (std::getline(in, line)) {
            if (line.rfind("sub ", 0) == 0) sub = line.substr(4);
            if (line.rfind("tier ", 0) == 0) g_thorough = line.substr(5) == "thorough";
            if (line.rfind("tape", 0) == 0) { std::istringstream ss(line.substr(4)); uint64_t x; while (ss >> x) tape.push_back(x); }
        }
        int si = -1; for (int i = 0; i < (int)registry().size(); i++) if (registry()[i].name == sub) si = i;
        if (si < 0) { std::cerr << "unknown sub-check " << sub << "\n"; cleanup(); return 2; }
        std::string m, n; auto key = run_isolated(si, tape, iso, nullptr, &m, &n, !getenv("PBT_LOUD"));
        std::cout << "input: " << n << "\n";
        if (key.empty()) std::cout << "PASS\n"; else std::cout << "FAIL " << key << ": " << m << "\n";
        cleanup();
        return key.empty() ? 0 : 1;
    }
    if (a.count("--list")) { for (auto& s : registry()) std::cout << s.name << " " << s.quick << " " << s.thorough << "\n"; cleanup(); return 0; }

    std::set<std::string> known;
    if (a.count("--known")) { std::ifstream in(a["--known"]); std::string l; while (std::getline(in, l)) if (!l.empty()) known.insert(l); }

    std::string out = a["--out"];
    auto t0 = std::chrono::steady_clock::now();
    struct W { pid_t pid; Tape* t; std::string base; bool done = false; std::map<int,int> deaths; };
    std::vector<W> ws(shards);
    std::vector<Failure> fails;
    auto launch = [&](int k, int sub0, long idx0) {
        ws[k].t->running = 0;
        pid_t p = fork();
        if (p == 0) { worker(k, shards, seed, factor, a.count("--sub") ? a["--sub"] : "", sub0, idx0, ws[k].t, ws[k].base); }
        ws[k].pid = p;
    };
    for (int k = 0; k < shards; k++) {
        ws[k].t = new_tape(); ws[k].base = scratch_root + "/shard" + std::to_string(k);
        launch(k, 0, 0);
    }
    int alive = shards; bool truncated = false;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            usleep(20000);
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxsecs && !truncated) {
                truncated = true;     // budget exhausted: stop exploring (never a violation)
                for (auto& w : ws) if (!w.done) { w.done = true; kill(w.pid, SIGKILL); }
            }
            continue;
        }
        for (int k = 0; k < shards; k++) if (ws[k].pid == p) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !ws[k].t->running) { ws[k].done = true; alive--; }
            else if (truncated) { alive--; }
            else {
                Tape* t = ws[k].t;
                Failure f; f.sub = t->sub; f.idx = t->idx; f.tape.assign(t->v, t->v + t->n);
                f.key = registry()[f.sub].name + "/" + crash_name(st);
                f.msg = "the process running the case died: " + crash_name(st);
                fails.push_back(f);
                int died = ++ws[k].deaths[f.sub];      // after a few deaths go on with the next sub-check
                if (died > 4) launch(k, f.sub + 1, 0); else launch(k, f.sub, f.idx + 1);
            }
        }
    }
    // collect
    std::map<int, ShardOut> agg;
    for (auto& w : ws) {
        std::ifstream in(w.base + ".res"); std::string line;
        while (std::getline(in, line)) {
            if (line.size() < 3) continue;
            char ty = line[0]; std::istringstream ss(line.substr(2)); int s; ss >> s; if (s < 0 || s >= (int)registry().size()) continue; auto& o = agg[s];
            if (ty == 'D') o.discards++;
            else if (ty == 'E') { int nt; std::string h; ss >> nt >> h; o.evals++; if (nt) { o.nontriv++; o.hashes.insert(strtoull(h.c_str(), 0, 16)); } }
            else if (ty == 'L') { std::string l; std::getline(ss, l); o.labels[l.empty() ? l : l.substr(1)]++; }
            else if (ty == 'S') { std::string l; std::getline(ss, l); o.samples.push_back(l.substr(1)); }
            else if (ty == 'F') {
                Failure f; f.sub = s; ss >> f.idx; std::string rest; std::getline(ss, rest); rest = rest.substr(1);
                auto p1 = rest.find('\t'), p2 = rest.rfind('\t');
                f.key = rest.substr(0, p1); f.msg = rest.substr(p1 + 1, p2 - p1 - 1);
                std::istringstream ts(rest.substr(p2 + 1)); uint64_t x; while (ts >> x) f.tape.push_back(x);
                fails.push_back(f);
            }
        }
        unlink((w.base + ".res").c_str());
    }
    for (auto& f : fails) if (f.key.find("crash") != std::string::npos || f.key.find("hang") != std::string::npos || f.key.find("/exit-") != std::string::npos) agg[f.sub].evals++;
    // one failure per key (the shortest tape), shrunk and replayed
    std::map<std::string, Failure> bykey;
    for (auto& f : fails) { auto it = bykey.find(f.key); if (it == bykey.end()) bykey[f.key] = f; else { it->second.count++; if (f.tape.size() < it->second.tape.size()) { int c = it->second.count; it->second = f; it->second.count = c; } } }
    std::vector<Failure> rep;
    double shrink_secs = 60; int nrep = 0;
    for (auto& [k, f] : bykey) {
        if (known.count(k)) { f.known = true; rep.push_back(f); continue; }
        if (nrep++ >= 4) { rep.push_back(f); continue; }
        shrink(f, iso, max_shrink, k.find("hang") != std::string::npos ? 1 : shrink_secs / 3);
        int ok = 0; std::string m, n;
        for (int r = 0; r < 3; r++) if (run_isolated(f.sub, f.tape, iso, nullptr, &m, &n) == f.key) ok++;
        if (ok == 3) { f.msg = m; if (!n.empty()) f.note = n; } else f.stable = false;
        rep.push_back(f);
    }
    std::ostringstream js;
    js << "{\"subs\":["; bool first = true; 
    for (auto& [s, o] : agg) {
        if (!first) js << ","; first = false;
        js << "{\"name\":" << jstr(registry()[s].name) << ",\"evaluations\":" << o.evals << ",\"discards\":" << o.discards << ",\"nontrivial\":" << o.nontriv << ",\"distinct_nontrivial\":" << o.hashes.size() << ",\"labels\":{";
        bool f2 = true; for (auto& [l, n] : o.labels) { if (!f2) js << ","; f2 = false; js << jstr(l) << ":" << n; }
        js << "},\"samples\":["; f2 = true; for (size_t i = 0; i < o.samples.size() && i < 2; i++) { if (!f2) js << ","; f2 = false; js << jstr(o.samples[i]); }
        js << "]}";
    }
    js << "],\"truncated\":" << (truncated ? "true" : "false") << ",\"failures\":["; first = true;
    for (auto& f : rep) {
        if (!first) js << ","; first = false;
        js << "{\"sub\":" << jstr(registry()[f.sub].name) << ",\"key\":" << jstr(f.key) << ",\"msg\":" << jstr(f.msg) << ",\"note\":" << jstr(f.note) << ",\"count\":" << f.count << ",\"known\":" << (f.known ? "true" : "false") << ",\"stable\":" << (f.stable ? "true" : "false") << ",\"tape\":[";
        for (size_t i = 0; i < f.tape.size(); i++) js << (i ? "," : "") << f.tape[i];
        js << "]}";
    }
    js << "]}";
    if (!out.empty()) { std::ofstream o(out); o << js.str(); } else std::cout << js.str() << "\n";
    cleanup();
    return 0;
}
