// Property-based testing engine: choice-tape generators with integrated
// shrinking, deterministic case seeds, forked workers (a crash or a hang of the
// code under test is a failure of the case that was running), replay.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <stdexcept>
#include <cmath>
#include <array>

namespace pbt {

struct Fail : public std::exception {
    std::string key, msg;
    Fail(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};          // the generated input is outside the domain

struct Tape;                // lives in shared memory

class Ctx {
public:
    Tape* tape = nullptr;
    bool replay = false;
    uint64_t rng = 0;
    size_t pos = 0;
    bool is_nontrivial = false;
    bool thorough = false;
    std::vector<std::string> labels;
    std::ostringstream note;            // description of the case (for samples / replays)
    std::string scratch;                // scratch directory private to this worker

    uint64_t draw(uint64_t n);          // uniform in [0,n); smaller is simpler
    long     range(long lo, long hi) { return lo + long(draw(uint64_t(hi - lo) + 1)); }
    size_t   size(size_t lo, size_t hi) { return size_t(range(long(lo), long(hi))); }
    bool     chance(int pct) { return draw(100) >= uint64_t(100 - pct); }   // shrinks to false
    double   unit() { return double(draw(1u << 16)) / double(1u << 16); }   // [0,1), shrinks to 0
    double   sym() {                                                       // (-1,1), shrinks to 0
        uint64_t v = draw(1u << 17); double u = double(v >> 1) / 65536.0; return (v & 1) ? -u : u; }
    double   real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template<typename T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; i--) { size_t j = i - 1 - draw(i); std::swap(v[i-1], v[j]); } }

    void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
    void label(const std::string& s) { labels.push_back(s); }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Fail(key, msg); }
    void check(bool ok, const std::string& key, const std::string& msg = "") { if (!ok) throw Fail(key, msg); }
    void check(bool ok, const char* key) { if (!ok) throw Fail(key, ""); }
    void close(double a, double b, double tol, double scale, const std::string& key, const std::string& msg = "") { close(a, b, tol, scale, key.c_str(), msg); }
    void close(double a, double b, double tol, double scale, const char* key) { if (!(std::fabs(a - b) <= tol * scale)) close(a, b, tol, scale, key, std::string()); }
    // |a-b| <= tol * scale; NaN fails
    void close(double a, double b, double tol, double scale, const char* key, const std::string& msg) {
        double d = std::fabs(a - b);
        if (!(d <= tol * scale)) {
            std::ostringstream ss; ss.precision(15);
            ss << msg << " got " << a << " expected " << b << " (difference " << d << ", allowed " << tol*scale << ")";
            throw Fail(key, ss.str());
        }
    }
};

using Fn = std::function<void(Ctx&)>;

struct Sub {
    std::string name;
    long quick, thorough;   // number of cases on each tier
    Fn fn;
};
std::vector<Sub>& registry();
struct Reg { Reg(const char* n, long q, long t, Fn f) { registry().push_back({n, q, t, f}); } };

template<typename... A> std::string cat(const A&... a) { std::ostringstream s; s.precision(12); (s << ... << a); return s.str(); }

} // namespace pbt

#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define PROP(NAME, QUICK, THOROUGH) \
    static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Ctx&); \
    static pbt::Reg PBT_CAT(pbt_reg_,__LINE__)(NAME, QUICK, THOROUGH, PBT_CAT(pbt_fn_,__LINE__)); \
    static void PBT_CAT(pbt_fn_,__LINE__)(pbt::Ctx& c)
