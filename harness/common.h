// Shared runtime-monitoring support: case runner, deterministic case generator,
// observation counters, breadcrumbs for crash attribution, result file.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mon {

struct Rng {
    uint64_t s[4];
    static uint64_t sm(uint64_t& x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 1) { for (auto& v : s) v = sm(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t u64() {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    double u() { return ((u64() >> 11) + 0.5) * 0x1.0p-53; }        // (0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return a * std::exp(u() * std::log(b / a)); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return u() < p; }
    double normal() { return std::sqrt(-2 * std::log(u())) * std::cos(6.283185307179586 * u()); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    double pickd(std::initializer_list<double> l) { return *(l.begin() + below(l.size())); }
    int picki(std::initializer_list<int> l) { return *(l.begin() + below(l.size())); }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}
inline std::string hx(double d) { return fmt("%.17g", d); }

struct Violation { std::string section; uint64_t index; std::string what, desc; };

struct State {
    uint64_t seed = 1;
    bool thorough = false;
    double scale = 1.0;
    std::string prop, out, only_section;
    int64_t only_index = -1;
    char* crumb = nullptr;
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, double> maxima;
    std::vector<std::string> samples;
    std::map<std::string, int> samplesPerSection;
    std::vector<Violation> violations;
    std::map<std::string, std::string> extra;   // free text facts
};
inline State& st() { static State s; return s; }

struct GiveUp {};   // too many violations

class Case {
public:
    Rng rng;
    std::string section; uint64_t index;
    std::string d;                // description of the generated case
    bool trivial = false;
    uint64_t checks = 0;
    Case(uint64_t seed, std::string sec, uint64_t i)
        : rng(fnv(sec, seed * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull + 77)), section(std::move(sec)), index(i) {}
    Case& desc(const char* f, ...) __attribute__((format(printf, 2, 3))) {
        char buf[1024]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
        if (d.size() < 3000) { if (!d.empty()) d += ' '; d += buf; }
        crumb();
        return *this;
    }
    void crumb() {
        if (st().crumb) { std::string t = section + ":" + std::to_string(index) + " " + d; strncpy(st().crumb, t.c_str(), 4000); st().crumb[4000] = 0; }
    }
    void fail(const std::string& what) {
        auto& v = st().violations;
        v.push_back({section, index, what, d});
        if (v.size() >= 12) throw GiveUp{};
    }
    bool expect(bool ok, const char* f, ...) __attribute__((format(printf, 3, 4))) {
        ++checks;
        if (ok) return true;
        char buf[1500]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
        fail(buf);
        return false;
    }
    // |a-b| <= rel*scale + abs, and both finite
    bool close(double got, double want, double rel, double scale, const char* f, ...) __attribute__((format(printf, 6, 7))) {
        ++checks;
        double tol = rel * std::max(std::fabs(scale), std::fabs(want)) + 1e-300;
        if (std::isfinite(got) && std::fabs(got - want) <= tol) return true;
        char buf[1200]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
        fail(fmt("%s: got %.17g expected %.17g (tol %.3g)", buf, got, want, tol));
        return false;
    }
    template <class E, class Fn> bool throws(Fn&& fn, const char* f, ...) {
        ++checks;
        std::string got = "no exception";
        try { fn(); }
        catch (const E&) { return true; }
        catch (const std::exception& e) { got = std::string("another exception: ") + e.what(); }
        catch (...) { got = "a non-standard exception"; }
        char buf[1000]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
        fail(std::string(buf) + ": " + got);
        return false;
    }
};

inline void count(const std::string& k, uint64_t n = 1) { st().counters[k] += n; }
inline void maxi(const std::string& k, double v) { auto [it, fresh] = st().maxima.emplace(k, v); if (!fresh && v > it->second) it->second = v; }

inline void run(const std::string& section, uint64_t quickCount, const std::function<void(Case&)>& body, double thoroughFactor = 20) {
    auto& S = st();
    if (!S.only_section.empty() && S.only_section != section) return;
    uint64_t n = S.thorough ? (uint64_t)(quickCount * thoroughFactor) : quickCount;
    n = (uint64_t)std::max(1.0, n * S.scale);
    for (uint64_t i = 0; i < n; ++i) {
        if (S.only_index >= 0 && (int64_t)i != S.only_index) continue;
        Case c(S.seed, section, i);
        c.crumb();
        try { body(c); }
        catch (const GiveUp&) { throw; }
        catch (const std::exception& e) { c.fail(std::string("unexpected exception: ") + e.what()); }
        catch (...) { c.fail("unexpected non-standard exception"); }
        ++S.evaluations;
        count("cases:" + section);
        count("oracle_checks", c.checks);
        if (!c.trivial && c.checks) S.distinct.insert(fnv(section + "|" + c.d));
        if (S.samplesPerSection[section] < 2 && S.samples.size() < 40) { ++S.samplesPerSection[section]; S.samples.push_back(section + ": " + c.d.substr(0, 400) + fmt(" [%llu oracle checks]", (unsigned long long)c.checks)); }
    }
}

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

inline void writeResult(bool complete) {
    auto& S = st();
    std::ostringstream o;
    o << "{\"complete\":" << (complete ? "true" : "false") << ",\"evaluations\":" << S.evaluations
      << ",\"distinct\":" << S.distinct.size() << ",\"counters\":{";
    bool f = true;
    for (auto& [k, v] : S.counters) { o << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
    o << "},\"maxima\":{"; f = true;
    for (auto& [k, v] : S.maxima) { o << (f ? "" : ",") << jstr(k) << ":" << (std::isfinite(v) ? fmt("%.6g", v) : std::string("null")); f = false; }
    o << "},\"extra\":{"; f = true;
    for (auto& [k, v] : S.extra) { o << (f ? "" : ",") << jstr(k) << ":" << jstr(v); f = false; }
    o << "},\"samples\":["; f = true;
    for (auto& s : S.samples) { o << (f ? "" : ",") << jstr(s); f = false; }
    o << "],\"violations\":["; f = true;
    for (auto& v : S.violations) { o << (f ? "" : ",") << "{\"section\":" << jstr(v.section) << ",\"index\":" << v.index << ",\"what\":" << jstr(v.what) << ",\"desc\":" << jstr(v.desc) << "}"; f = false; }
    o << "]}";
    std::string tmp = S.out + ".tmp";
    { std::ofstream os(tmp); os << o.str(); }
    rename(tmp.c_str(), S.out.c_str());
}

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };

using PropTable = std::map<std::string, std::function<void()>>;

inline int main_(int argc, char** argv, const PropTable& table) {
    auto& S = st();
    std::string crumbFile;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], b = argv[i + 1];
        if (a == "--prop") S.prop = b;
        else if (a == "--seed") S.seed = strtoull(b.c_str(), nullptr, 10);
        else if (a == "--tier") S.thorough = b == "thorough";
        else if (a == "--scale") S.scale = atof(b.c_str());
        else if (a == "--out") S.out = b;
        else if (a == "--crumb") crumbFile = b;
        else if (a == "--only") { auto p = b.rfind(':'); S.only_section = b.substr(0, p); S.only_index = p == std::string::npos ? -1 : atoll(b.c_str() + p + 1); }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 64; }
    }
    if (!crumbFile.empty()) {
        int fd = open(crumbFile.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) S.crumb = (char*)p;
        }
        if (fd >= 0) close(fd);
    }
    static NullBuf* nb = new NullBuf;
    std::cerr.rdbuf(nb);
    auto it = table.find(S.prop);
    if (it == table.end()) { fprintf(stderr, "unknown property %s\n", S.prop.c_str()); return 64; }
    try { it->second(); }
    catch (const GiveUp&) {}
    if (S.crumb) strcpy(S.crumb, "end of run");
    writeResult(true);
    return 0;
}

} // namespace mon
