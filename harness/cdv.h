// Support for the executable contracts: seeded cases, reporting, time budget.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace cdv {
struct Fail : std::exception {
    std::string m;
    explicit Fail(std::string s) : m(std::move(s)) {}
    const char* what() const noexcept override { return m.c_str(); }
};

struct Gen {
    uint64_t s;
    explicit Gen(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t in(uint64_t lo, uint64_t hi) { return lo + (hi - lo == UINT64_MAX ? next() : next() % (hi - lo + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double real(double lo, double hi) { return lo + (hi - lo) * ((next() >> 11) * (1.0 / 9007199254740992.0)); }
    template <class C> auto& pick(C& c)
    {
        auto it = c.begin();
        std::advance(it, in(0, c.size() - 1));
        return *it;
    }
};

// describe the current case (kept as sample / in the failure report)
struct Case {
    Gen g;
    bool nontrivial = false;
    std::ostringstream trace;
    const char* tier;
    explicit Case(uint64_t s, const char* t) : g(s), tier(t) {}
    bool thorough() const { return !strcmp(tier, "thorough"); }
};

struct Scenario {
    std::string props, name;
    uint64_t quick, full; // number of cases per tier
    std::function<void(Case&)> f;
};
inline std::vector<Scenario>& all()
{
    static std::vector<Scenario> v;
    return v;
}
struct Reg {
    Reg(const char* props, const char* name, uint64_t q, uint64_t f, std::function<void(Case&)> fn) { all().push_back({props, name, q, f, fn}); }
};
#define SCENARIO(props, name, quick, full)                       \
    static void name(cdv::Case&);                                \
    static cdv::Reg reg_##name(props, #name, quick, full, name); \
    static void name(cdv::Case& c)

#define REQUIRE(cond, msg)                                                       \
    do {                                                                         \
        if (!(cond)) {                                                           \
            std::ostringstream o_;                                               \
            o_ << msg << " [" << #cond << "]";                                   \
            throw cdv::Fail(o_.str());                                           \
        }                                                                        \
    } while (0)

inline double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char ch : s)
        h = (h ^ ch) * 1099511628211ull;
    return h;
}
inline char* progressPage = nullptr;
inline const char* curScenario = "?";
inline uint64_t curCase = 0;
inline void onAlarm(int)
{
    char b[256];
    int n = snprintf(b, sizeof b, "FAIL %s %llu the real code did not return within the time limit of one case\n", curScenario, (unsigned long long)curCase);
    (void)!write(1, b, n);
    _exit(1);
}
template <class F> bool throws(F f)
{
    try {
        f();
    } catch (const Fail&) {
        throw;
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
inline std::string clean(std::string s)
{
    for (auto& ch : s)
        if (ch == '\n' || ch == '\r')
            ch = ' ';
    return s.substr(0, 900);
}
inline int mainImpl(int argc, char** argv)
{
    std::string prop = "", tier = "quick", only, progress;
    uint64_t seed = 1;
    double budget = 20;
    bool replay = false;
    uint64_t rcase = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") prop = v;
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        if (a == "--tier") tier = v;
        if (a == "--time") budget = atof(v.c_str());
        if (a == "--progress") progress = v;
        if (a == "--scenario") only = v;
        if (a == "--case") { replay = true; rcase = strtoull(v.c_str(), 0, 10); }
    }
    if (!progress.empty()) {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && !ftruncate(fd, 4096))
            progressPage = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    signal(SIGALRM, onAlarm);
    int nsc = 0;
    auto mine = [&](const Scenario& s) { return (only.empty() || s.name == only) && (prop.empty() || (" " + s.props + " ").find(" " + prop + " ") != std::string::npos); };
    for (auto& s : all())
        nsc += mine(s);
    int fails = 0;
    for (auto& s : all()) {
        if (!mine(s))
            continue;
        double t0 = now(), lim = budget / (nsc ? nsc : 1);
        uint64_t n = tier == "thorough" ? s.full : s.quick, done = 0;
        std::set<uint64_t> seen;
        std::string sample;
        bool failed = false;
        curScenario = s.name.c_str();
        for (uint64_t i = 0; i < n && !failed; i++) {
            if (now() - t0 > lim && i > 0)
                break;
            uint64_t cs = replay ? rcase : hash(s.name, seed * 1000003ull + i);
            curCase = cs;
            if (progressPage)
                snprintf(progressPage, 4096, "%s %llu ", s.name.c_str(), (unsigned long long)cs);
            Case c(cs, tier.c_str());
            alarm(100);
            try {
                s.f(c);
            } catch (const std::exception& e) {
                alarm(0);
                printf("FAIL %s %llu %s | case: %s\n", s.name.c_str(), (unsigned long long)cs, clean(e.what()).c_str(), clean(c.trace.str()).c_str());
                failed = true;
                fails++;
            }
            alarm(0);
            done++;
            if (c.nontrivial)
                seen.insert(hash(c.trace.str().empty() ? std::to_string(cs) : c.trace.str()));
            if (sample.empty() && c.nontrivial)
                sample = clean(c.trace.str());
            if (replay)
                break;
        }
        printf("STAT %s %llu %llu\n", s.name.c_str(), (unsigned long long)done, (unsigned long long)seen.size());
        if (!sample.empty())
            printf("SAMPLE %s: %s\n", s.name.c_str(), sample.c_str());
    }
    fflush(stdout);
    _exit(fails ? 1 : 0);
}
} // namespace cdv
#define CDV_MAIN \
    int main(int argc, char** argv) { return cdv::mainImpl(argc, argv); }
