// Exhaustive explorer ("controlled choice" model checker) used by every check in /verif.
//
// A driver registers suites. A suite has a number of top-level configurations ("tops") which are distributed over
// worker processes, and a body which is executed once per complete sequence of choices (depth-first, no sampling).
// The body drives the real tagparser code, compares it with a reference model / independent decoder and calls fail()
// on disagreement. Crashes, sanitizer reports, runaway memory and hangs of an execution are violations as well.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace vt {

struct Fail { // deliberately not a std::exception
    std::string key, msg;
};
struct Skip { }; // execution is outside the stated bound (counted, not judged)

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
std::uint64_t hashBytes(const void *p, std::size_t n, std::uint64_t seed = 0x1234567);
inline std::uint64_t hashStr(std::string_view s, std::uint64_t seed = 0x1234567)
{
    return hashBytes(s.data(), s.size(), seed);
}
std::string hex(std::string_view s, std::size_t max = 96);
std::string quote(std::string_view s, std::size_t max = 96);

class Ctx {
public:
    // index of the top-level configuration
    std::size_t top = 0;
    // deterministic choice in 0..n-1; all values are explored
    std::size_t choose(std::size_t n, const char *label = nullptr);
    // a choice where anything but 0 costs one deviation; once the budget is used up only 0 is taken
    std::size_t deviate(std::size_t n, const char *label = nullptr);
    std::size_t deviationBudget = ~std::size_t(0);
    template <class T, std::size_t N> const T &pick(const T (&arr)[N], const char *label = nullptr)
    {
        return arr[choose(N, label)];
    }
    template <class C> auto &pickFrom(C &c, const char *label = nullptr)
    {
        return c[choose(c.size(), label)];
    }
    bool flip(const char *label = nullptr)
    {
        return choose(2, label) == 1;
    }
    void log(const char *f, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const std::string &key, const char *f, ...) __attribute__((format(printf, 3, 4)));
    void check(bool cond, const std::string &key, const char *f, ...) __attribute__((format(printf, 4, 5)));
    // one transition of the system under test was executed and compared with the oracle
    void step(std::size_t n = 1);
    // a (canonical) state was reached; distinct values are counted
    void state(std::uint64_t h);
    // count a replay of a model trace/expected outcome against the implementation (complete execution counts by itself)
    [[noreturn]] void skip();
    std::string scratch() const; // scratch directory private to this worker process
    std::string file(const char *name) const
    {
        return scratch() + "/" + name;
    }
    // internals
    std::vector<std::uint32_t> choices, arity;
    std::size_t pos = 0, deviations = 0;
    std::string logText;
    bool verbose = false;
};

struct Suite {
    std::string name;
    std::function<std::size_t()> tops;
    std::function<void(Ctx &)> body;
};
std::vector<Suite> &suites();
struct Reg {
    Reg(const char *name, std::function<std::size_t()> tops, std::function<void(Ctx &)> body)
    {
        suites().push_back({ name, std::move(tops), std::move(body) });
    }
};
bool thorough(); // tier
extern const char *property; // defined by the driver
extern const char *rule; // defined by the driver: how cases are made and what makes one non-trivial
extern const char *assumptions; // defined by the driver; separated by '|'
// seconds after which a single execution is considered hanging (driver may override before main via initializer)
extern double caseTimeout;
extern std::size_t memLimitMb; // RLIMIT_AS of workers (0 = none), ignored with ASan
extern std::size_t fileLimitMb; // RLIMIT_FSIZE of workers

std::string readFile(const std::string &path);
void writeFile(const std::string &path, std::string_view data);
bool fileExists(const std::string &path);
std::vector<std::string> listDir(const std::string &path);
void removeAllIn(const std::string &dir); // removes the contents of a scratch directory (refuses anything else)

} // namespace vt

#define VT_SUITE(name, topsExpr)                                                                                                                     \
    static void vt_body_##name(vt::Ctx &c);                                                                                                          \
    static vt::Reg vt_reg_##name(#name, []() -> std::size_t { return topsExpr; }, vt_body_##name);                                                   \
    static void vt_body_##name([[maybe_unused]] vt::Ctx &c)
