#include "vt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VT_ASAN 1
#endif
#endif
#ifndef VT_ASAN
#define VT_ASAN 0
#endif

namespace vt {

double caseTimeout = 30.0;
std::size_t memLimitMb = 4096;
std::size_t fileLimitMb = 256;

std::vector<Suite> &suites()
{
    static std::vector<Suite> s;
    return s;
}

static std::string vfmt(const char *f, va_list ap)
{
    va_list ap2;
    va_copy(ap2, ap);
    const int n = vsnprintf(nullptr, 0, f, ap2);
    va_end(ap2);
    std::string s(n > 0 ? n : 0, '\0');
    if (n > 0)
        vsnprintf(s.data(), n + 1, f, ap);
    return s;
}
std::string fmt(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    return s;
}
std::uint64_t hashBytes(const void *p, std::size_t n, std::uint64_t h)
{
    auto *b = static_cast<const unsigned char *>(p);
    h ^= n * 0x9E3779B97F4A7C15ull;
    while (n >= 8) {
        std::uint64_t v;
        std::memcpy(&v, b, 8);
        h = mix(h, v);
        b += 8;
        n -= 8;
    }
    std::uint64_t v = 0;
    std::memcpy(&v, b, n);
    return mix(h, v);
}
std::string hex(std::string_view s, std::size_t max)
{
    std::string r;
    for (std::size_t i = 0; i < s.size() && i < max; ++i)
        r += fmt("%02x", static_cast<unsigned char>(s[i]));
    if (s.size() > max)
        r += fmt("...(%zu bytes)", s.size());
    return r;
}
std::string quote(std::string_view s, std::size_t max)
{
    std::string r = "\"";
    for (std::size_t i = 0; i < s.size() && i < max; ++i) {
        const auto ch = static_cast<unsigned char>(s[i]);
        if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\')
            r += static_cast<char>(ch);
        else
            r += fmt("\\x%02x", ch);
    }
    r += '"';
    if (s.size() > max)
        r += fmt("...(%zu bytes)", s.size());
    return r;
}

bool thorough()
{
    static const bool t = [] {
        const char *e = std::getenv("VERIF_TIER");
        return e && std::string_view(e) == "thorough";
    }();
    return t;
}

// ---------------------------------------------------------------------------------------------------------------
static std::string scratchBase;
static int workerId = -1;

struct Slot {
    std::atomic<std::uint64_t> seq; // incremented for each execution
    std::uint32_t suite, top, len;
    std::uint32_t choices[512], arity[512];
};
struct Shared {
    std::atomic<std::uint64_t> nextTask;
    std::atomic<std::uint64_t> execs, steps, skips, choicePoints, violations;
    std::atomic<std::uint64_t> maxDepth;
    std::atomic<int> stop;
    Slot slots[64];
};
static Shared *shm;
static std::unordered_set<std::uint64_t> stateSet;
static std::uint64_t localSteps, localSkips, localExecs, localChoice, localMaxDepth;
static Slot *slot;

std::string Ctx::scratch() const
{
    return scratchBase + "/w" + std::to_string(workerId);
}
std::size_t Ctx::choose(std::size_t n, const char *label)
{
    if (!n) {
        fprintf(stderr, "harness error: choose(0) at %s\n", label ? label : "?");
        _exit(97);
    }
    std::uint32_t v;
    if (pos < choices.size()) {
        v = choices[pos];
        if (pos < arity.size() && arity[pos] != n) {
            fprintf(stderr, "harness error: nondeterministic choice point %zu (%s): arity %u != %zu\n", pos, label ? label : "?", arity[pos], n);
            _exit(98);
        }
        if (pos >= arity.size())
            arity.push_back(n);
        if (v >= n) {
            fprintf(stderr, "harness error: choice out of range at point %zu (%s)\n", pos, label ? label : "?");
            _exit(98);
        }
    } else {
        v = 0;
        choices.push_back(0);
        arity.push_back(n);
    }
    if (slot && pos < 512) {
        slot->choices[pos] = v;
        slot->arity[pos] = n;
        slot->len = pos + 1;
    }
    ++pos;
    ++localChoice;
    if (verbose && label)
        log("choose %s: %u of %zu", label, v, n);
    return v;
}
std::size_t Ctx::deviate(std::size_t n, const char *label)
{
    if (deviations >= deviationBudget)
        return 0;
    const auto v = choose(n, label);
    if (v)
        ++deviations;
    return v;
}
void Ctx::log(const char *f, ...)
{
    if (logText.size() > 20000)
        return;
    va_list ap;
    va_start(ap, f);
    logText += vfmt(f, ap);
    logText += '\n';
    va_end(ap);
}
void Ctx::fail(const std::string &key, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    auto m = vfmt(f, ap);
    va_end(ap);
    throw Fail{ key, m };
}
void Ctx::check(bool cond, const std::string &key, const char *f, ...)
{
    if (cond)
        return;
    va_list ap;
    va_start(ap, f);
    auto m = vfmt(f, ap);
    va_end(ap);
    throw Fail{ key, m };
}
void Ctx::step(std::size_t n)
{
    localSteps += n;
}
void Ctx::state(std::uint64_t h)
{
    if (stateSet.size() < 3000000)
        stateSet.insert(h);
}
void Ctx::skip()
{
    throw Skip{};
}

// ---------------------------------------------------------------------------------------------------------------
std::string readFile(const std::string &path)
{
    FILE *f = fopen(path.c_str(), "rb");
    if (!f)
        throw Fail{ "harness-read", "unable to read " + path + ": " + strerror(errno) };
    std::string s;
    char buf[65536];
    std::size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0)
        s.append(buf, n);
    fclose(f);
    return s;
}
void writeFile(const std::string &path, std::string_view data)
{
    const int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) {
        fprintf(stderr, "harness error: unable to write %s: %s\n", path.c_str(), strerror(errno));
        _exit(97);
    }
    std::size_t off = 0;
    while (off < data.size()) {
        const auto n = ::write(fd, data.data() + off, data.size() - off);
        if (n <= 0) {
            fprintf(stderr, "harness error: unable to write %s: %s\n", path.c_str(), strerror(errno));
            _exit(97);
        }
        off += n;
    }
    ::close(fd);
}
bool fileExists(const std::string &path)
{
    struct stat st;
    return !lstat(path.c_str(), &st);
}
std::vector<std::string> listDir(const std::string &path)
{
    std::vector<std::string> r;
    if (DIR *d = opendir(path.c_str())) {
        while (auto *e = readdir(d)) {
            std::string n = e->d_name;
            if (n != "." && n != "..")
                r.push_back(n);
        }
        closedir(d);
    }
    std::sort(r.begin(), r.end());
    return r;
}
static void rmTree(const std::string &dir)
{
    for (const auto &n : listDir(dir)) {
        const auto p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st))
            continue;
        if (S_ISDIR(st.st_mode)) {
            chmod(p.c_str(), 0700);
            rmTree(p);
            rmdir(p.c_str());
        } else
            unlink(p.c_str());
    }
}
void removeAllIn(const std::string &dir)
{
    if (scratchBase.empty() || dir.compare(0, scratchBase.size(), scratchBase)) {
        fprintf(stderr, "harness error: refusing to clean %s\n", dir.c_str());
        _exit(97);
    }
    rmTree(dir);
}

// ---------------------------------------------------------------------------------------------------------------
struct Violation {
    std::uint32_t suite = 0, top = 0;
    std::vector<std::uint32_t> choices;
    std::string key, msg, log;
    bool crash = false, hang = false;
};

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// runs one execution; returns true if a violation was recorded in v
static bool runOne(Ctx &c, std::uint32_t s, Violation &v)
{
    c.pos = 0;
    c.deviations = 0;
    c.deviationBudget = ~std::size_t(0);
    c.logText.clear();
    if (slot) {
        slot->suite = s;
        slot->top = c.top;
        slot->len = 0;
        ++slot->seq;
    }
    ++localExecs;
    bool bad = false;
    try {
        suites()[s].body(c);
    } catch (const Skip &) {
        ++localSkips;
    } catch (const Fail &f) {
        v.key = f.key;
        v.msg = f.msg;
        bad = true;
    } catch (const std::exception &e) {
        v.key = std::string("unexpected-exception");
        v.msg = fmt("unexpected exception %s: %s", typeid(e).name(), e.what());
        bad = true;
    } catch (...) {
        v.key = "unexpected-exception";
        v.msg = "unexpected exception of unknown type";
        bad = true;
    }
    // choices beyond pos would be stale (execution ended earlier than when they were recorded)
    c.choices.resize(c.pos);
    c.arity.resize(c.pos);
    localMaxDepth = std::max<std::uint64_t>(localMaxDepth, c.pos);
    if (bad) {
        v.suite = s;
        v.top = c.top;
        v.choices.assign(c.choices.begin(), c.choices.end());
        v.log = c.logText;
    }
    return bad;
}

static bool advance(Ctx &c)
{
    while (!c.choices.empty()) {
        if (c.choices.back() + 1 < c.arity.back()) {
            ++c.choices.back();
            return true;
        }
        c.choices.pop_back();
        c.arity.pop_back();
    }
    return false;
}

static void writeStr(FILE *f, const std::string &s)
{
    std::uint64_t n = s.size();
    fwrite(&n, 8, 1, f);
    fwrite(s.data(), 1, n, f);
}
static bool readStr(FILE *f, std::string &s)
{
    std::uint64_t n;
    if (fread(&n, 8, 1, f) != 1)
        return false;
    s.resize(n);
    return n == 0 || fread(s.data(), 1, n, f) == n;
}
static void writeViolation(FILE *f, const Violation &v)
{
    std::uint32_t h[5] = { v.suite, v.top, static_cast<std::uint32_t>(v.choices.size()), v.crash, v.hang };
    fwrite(h, 4, 5, f);
    fwrite(v.choices.data(), 4, v.choices.size(), f);
    writeStr(f, v.key);
    writeStr(f, v.msg);
    writeStr(f, v.log);
    fflush(f);
}
static std::vector<Violation> readViolations(const std::string &path)
{
    std::vector<Violation> r;
    FILE *f = fopen(path.c_str(), "rb");
    if (!f)
        return r;
    for (;;) {
        Violation v;
        std::uint32_t h[5];
        if (fread(h, 4, 5, f) != 5)
            break;
        v.suite = h[0];
        v.top = h[1];
        v.choices.resize(h[2]);
        v.crash = h[3];
        v.hang = h[4];
        if (h[2] && fread(v.choices.data(), 4, h[2], f) != h[2])
            break;
        if (!readStr(f, v.key) || !readStr(f, v.msg) || !readStr(f, v.log))
            break;
        r.push_back(std::move(v));
    }
    fclose(f);
    return r;
}

static std::set<std::string> knownKeys;
static std::vector<std::pair<std::uint32_t, std::uint32_t>> tasks; // suite, top

static void setLimits()
{
    if (!VT_ASAN && memLimitMb) {
        rlimit rl{ memLimitMb << 20, memLimitMb << 20 };
        setrlimit(RLIMIT_AS, &rl);
    }
    rlimit rl{ fileLimitMb << 20, fileLimitMb << 20 };
    setrlimit(RLIMIT_FSIZE, &rl);
    rlimit core{ 0, 0 };
    setrlimit(RLIMIT_CORE, &core);
    signal(SIGXFSZ, SIG_IGN);
}

struct Resume {
    bool active = false;
    std::uint32_t suite = 0, top = 0;
    std::vector<std::uint32_t> choices, arity;
};

static void flushCounters()
{
    shm->execs += localExecs;
    shm->steps += localSteps;
    shm->skips += localSkips;
    shm->choicePoints += localChoice;
    localExecs = localSteps = localSkips = localChoice = 0;
    std::uint64_t d = shm->maxDepth;
    while (localMaxDepth > d && !shm->maxDepth.compare_exchange_weak(d, localMaxDepth)) { }
}

static void dumpStates()
{
    FILE *f = fopen((scratchBase + "/states." + std::to_string(workerId)).c_str(), "ab");
    for (auto h : stateSet)
        fwrite(&h, 8, 1, f);
    fclose(f);
    stateSet.clear();
}

[[noreturn]] static void workerMain(int id, Resume resume)
{
    workerId = id;
    slot = &shm->slots[id];
    setLimits();
    const auto dir = scratchBase + "/w" + std::to_string(id);
    mkdir(dir.c_str(), 0777);
    rmTree(dir);
    const int efd = ::open((scratchBase + "/stderr." + std::to_string(id)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(efd, 1);
    dup2(efd, 2);
    FILE *vf = fopen((scratchBase + "/violations." + std::to_string(id)).c_str(), "ab");
    FILE *sf = nullptr;
    std::map<std::string, int> keyCount;
    std::map<std::uint32_t, int> sampled;
    for (;;) {
        Ctx c;
        std::uint32_t suite, top;
        bool go = true;
        if (resume.active) {
            suite = resume.suite;
            top = resume.top;
            c.top = top;
            c.choices = resume.choices;
            c.arity = resume.arity;
            resume.active = false;
            go = advance(c);
        } else {
            const auto t = shm->nextTask++;
            if (t >= tasks.size() || shm->stop)
                break;
            suite = tasks[t].first;
            top = tasks[t].second;
            c.top = top;
        }
        while (go && !shm->stop) {
            Violation v;
            if (runOne(c, suite, v)) {
                auto &n = keyCount[getenv("VT_ALL") ? suites()[suite].name + v.key : v.key];
                const bool known = knownKeys.count(v.key);
                if (++n <= (known ? 2 : 3))
                    writeViolation(vf, v);
                if (!known && ++shm->violations >= 200 && !getenv("VT_ALL"))
                    shm->stop = 1;
            } else if (sampled[suite] < 2 && !c.logText.empty()) {
                ++sampled[suite];
                if (!sf)
                    sf = fopen((scratchBase + "/samples." + std::to_string(id)).c_str(), "ab");
                writeStr(sf, "suite " + suites()[suite].name + " top " + std::to_string(top) + ":\n" + c.logText.substr(0, 1500));
                fflush(sf);
            }
            if ((localExecs & 63) == 0)
                flushCounters();
            go = advance(c);
        }
        flushCounters();
    }
    flushCounters();
    dumpStates();
    slot->seq = ~std::uint64_t(0);
    _exit(0);
}

// re-executes a single execution in a fresh process; returns 0 = fine, 1 = violation, 2 = crash, 3 = hang
static int replayChild(const Violation &v, double timeout, Violation &out, bool verbose, bool wholeTop = false)
{
    const auto vpath = scratchBase + "/violations.replay";
    const auto epath = scratchBase + "/stderr.replay";
    unlink(vpath.c_str());
    const auto pid = fork();
    if (!pid) {
        workerId = 63;
        slot = &shm->slots[63];
        setLimits();
        const auto dir = scratchBase + "/w63";
        mkdir(dir.c_str(), 0777);
        rmTree(dir);
        const int efd = ::open(epath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(efd, 1);
        dup2(efd, 2);
        Ctx c;
        c.top = v.top;
        c.verbose = verbose;
        Violation o;
        if (!wholeTop) {
            c.choices = v.choices;
            if (runOne(c, v.suite, o)) {
                FILE *vf = fopen(vpath.c_str(), "wb");
                writeViolation(vf, o);
                _exit(1);
            }
            _exit(0);
        }
        for (bool go = true; go; go = advance(c)) {
            if (runOne(c, v.suite, o) && o.choices == v.choices) {
                FILE *vf = fopen(vpath.c_str(), "wb");
                writeViolation(vf, o);
                _exit(1);
            }
        }
        _exit(0);
    }
    const auto end = now() + timeout;
    int status = 0;
    for (;;) {
        const auto r = waitpid(pid, &status, WNOHANG);
        if (r == pid)
            break;
        if (now() > end) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            out = v;
            out.hang = true;
            out.key = "hang";
            out.msg = fmt("execution did not finish within %.0f s", timeout);
            return 3;
        }
        usleep(2000);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        return 0;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 1) {
        auto vs = readViolations(vpath);
        if (!vs.empty()) {
            out = vs.front();
            return 1;
        }
    }
    if (WIFEXITED(status) && (WEXITSTATUS(status) == 97 || WEXITSTATUS(status) == 98)) {
        fprintf(stderr, "%s", readFile(epath).c_str());
        exit(3);
    }
    out = v;
    out.crash = true;
    out.key = "crash";
    std::string err;
    try {
        err = readFile(epath);
    } catch (...) {
    }
    out.msg = WIFSIGNALED(status) ? fmt("process ended by signal %d", WTERMSIG(status)) : fmt("process exited with status %d", WEXITSTATUS(status));
    out.log = err.substr(0, 6000);
    return 2;
}

static std::string jsonStr(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        } else if (ch == '\n')
            r += "\\n";
        else if (ch < 32 || ch >= 127)
            r += fmt("\\u%04x", ch);
        else
            r += ch;
    }
    return r + "\"";
}

static void writeReplay(const std::string &path, const Violation &v)
{
    std::string j = "{\n \"property\": " + jsonStr(property) + ",\n \"suite\": " + jsonStr(suites()[v.suite].name)
        + ",\n \"top\": " + std::to_string(v.top) + ",\n \"choices\": [";
    for (std::size_t i = 0; i < v.choices.size(); ++i)
        j += (i ? "," : "") + std::to_string(v.choices[i]);
    j += "],\n \"key\": " + jsonStr(v.key) + ",\n \"message\": " + jsonStr(v.msg) + ",\n \"log\": " + jsonStr(v.log)
        + ",\n \"replay_cmd\": " + jsonStr(std::string("python3 /verif/vt/run.py ") + property + " --replay " + path) + "\n}\n";
    writeFile(path, j);
}

} // namespace vt

using namespace vt;

static std::string arg(int argc, char **argv, const char *name, const char *def = "")
{
    for (int i = 1; i + 1 < argc; ++i)
        if (!strcmp(argv[i], name))
            return argv[i + 1];
    return def;
}

int main(int argc, char **argv)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    setenv("TZ", "UTC", 1);
    tzset();
    umask(022);
    const auto outDir = arg(argc, argv, "--out", "/tmp");
    const auto evidencePath = arg(argc, argv, "--evidence");
    const auto knownPath = arg(argc, argv, "--known");
    const auto replayDir = arg(argc, argv, "--replay-dir", outDir.c_str());
    const int jobs = std::min(60, std::max(1, atoi(arg(argc, argv, "--jobs", "8").c_str())));
    const double softLimit = atof(arg(argc, argv, "--soft-limit", "700").c_str());
    const auto only = arg(argc, argv, "--suite");
    const double t0 = now();

    // known findings: lines "KNOWN-FINDING: property=<id> key=<key> <text>"
    std::map<std::string, std::string> known;
    if (!knownPath.empty() && fileExists(knownPath)) {
        const auto text = readFile(knownPath);
        std::size_t p = 0;
        while (p < text.size()) {
            auto e = text.find('\n', p);
            if (e == std::string::npos)
                e = text.size();
            const auto line = text.substr(p, e - p);
            p = e + 1;
            const auto prefix = std::string("KNOWN-FINDING: property=") + property + " key=";
            if (line.compare(0, prefix.size(), prefix))
                continue;
            const auto sp = line.find(' ', prefix.size());
            known[line.substr(prefix.size(), sp == std::string::npos ? sp : sp - prefix.size())] = sp == std::string::npos ? "" : line.substr(sp + 1);
        }
    }
    for (const auto &k : known)
        knownKeys.insert(k.first);

    // scratch directory
    const char *bases[] = { "/dev/shm", "/tmp" };
    for (auto *b : bases) {
        std::string t = std::string(b) + "/vt.XXXXXX";
        if (mkdtemp(t.data())) {
            scratchBase = t;
            break;
        }
    }
    if (scratchBase.empty()) {
        fprintf(stderr, "unable to create scratch directory\n");
        return 3;
    }
    chmod(scratchBase.c_str(), 0755);
    static pid_t mainPid = getpid();
    atexit([] {
        if (getpid() == mainPid && !scratchBase.empty()) {
            rmTree(scratchBase);
            rmdir(scratchBase.c_str());
        }
    });
    shm = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

    // replay mode: --exec suite:top:c,c,c
    if (const auto ex = arg(argc, argv, "--exec"); !ex.empty()) {
        Violation v;
        const auto p1 = ex.find(':'), p2 = ex.find(':', p1 + 1);
        bool found = false;
        for (std::size_t i = 0; i < suites().size(); ++i)
            if (suites()[i].name == ex.substr(0, p1))
                v.suite = i, found = true;
        if (!found) {
            fprintf(stderr, "no such suite\n");
            return 3;
        }
        v.top = strtoul(ex.c_str() + p1 + 1, nullptr, 10);
        const char *s = ex.c_str() + p2 + 1;
        while (p2 != std::string::npos && *s) {
            char *e;
            v.choices.push_back(strtoul(s, &e, 10));
            s = *e ? e + 1 : e;
        }
        if (!strcmp(arg(argc, argv, "--inprocess", "0").c_str(), "1")) { // for use in a debugger
            workerId = 62;
            mkdir((scratchBase + "/w62").c_str(), 0777);
            Ctx c;
            c.top = v.top;
            c.choices = v.choices;
            c.verbose = true;
            Violation o;
            const bool bad = runOne(c, v.suite, o);
            printf("%s\n%s: %s\n", c.logText.c_str(), bad ? o.key.c_str() : "ok", o.msg.c_str());
            return bad;
        }
        Violation out;
        const int r = replayChild(v, caseTimeout * 3, out, true);
        if (r) {
            printf("%s\nfailed: %s: %s\n", out.log.c_str(), out.key.c_str(), out.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", property, ex.c_str());
            return 1;
        }
        printf("execution held\n");
        return 0;
    }

    for (std::size_t s = 0; s < suites().size(); ++s) {
        if (!only.empty() && suites()[s].name != only)
            continue;
        const auto n = suites()[s].tops();
        for (std::size_t t = 0; t < n; ++t)
            tasks.emplace_back(s, t);
    }

    struct W {
        pid_t pid = 0;
        std::uint64_t seq = 0;
        double since = 0;
        bool done = false;
        int restarts = 0;
    };
    std::vector<W> ws(jobs);
    std::vector<Violation> found;
    int unconfirmedHangs = 0;
    auto spawn = [&](int i, Resume r) {
        fflush(stdout);
        const auto pid = fork();
        if (!pid)
            workerMain(i, std::move(r));
        ws[i].pid = pid;
        ws[i].since = now();
        ws[i].seq = shm->slots[i].seq;
    };
    for (int i = 0; i < jobs; ++i)
        spawn(i, {});
    bool capped = false, harnessError = false;
    int crashes = 0;
    for (int alive = jobs; alive;) {
        usleep(3000);
        const auto t = now();
        if (!capped && t - t0 > softLimit) {
            capped = true;
            shm->stop = 1;
        }
        for (int i = 0; i < jobs; ++i) {
            auto &w = ws[i];
            if (w.done)
                continue;
            int status = 0;
            bool hang = false;
            if (waitpid(w.pid, &status, WNOHANG) == w.pid) {
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                    w.done = true;
                    --alive;
                    continue;
                }
                if (WIFEXITED(status) && (WEXITSTATUS(status) == 97 || WEXITSTATUS(status) == 98)) {
                    fprintf(stderr, "%s", readFile(scratchBase + "/stderr." + std::to_string(i)).c_str());
                    harnessError = true;
                    shm->stop = 1;
                    w.done = true;
                    --alive;
                    continue;
                }
            } else {
                const auto s = shm->slots[i].seq.load();
                if (s != w.seq) {
                    w.seq = s;
                    w.since = t;
                    continue;
                }
                if (t - w.since < caseTimeout)
                    continue;
                hang = true;
                kill(w.pid, SIGKILL);
                waitpid(w.pid, &status, 0);
            }
            // crashed or hung: the slot tells the execution
            auto &sl = shm->slots[i];
            Violation v;
            v.suite = sl.suite;
            v.top = sl.top;
            v.choices.assign(sl.choices, sl.choices + std::min(512u, sl.len));
            v.crash = !hang;
            v.hang = hang;
            v.key = hang ? "hang" : "crash";
            v.msg = hang ? "execution did not finish in time" : (WIFSIGNALED(status) ? fmt("worker ended by signal %d", WTERMSIG(status)) : fmt("worker exited with status %d", WEXITSTATUS(status)));
            try {
                v.log = readFile(scratchBase + "/stderr." + std::to_string(i)).substr(0, 6000);
            } catch (...) {
            }
            Resume r;
            r.active = true;
            r.suite = v.suite;
            r.top = v.top;
            r.choices = v.choices;
            r.arity.assign(sl.arity, sl.arity + std::min(512u, sl.len));
            found.push_back(std::move(v));
            if (++crashes >= (getenv("VT_ALL") ? 400 : 12))
                shm->stop = 1;
            spawn(i, std::move(r));
        }
    }
    if (harnessError)
        return 3;
    for (int i = 0; i < jobs; ++i)
        for (auto &v : readViolations(scratchBase + "/violations." + std::to_string(i)))
            found.push_back(std::move(v));
    std::stable_sort(found.begin(), found.end(), [](const Violation &a, const Violation &b) {
        return std::tie(a.suite, a.top, a.choices) < std::tie(b.suite, b.top, b.choices);
    });

    // confirm and report
    std::set<std::string> seenKnown;
    std::map<std::string, int> reportedKeys;
    int reported = 0, confirmed = 0;
    if (getenv("VT_ALL")) { // development aid: an overview of everything that failed
        std::map<std::string, int> n;
        for (auto &v : found)
            if (!known.count(v.key) && ++n[suites()[v.suite].name + "/" + v.key] <= atoi(getenv("VT_ALL"))) {
                std::string ch;
                for (auto x : v.choices)
                    ch += (ch.empty() ? "" : ",") + std::to_string(x);
                printf("  %s:%u:%s %s: %s\n", suites()[v.suite].name.c_str(), v.top, ch.c_str(), v.key.c_str(), v.crash || v.hang ? (v.msg + v.log.substr(0, 300)).c_str() : v.msg.c_str());
            }
    }
    for (auto &v : found) {
        const auto id = v.key;
        if (known.count(id)) {
            if (seenKnown.insert(id).second)
                printf("KNOWN-FINDING: property=%s key=%s %s\n", property, id.c_str(), known[id].c_str());
            continue;
        }
        if (reported >= 10 || reportedKeys[id] >= 2)
            continue;
        Violation out;
        int r = replayChild(v, v.hang ? caseTimeout * 3 : caseTimeout * 2, out, true);
        std::string note;
        if (!r && !v.hang) {
            r = replayChild(v, caseTimeout * 4, out, false, true);
            note = " (only after the preceding executions of the same configuration)";
        }
        if (!r) {
            if (v.hang) {
                ++unconfirmedHangs;
                continue;
            }
            out = v;
            note = " (observed once; did not recur when replayed alone)";
        }
        if (known.count(out.key)) {
            if (seenKnown.insert(out.key).second)
                printf("KNOWN-FINDING: property=%s key=%s %s\n", property, out.key.c_str(), known[out.key].c_str());
            continue;
        }
        ++confirmed;
        ++reported;
        ++reportedKeys[id];
        if (out.log.empty())
            out.log = v.log;
        const auto rp = replayDir + "/" + property + "-" + std::to_string(reported) + ".json";
        writeReplay(rp, out);
        printf("  suite %s top %u choices [", suites()[out.suite].name.c_str(), out.top);
        for (std::size_t k = 0; k < out.choices.size(); ++k)
            printf("%s%u", k ? "," : "", out.choices[k]);
        printf("]: %s: %s%s\n", out.key.c_str(), out.msg.c_str(), note.c_str());
        if (out.crash)
            printf("%s\n", out.log.substr(0, 1500).c_str());
        printf("VIOLATION property=%s replay=%s\n", property, rp.c_str());
    }

    // evidence
    std::vector<std::uint64_t> st;
    std::vector<std::string> samples;
    for (int i = 0; i < jobs; ++i) {
        if (FILE *f = fopen((scratchBase + "/states." + std::to_string(i)).c_str(), "rb")) {
            std::uint64_t h;
            while (fread(&h, 8, 1, f) == 1)
                st.push_back(h);
            fclose(f);
        }
        if (FILE *f = fopen((scratchBase + "/samples." + std::to_string(i)).c_str(), "rb")) {
            std::string s;
            std::map<std::string, int> per;
            while (samples.size() < 12 && readStr(f, s)) {
                const auto su = s.substr(0, s.find(" top"));
                if (++per[su] <= 1)
                    samples.push_back(s);
            }
            fclose(f);
        }
    }
    std::sort(st.begin(), st.end());
    st.erase(std::unique(st.begin(), st.end()), st.end());
    const std::uint64_t execs = shm->execs, steps = shm->steps, skips = shm->skips;
    const double wall = now() - t0;
    printf("%s: %llu executions, %llu transitions, %zu distinct states, %llu outside bound, max choice depth %llu, %zu configurations, %.1f s%s\n", property,
        (unsigned long long)execs, (unsigned long long)steps, st.size(), (unsigned long long)skips, (unsigned long long)shm->maxDepth.load(),
        tasks.size(), wall, capped ? " (CAPPED by time)" : "");
    if (!evidencePath.empty()) {
        const char *seed = std::getenv("VERIF_SEED");
        std::string j = "{\n \"property\": " + jsonStr(property) + ",\n \"tier\": " + (thorough() ? "\"thorough\"" : "\"quick\"")
            + ",\n \"seed\": " + std::to_string(seed ? atoi(seed) : 0) + ",\n \"level\": " + jsonStr(arg(argc, argv, "--level", "model_checking"))
            + ",\n \"coverage\": {\n  "
            + (arg(argc, argv, "--level", "model_checking") == "model_checking"
                    ? "\"states\": " + std::to_string(st.size()) + ",\n  \"transitions\": " + std::to_string(steps)
                        + ",\n  \"traces_validated_against_impl\": " + std::to_string(execs - skips)
                    : "\"evaluations\": " + std::to_string(execs - skips) + ",\n  \"distinct_nontrivial\": " + std::to_string(st.size())
                        + ",\n  \"transitions\": " + std::to_string(steps))
            + ",\n  \"outside_bound\": " + std::to_string(skips)
            + ",\n  \"configurations\": " + std::to_string(tasks.size()) + ",\n  \"max_choice_depth\": " + std::to_string(shm->maxDepth.load())
            + ",\n  \"exhaustive\": " + (capped || shm->stop ? "false" : "true") + ",\n  \"rule\": " + jsonStr(rule) + ",\n  \"suites\": [";
        bool first = true;
        for (auto &s : suites()) {
            j += (first ? "" : ", ") + jsonStr(s.name);
            first = false;
        }
        j += "],\n  \"samples\": [";
        first = true;
        for (auto &s : samples) {
            j += (first ? "\n   " : ",\n   ") + jsonStr(s);
            first = false;
        }
        j += "]\n },\n \"assumptions\": [";
        std::string as = assumptions;
        std::size_t p = 0;
        first = true;
        while (p < as.size()) {
            auto e = as.find('|', p);
            if (e == std::string::npos)
                e = as.size();
            j += (first ? "" : ", ") + jsonStr(as.substr(p, e - p));
            first = false;
            p = e + 1;
        }
        j += "],\n \"wall_s\": " + fmt("%.2f", wall) + ",\n \"violations\": " + std::to_string(reported) + "\n}\n";
        writeFile(evidencePath, j);
    }
    if (reported)
        return 1;
    if (unconfirmedHangs)
        printf("note: %d execution(s) were slow once but finished when re-run alone\n", unconfirmedHangs);
    return 0;
}
