// P15: parsing any damaged file is safe, bounded and reported.
#include "damage.h"

const char *vt::property = "P15";
const char *vt::rule = "every truncation and every byte set to each of a set of critical values (thorough: every value), every 2/3/4/8-byte field set to extreme values, every byte removed/duplicated of files of every format which contain as "
                       "many structures as possible; each is parsed completely (twice: with and without enforced full parsing) by code instrumented with AddressSanitizer and UndefinedBehaviorSanitizer with "
                       "memory and CPU time being accounted; states = distinct outcomes";
const char *vt::assumptions = "bounds: 48 MiB at once and 256 MiB in total of memory and 2 seconds of CPU time (instrumented) for files of at most 3 KiB|allocation of memory succeeds";

namespace {
bool everyDamage()
{
    return vt::thorough();
}
// parses the file and returns a description of the outcome
Bytes parse(Ctx &c, const std::string &path, bool full)
{
    accounting = Accounting();
    const auto start = cpu();
    accounting.active = true;
    std::size_t messages = 0;
    Bytes r;
    r.reserve(200);
    {
        Session s(path);
        s.file.setForceFullParse(full);
        try {
            s.parse(true);
        } catch (const Failure &e) {
            r = fmt("Failure: %s", e.what());
        } catch (const std::ios_base::failure &e) {
            r = fmt("I/O error: %s", e.what());
        } catch (const std::exception &e) {
            accounting.active = false;
            c.fail("undocumented-exception", "undocumented exception when parsing: %s", e.what());
        } catch (const vt::Fail &) {
            throw;
        } catch (...) {
            accounting.active = false;
            c.fail("undocumented-exception", "undocumented exception when parsing");
        }
        try {
            const auto d = ref::digest(s.file);
            for (int i = 0; i < PartCount; ++i)
                r += fmt("%d%016llx", static_cast<int>(d.status[i]), static_cast<unsigned long long>(vt::hashStr(d.part[i], 1)));
            messages = s.diag.size();
            for (auto &m : s.diag)
                r += m.context();
        } catch (const Failure &e) {
            r += fmt("Failure: %s", e.what());
        } catch (const CppUtilities::ConversionException &e) {
            accounting.active = false;
            c.fail("undocumented-exception", "conversion exception when querying the results: %s", e.what());
        } catch (const std::ios_base::failure &e) {
            r += fmt("I/O error: %s", e.what());
        }
    }
    accounting.active = false;
    const auto took = cpu() - start;
    c.check(accounting.peak <= (48u << 20), "memory-peak", "%zu bytes of memory were occupied at once", accounting.peak);
    c.check(accounting.total <= (256u << 20), "memory-total", "%zu bytes of memory were allocated in total", accounting.total);
    c.check(took <= 2.0, "time", "parsing took %f seconds of CPU time", took);
    c.check(messages <= 5000, "messages", "%zu diagnostic messages", messages);
    return r;
}
void examine(Ctx &c, const corpus::Sample &s, const Bytes &data)
{
    const auto path = c.file((Bytes("a") + s.ext).c_str());
    vt::writeFile(path, data);
    for (int full = 0; full < 2; ++full) {
        c.step();
        c.state(vt::hashStr(parse(c, path, full)));
    }
    c.check(vt::readFile(path) == data, "modified", "the file has been modified");
}
VT_SUITE(intact, samples().size())
{
    auto &s = samples()[c.top];
    examine(c, s, s.data);
    const auto path = c.file((Bytes("a") + s.ext).c_str());
    Session f(path);
    f.parse(true);
    c.log("%s: %zu bytes, tracks %s, tags %s, %zu tracks, %zu tags, %s", s.name, s.data.size(), str(f.file.tracksParsingStatus()), str(f.file.tagsParsingStatus()), f.file.trackCount(), f.file.tags().size(), diagText(f.diag).c_str());
    if (getenv("P15_SHOW"))
        c.fail("show", "%s", c.logText.c_str());
    c.check(f.file.trackCount() && f.file.tracksParsingStatus() == ParsingStatus::Ok, "sample", "the tracks of the intact file cannot be parsed: %s", diagText(f.diag).c_str());
}
} // namespace
