// P14: aborting a save at any moment restores the original file.
#include "faults.h"
#include "formats.h"

#include "id3/id3v1tag.h"

#include <filesystem>

using namespace ref;

const char *vt::property = "P14";
const char *vt::rule = "for every format x way of saving an abort is requested at every single progress callback and before every single I/O call (like another thread might do), optionally combined with a "
                       "failing I/O call afterwards; the outcome is compared with the original file and the file obtained without abort; states = distinct (moment, outcome)";
const char *vt::assumptions = "an abort request from another thread only takes effect via the atomic flag, so it is enough to place it between I/O calls and callbacks";

namespace {
enum Way { Rewrite, InPlace, SaveAs, BackupDir, OtherDevice, UpdateV1, RemoveTags, WayCount };
const char *const wayNames[] = { "rewrite", "in-place", "save as", "backup dir", "backup on other device", "update ID3v1 tag only", "remove all tags" };
enum Moment { Never, Callback, Call };
enum Observing { Both, StepsOnly, Nothing, ObservingCount }; // which callbacks are set
bool inPlace(Way way)
{
    return way == InPlace || way == UpdateV1;
}
struct Outcome {
    bool success = false, aborted = false, requested = false, hit = false;
    Bytes what, diag, step;
    std::size_t callbacks = 0, calls = 0;
    unsigned maxPercentage = 0;
    std::vector<int> ops;
};
struct Files {
    std::string dir, path, target;
    Bytes original;
};
struct Scenario {
    Outcome base;
    Bytes expected;
};
std::map<std::size_t, Scenario> scenarios;
std::size_t media = 40000;
AbortableProgressFeedback *current = nullptr;

Files prepare(Ctx &c, const fmts::Format &f, Way way)
{
    Files r;
    r.dir = c.scratch();
    vt::removeAllIn(r.dir);
    r.path = r.dir + "/a" + f.ext;
    r.target = way == SaveAs ? r.dir + "/b" + f.ext : r.path;
    r.original = way == UpdateV1 ? mp3::audio(media) + mp3::v1("old title", "artist") : f.make(media, "old title", 200);
    vt::writeFile(r.path, r.original);
    if (way == BackupDir)
        std::filesystem::create_directory(r.dir + "/bak");
    return r;
}
void change(Session &s, const Files &files, Way way)
{
    Layout l;
    l.max = inPlace(way) ? 100000 : 0;
    l.preferred = 50;
    l.force = !inPlace(way) && way != RemoveTags;
    applyLayout(s.file, l);
    if (way == SaveAs)
        s.file.setSaveFilePath(files.target);
    if (way == BackupDir)
        s.file.setBackupDirectory(std::string("bak"));
    if (way == RemoveTags)
        s.file.removeId3v1Tag(), s.file.removeAllId3v2Tags();
    else
        fmts::setTitle(s.file, way == InPlace ? "a new title of other length" : "new");
}
Outcome attempt(Session &s, const Files &files, Way way, Moment moment, std::size_t index, Observing observing, long faultAfter = 0)
{
    Outcome o;
    change(s, files, way);
    s.diag.clear();
    faults::state.exdev = way == OtherDevice;
    const auto onCallback = [&](AbortableProgressFeedback &p) {
        o.maxPercentage = std::max<unsigned>({ o.maxPercentage, p.stepPercentage(), p.overallPercentage() });
        if (moment == Callback && o.callbacks == index) {
            p.tryToAbort();
            o.step = p.step();
            o.requested = true;
            if (faultAfter) {
                faults::state.target = faults::state.counter + faultAfter - 1;
                faults::state.mode = faults::Once;
            }
        }
        ++o.callbacks;
    };
    AbortableProgressFeedback::Callback steps, percentages;
    if (observing != Nothing)
        steps = onCallback;
    if (observing == Both)
        percentages = onCallback;
    AbortableProgressFeedback progress(std::move(steps), std::move(percentages));
    current = &progress;
    {
        faults::Armed armed(moment == Call ? static_cast<long>(index) : -1, faults::Hook);
        faults::state.hook = [] { current->tryToAbort(); };
        if (moment == Call && faultAfter)
            faults::state.second = faultAfter;
        try {
            s.file.applyChanges(s.diag, progress);
            o.success = true;
        } catch (const OperationAbortedException &) {
            o.aborted = true;
        } catch (const std::exception &e) {
            o.what = fmt("%s: %s", typeid(e).name(), e.what());
        }
        o.ops = faults::state.ops;
        o.hit = moment == Call ? faults::state.hitSecond : faults::state.hit;
        if (moment == Call)
            o.requested = faults::state.hit, o.step = faults::state.what;
    }
    faults::state.exdev = false;
    o.diag = diagText(s.diag);
    return o;
}
} // namespace

VT_SUITE(aborts, fmts::Count *WayCount *ObservingCount)
{
    const auto id = static_cast<fmts::Id>(c.top / WayCount / ObservingCount);
    const auto way = static_cast<Way>(c.top / ObservingCount % WayCount);
    const auto observing = static_cast<Observing>(c.top % ObservingCount);
    const auto &f = fmts::formats[id];
    if ((way == InPlace && f.rewriteOnly) || (way >= UpdateV1 && id != fmts::Mp3))
        c.skip();
    media = vt::thorough() ? c.pick({ 40000, 700, 10000, 32768, 200000 }, "media size") : c.pick({ 40000, 150000 }, "media size");
    auto &sc = scenarios[c.top + 1000 * media];
    const auto name = fmt("%s, %s", f.name, wayNames[way]);
    if (sc.expected.empty()) {
        const auto files = prepare(c, f, way);
        Session s(files.path);
        s.parse();
        sc.base = attempt(s, files, way, Never, 0, observing);
        c.check(sc.base.success, "baseline", "%s fails: %s %s", name.c_str(), sc.base.what.c_str(), sc.base.diag.c_str());
        sc.expected = vt::readFile(files.target);
        // observing the progress does not affect the result
        const auto again = prepare(c, f, way);
        Session s2(again.path);
        s2.parse();
        attempt(s2, again, way, Never, 0, Nothing);
        c.check(vt::readFile(again.target) == sc.expected, "observing", "%s: observing the progress affects the result", name.c_str());
        c.check(sc.base.maxPercentage <= 100, "percentage", "%s: a percentage of %u is reported", name.c_str(), sc.base.maxPercentage);
        c.check(observing == Nothing || sc.base.callbacks > 0, "baseline", "%s: no progress reported", name.c_str());
    }
    const auto &base = sc.base;
    const auto index = c.choose(base.callbacks + base.ops.size(), "moment");
    const auto moment = index < base.callbacks ? Callback : Call;
    const auto at = moment == Callback ? index : index - base.callbacks;
    // an I/O call after the abort may fail as well
    static std::map<std::pair<std::size_t, std::size_t>, std::size_t> callsAfter;
    auto &calls = callsAfter[{ c.top + 1000 * media, index }];
    if (!calls) {
        const auto files = prepare(c, f, way);
        Session s(files.path);
        s.parse();
        calls = attempt(s, files, way, moment, at, observing).ops.size() + 1;
    }
    const auto faultAfter = !vt::thorough() && observing == Nothing ? 0 : static_cast<long>(c.choose(std::min<std::size_t>(calls, vt::thorough() ? 16 : 6), "failing call afterwards"));
    const auto files = prepare(c, f, way);
    c.step();
    auto s = std::make_unique<Session>(files.path);
    s->parse();
    const auto o = attempt(*s, files, way, moment, at, observing, faultAfter);
    const auto ctx = fmt("%s, abort requested at %s %zu (%s), failing call afterwards: %ld; result: %s%s; %s", name.c_str(), moment == Callback ? "callback" : "I/O call", at, o.step.c_str(), faultAfter,
        o.success ? "success" : o.aborted ? "aborted" : "failure ", o.what.c_str(), o.diag.c_str());
    c.check(o.requested, "harness", "moment not reached; %s", ctx.c_str());
    if (faultAfter && !o.hit)
        c.skip();
    c.check(o.maxPercentage <= 100, "percentage", "a percentage of %u is reported; %s", o.maxPercentage, ctx.c_str());
    const auto exists = vt::fileExists(files.target);
    const auto now = exists ? vt::readFile(files.target) : Bytes();
    if (o.success) {
        c.check(exists && now == sc.expected, "success", "success reported but the file is %s (%zu instead of %zu bytes, differs at %zu); %s", exists ? "wrong" : "missing", now.size(), sc.expected.size(),
            firstDiff(now, sc.expected), ctx.c_str());
        c.state(vt::hashStr(name + " ok"));
        return;
    }
    c.check(s->file.path() == files.path, "path", "the file is considered to be saved under \"%s\"; %s", s->file.path().c_str(), ctx.c_str());
    if (!faultAfter)
        c.check(o.aborted, "aborted", "aborting not reported as such; %s", ctx.c_str());
    if (way == SaveAs)
        c.check(vt::fileExists(files.path) && vt::readFile(files.path) == files.original, "original", "original altered; %s", ctx.c_str());
    else if (inPlace(way)) {
        c.check(exists, "original", "file is gone; %s", ctx.c_str());
        for (const auto &[from, to] : fmts::mediaRanges(id, files.original))
            c.check(now.size() >= to && !now.compare(from, to - from, files.original, from, to - from), "media", "media data altered; %s", ctx.c_str());
    } else if (!faultAfter) {
        c.check(exists && now == files.original, "original", "original file %s; %s", exists ? "altered" : "gone", ctx.c_str());
        auto others = vt::listDir(files.dir);
        if (way == BackupDir)
            for (auto &n : vt::listDir(files.dir + "/bak"))
                others.emplace_back("bak/" + n);
        for (const auto &n : others)
            c.check(n == "a" + std::string(f.ext) || n == "bak", "leftover", "%s left behind; %s", n.c_str(), ctx.c_str());
    } else if (!exists || now != files.original) {
        std::string found;
        for (const auto &dir : { files.dir, files.dir + "/bak" })
            if (std::filesystem::is_directory(dir))
                for (auto &e : std::filesystem::directory_iterator(dir))
                    if (e.is_regular_file() && e.path().string() != files.path && vt::readFile(e.path().string()) == files.original)
                        found = e.path().string();
        c.check(!found.empty(), "lost", "the original content is lost; %s", ctx.c_str());
        const auto backup = std::filesystem::path(found).filename().string();
        c.check(o.diag.find(backup) != Bytes::npos || o.what.find(backup) != Bytes::npos, "report", "the backup %s is not mentioned; %s", backup.c_str(), ctx.c_str());
    }
    c.state(vt::hashStr(fmt("%s %d %s", name.c_str(), moment, o.step.c_str())));
    // saving works when trying again using the same object
    if (faultAfter || inPlace(way))
        return;
    s->file.close();
    s->parse();
    const auto again = attempt(*s, files, way, Never, 0, Nothing);
    c.check(again.success, "again", "saving again fails: %s %s; %s", again.what.c_str(), again.diag.c_str(), ctx.c_str());
    const auto result = vt::readFile(files.target);
    c.check(result == sc.expected, "again", "saving again gives another file (%zu instead of %zu bytes, differs at %zu); %s", result.size(), sc.expected.size(), firstDiff(result, sc.expected), ctx.c_str());
}
