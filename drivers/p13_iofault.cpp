// P13: an I/O failure while saving never loses the original file.
#include "faults.h"
#include "formats.h"

#include "id3/id3v1tag.h"

#include <filesystem>

using namespace ref;

const char *vt::property = "P13";
const char *vt::rule = "for every format x way of saving (rewrite, in-place update, save-as, backup directory, backup on another device) every single call of open/read/write/seek/close/rename/remove/"
                       "truncate made while saving is made to fail in every mode (once, device gone from then on, disk full from then on, partial transfer); the outcome is compared with the original file, "
                       "the backup and the file obtained without faults; states = distinct (fault, outcome)";
const char *vt::assumptions = "failing calls have no effect (apart from close which always releases the descriptor)|the file system stays consistent, i.e. power loss is not considered|stat calls and querying the position within an open file do not fail";

namespace {
constexpr faults::Mode modes[] = { faults::Once, faults::FromThen, faults::DiskFull, faults::ShortOnce, faults::ShortThenFull };
const char *const modeNames[] = { "once", "device gone", "disk full", "short", "short, then disk full" };
enum Way { Rewrite, InPlace, SaveAs, BackupDir, OtherDevice, ViaLink, ViaLinkOtherDevice, RemoveV1, UpdateV1, AddV1, RemoveTags, WayCount };
const char *const wayNames[] = { "rewrite", "in-place", "save as", "backup dir", "backup on other device", "via symbolic link", "via symbolic link (backup on other device)", "remove ID3v1 tag only", "update ID3v1 tag only", "add ID3v1 tag only", "remove all tags" };
bool inPlace(Way way)
{
    return way == InPlace || way == RemoveV1 || way == UpdateV1 || way == AddV1;
}
bool isLink(Way way)
{
    return way == ViaLink || way == ViaLinkOtherDevice;
}
bool onlyMp3(Way way)
{
    return way >= RemoveV1;
}
std::size_t media = 40000;
struct Outcome {
    bool success = false;
    Bytes what, diag;
    std::string path; // where the library thinks the file is
    std::vector<int> ops;
    Bytes fault;
    bool hit = false, hitSecond = false;
};
struct Files {
    std::string dir, path, target;
    std::string given; // path passed to the library
    Bytes original;
};
Files prepare(Ctx &c, const fmts::Format &f, Way way)
{
    Files r;
    r.dir = c.scratch();
    vt::removeAllIn(r.dir);
    r.path = r.dir + "/a" + f.ext;
    r.given = r.path;
    if (isLink(way)) {
        r.path = r.dir + "/real/file" + f.ext;
        std::filesystem::create_directory(r.dir + "/real");
        std::filesystem::create_symlink("real/file" + std::string(f.ext), r.given);
    }
    r.target = way == SaveAs ? r.dir + "/b" + f.ext : r.path;
    r.original = f.make(media, "old title", 200);
    if (way == RemoveV1 || way == UpdateV1)
        r.original = mp3::audio(media) + mp3::v1("old title", "artist");
    else if (way == AddV1)
        r.original = mp3::audio(media);
    vt::writeFile(r.path, r.original);
    if (way == BackupDir) {
        const auto d = r.dir + "/bak";
        std::filesystem::create_directory(d);
    }
    return r;
}
Outcome attempt(const fmts::Format &f, const Files &files, Way way, long target, faults::Mode mode, long second = 0)
{
    Outcome o;
    faults::state.exdev = way == OtherDevice || way == ViaLinkOtherDevice;
    {
        auto s = std::make_unique<Session>(files.given);
        s->parse();
        Layout l;
        l.max = inPlace(way) ? 100000 : 0;
        l.preferred = 50;
        l.force = !inPlace(way) && way != RemoveTags;
        applyLayout(s->file, l);
        if (way == SaveAs)
            s->file.setSaveFilePath(files.target);
        if (way == BackupDir)
            s->file.setBackupDirectory(std::string("bak"));
        if (way == RemoveV1 || way == RemoveTags)
            s->file.removeId3v1Tag(), s->file.removeAllId3v2Tags();
        else if (way == AddV1)
            s->file.createId3v1Tag()->setValue(KnownField::Title, ref::text("new", TagTextEncoding::Latin1));
        else
            fmts::setTitle(s->file, way == InPlace ? "a new title of other length" : "new");
        (void)f;
        s->diag.clear();
        faults::Armed armed(target, mode, second);
        try {
            s->file.applyChanges(s->diag, s->progress);
            o.success = true;
        } catch (const std::exception &e) {
            o.what = fmt("%s: %s", typeid(e).name(), e.what());
        }
        o.diag = diagText(s->diag);
        o.path = s->file.path();
        s.reset(); // destroying the objects must not crash even if the faults persist and nothing must be left to be written at this point
        o.hit = faults::state.hit;
        o.hitSecond = faults::state.hitSecond;
        o.fault = faults::state.what;
        o.ops = faults::state.ops;
    }
    faults::state.exdev = false;
    return o;
}
std::map<std::pair<std::size_t, std::size_t>, std::size_t> callsAfterFault;
std::map<std::size_t, std::pair<Outcome, Bytes>> references; // per scenario: what happens without faults
} // namespace

VT_SUITE(faults, fmts::Count *WayCount)
{
    const auto &f = fmts::formats[c.top / WayCount];
    const auto way = static_cast<Way>(c.top % WayCount);
    const auto id = static_cast<fmts::Id>(c.top / WayCount);
    if ((way == InPlace && f.rewriteOnly) || (onlyMp3(way) && id != fmts::Mp3))
        c.skip();
    media = vt::thorough() ? c.pick({ 40000, 700, 10000, 32768, 200000 }, "media size") : 40000;
    auto &reference = references[c.top + 1000 * media];
    if (reference.second.empty()) {
        const auto files = prepare(c, f, way);
        reference.first = attempt(f, files, way, -1, faults::Once);
        c.check(reference.first.success, "baseline", "saving %s (%s) fails without faults: %s %s", f.name, wayNames[way], reference.first.what.c_str(), reference.first.diag.c_str());
        reference.second = vt::readFile(files.target);
        c.check(inPlace(way) == (std::count(reference.first.ops.begin(), reference.first.ops.end(), faults::Rename) == 0) || way == SaveAs, "baseline", "%s (%s) not done as expected", f.name,
            wayNames[way]);
    }
    const auto &[base, expected] = reference;
    const auto i = c.choose(base.ops.size(), "call");
    const auto op = base.ops[i];
    const auto m = c.choose(std::size(modes), "mode");
    const auto mode = modes[m];
    if ((mode == faults::ShortOnce && op != faults::Write && op != faults::Read) || (mode == faults::ShortThenFull && op != faults::Write)
        || (mode == faults::DiskFull && op != faults::Write && op != faults::Open))
        c.skip();
    // let a further call fail subsequently
    auto second = 0L;
    if (mode == faults::Once) {
        auto &calls = callsAfterFault[{ c.top + 1000 * media, i }];
        if (!calls) {
            const auto files = prepare(c, f, way);
            calls = attempt(f, files, way, static_cast<long>(i), mode).ops.size() - i;
        }
        second = static_cast<long>(c.choose(calls, "second call after"));
    }
    const auto files = prepare(c, f, way);
    c.step();
    const auto o = attempt(f, files, way, static_cast<long>(i), mode, second);
    const auto ctx = fmt("%s, %s, call %zu (%s) %s; result: %s%s; %s", f.name, wayNames[way], i, o.fault.c_str(), modeNames[m], o.success ? "success" : "failure ", o.what.c_str(), o.diag.c_str());
    c.check(o.hit, "harness", "fault not reached; %s", ctx.c_str());
    c.check(!second || o.hitSecond, "harness", "second fault not reached; %s", ctx.c_str());
    c.check(!isLink(way) || std::filesystem::is_symlink(files.given), "link", "the symbolic link has been replaced; %s", ctx.c_str());
    const auto exists = vt::fileExists(files.target);
    const auto now = exists ? vt::readFile(files.target) : Bytes();
    if (o.success) {
        c.check(exists && now == expected, "success", "success reported but the file is %s (%zu instead of %zu bytes, differs at %zu); %s", exists ? "wrong" : "missing", now.size(), expected.size(),
            firstDiff(now, expected), ctx.c_str());
        c.state(vt::hashStr(fmt("%s %s %d ok", f.name, wayNames[way], op)));
        return;
    }
    c.check(o.path == files.given, "path", "the file is considered to be saved under \"%s\"; %s", o.path.c_str(), ctx.c_str());
    c.check(mode != faults::ShortOnce, "short", "a partial transfer is not an error; %s", ctx.c_str());
    if (way == SaveAs) {
        c.check(vt::fileExists(files.path) && vt::readFile(files.path) == files.original, "original", "original altered; %s", ctx.c_str());
    } else if (inPlace(way)) {
        // the tags may be damaged but not the actual media data
        c.check(exists, "original", "file is gone; %s", ctx.c_str());
        const auto ranges = fmts::mediaRanges(id, files.original);
        c.check(!ranges.empty() && ranges.front().second - ranges.front().first > 100, "harness", "media data not found");
        for (const auto &[from, to] : ranges) {
            c.check(now.size() >= to, "media", "file of %zu bytes has only %zu bytes now; %s", files.original.size(), now.size(), ctx.c_str());
            for (auto k = from; k < to; ++k)
                if (now[k] != files.original[k])
                    c.fail("media", "media data altered at %zu; %s", k, ctx.c_str());
        }
    } else {
        if (exists && now == files.original) {
            c.state(vt::hashStr(fmt("%s %s %d restored", f.name, wayNames[way], op)));
            return;
        }
        // the file is damaged so there must be a complete backup which is mentioned
        std::string found;
        for (const auto &dir : { files.dir, files.dir + "/bak", files.dir + "/real" })
            if (std::filesystem::is_directory(dir))
                for (auto &e : std::filesystem::directory_iterator(dir))
                    if (e.is_regular_file() && e.path().string() != files.path && vt::readFile(e.path().string()) == files.original)
                        found = e.path().string();
        c.check(!found.empty(), "lost", "the original content is lost; %s", ctx.c_str());
        const auto name = std::filesystem::path(found).filename().string();
        c.check(o.diag.find(name) != Bytes::npos || o.what.find(name) != Bytes::npos, "report", "the backup %s is not mentioned; %s", name.c_str(), ctx.c_str());
    }
    c.state(vt::hashStr(fmt("%s %s %d failed", f.name, wayNames[way], op)));
}
