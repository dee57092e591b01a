// P22: backups never overwrite anything and restoring brings the original back.
#include "common.h"
#include "faults.h"

#include "backuphelper.h"
#include "exceptions.h"
#include "mediafileinfo.h"

#include <c++utilities/io/nativefilestream.h>

#include <filesystem>

using namespace ref;
using namespace TagParser;
namespace fs = std::filesystem;

const char *vt::property = "P22";
const char *vt::rule = "every kind of original path x backup directory x existing entries (files, directories, links) under the names a backup would get x renaming possible or not x what happens next "
                       "(restoring, every kind of failure, another backup), without faults and with every single I/O call failing; the whole directory tree is compared before and after";
const char *vt::assumptions = "no other process changes the directories in the meantime|stat calls do not fail";

namespace {
using Tree = std::map<std::string, Bytes>; // path to kind and content
Tree snapshot(const std::string &dir)
{
    Tree t;
    for (auto &e : fs::recursive_directory_iterator(dir)) {
        const auto p = e.path().string().substr(dir.size() + 1);
        if (e.is_symlink())
            t[p] = "-> " + fs::read_symlink(e.path()).string();
        else if (e.is_directory())
            t[p] = "dir";
        else
            t[p] = "file " + vt::readFile(e.path().string());
    }
    return t;
}
Bytes difference(const Tree &a, const Tree &b)
{
    Bytes r;
    for (auto &[p, v] : a)
        if (auto i = b.find(p); i == b.end())
            r += fmt("%s is gone; ", p.c_str());
        else if (i->second != v)
            r += fmt("%s changed from \"%s\" to \"%s\"; ", p.c_str(), v.substr(0, 30).c_str(), i->second.substr(0, 30).c_str());
    for (auto &[p, v] : b)
        if (!a.count(p))
            r += fmt("%s is new (%s); ", p.c_str(), v.substr(0, 30).c_str());
    return r;
}
struct PathKind {
    const char *file; // relative to the scratch directory, which also is the current directory
    bool absolute; // whether to pass the absolute path
    const char *link; // the path passed is a symbolic link
};
const PathKind paths[] = { { "music/song.mp3", true, nullptr }, { "music/song", true, nullptr }, { "music.d/song", true, nullptr }, { "music/so ng.tar.gz", true, nullptr }, { "music/.hidden", true, nullptr },
    { "music/b\xC3\xA4r.", true, nullptr }, { "song.mp3", false, nullptr }, { "music/song.mp3", false, nullptr }, { "music/song.mp3", true, "links/l.mp3" }, { "music/song.mp3", false, "l.mp3" } };
struct DirKind {
    const char *given; // %s is the scratch directory
    const char *relativeTo; // where it is supposed to be; nullptr for relative to the file, "" for relative to the scratch directory
    const char *actual;
    bool exists;
};
const DirKind dirs[] = { { "", nullptr, ".", true }, { "vtbak", nullptr, "vtbak", true }, { "./vtbak", nullptr, "vtbak", true }, { "vtbak/", nullptr, "vtbak", true }, { "vtbak/sub.dir", nullptr, "vtbak/sub.dir", true },
    { "../vtbak", nullptr, "../vtbak", true }, { "%s/vtabs", "", "vtabs", true }, { "%s/vtabs/", "", "vtabs", true }, { "vtmissing", nullptr, "vtmissing", false }, { "%s/vtmissing", "", "vtmissing", false },
    { "vtnodir", nullptr, "vtnodir", false } };
enum Next { Restore, RestoreDamaged, RestoreMissing, Again, FailFailure, FailAborted, FailIo, FailOther, NextCount };
const char *const nextNames[] = { "restore", "restore damaged", "restore missing", "another backup", "Failure", "OperationAbortedException", "ios_base::failure", "std::runtime_error" };
const char *const occupations[] = { "nothing", "file", "directory", "dangling link", "link to file" };
const Bytes content = "the original content\n" + Bytes(300, 'x');

void occupy(const std::string &path, int kind)
{
    switch (kind) {
    case 1:
        vt::writeFile(path, "something else");
        break;
    case 2:
        fs::create_directory(path);
        break;
    case 3:
        fs::create_symlink("nowhere", path);
        break;
    case 4:
        vt::writeFile(path + "-linked", "linked");
        fs::create_symlink(fs::path(path + "-linked").filename(), path);
        break;
    default:;
    }
}
struct Scenario {
    const PathKind *path;
    const DirKind *dir;
    int occupied[2];
    bool canonical, exdev, open;
    Next next;
};
struct State {
    std::string scratch, actual, given, backupDir, expectedDir;
};
State prepare(Ctx &c, const Scenario &s)
{
    State r;
    r.scratch = c.scratch();
    vt::removeAllIn(r.scratch);
    if (chdir(r.scratch.c_str()))
        c.fail("harness", "unable to change directory");
    for (auto d : { "music", "music.d", "links", "vtabs", "vtbak", "vtbak/sub.dir", "music/vtbak", "music/vtbak/sub.dir", "music.d/vtbak", "music.d/vtbak/sub.dir", "links/vtbak" })
        fs::create_directory(r.scratch + "/" + d);
    for (auto d : { "", "music/", "music.d/", "links/" })
        vt::writeFile(r.scratch + "/" + d + "vtnodir", "not a directory");
    r.actual = r.scratch + "/" + s.path->file;
    vt::writeFile(r.actual, content);
    r.given = (s.path->absolute ? r.scratch + "/" : std::string()) + (s.path->link ? s.path->link : s.path->file);
    if (s.path->link)
        fs::create_symlink(r.actual, s.path->absolute ? r.given : r.scratch + "/" + r.given);
    r.backupDir = fmt(s.dir->given, r.scratch.c_str());
    // without canonicalization the link itself is the file to be considered
    const auto considered = s.canonical || !s.path->link ? r.actual : r.scratch + "/" + s.path->link;
    r.expectedDir = s.dir->relativeTo ? r.scratch + "/" + s.dir->actual : (fs::path(considered).parent_path() / s.dir->actual).lexically_normal().string();
    while (r.expectedDir.size() > 1 && r.expectedDir.back() == '/')
        r.expectedDir.pop_back();
    return r;
}
struct Outcome {
    bool created = false, done = false;
    Bytes error, diag, rethrown;
    std::string path, backup, backup2;
    Tree afterCreation;
    Bytes read;
    std::vector<int> ops;
    bool hit = false;
    Bytes fault;
};
void create(const Scenario &s, const std::string &dir, std::string &path, std::string &backup, CppUtilities::NativeFileStream &original, CppUtilities::NativeFileStream &backupStream)
{
    if (s.canonical)
        BackupHelper::createBackupFileCanonical(dir, path, backup, original, backupStream);
    else
        BackupHelper::createBackupFile(dir, path, backup, original, backupStream);
}
Outcome run(const Scenario &s, const State &st, long target = -1, faults::Mode mode = faults::Once)
{
    Outcome o;
    o.path = st.given;
    MediaFileInfo info(st.given);
    CppUtilities::NativeFileStream backupStream, backupStream2;
    auto &original = info.stream();
    original.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    if (s.open)
        info.open();
    faults::state.exdev = s.exdev;
    faults::Armed armed(target, mode);
    const auto collect = [&o] {
        faults::state.armed = false;
        o.ops = faults::state.ops;
        o.hit = faults::state.hit;
        o.fault = faults::state.what;
        faults::state.exdev = false;
    };
    try {
        create(s, st.backupDir, o.path, o.backup, original, backupStream);
        o.created = true;
    } catch (const std::exception &e) {
        o.error = e.what();
        collect();
        o.afterCreation = snapshot(st.scratch);
        return o;
    }
    faults::state.armed = false;
    o.afterCreation = snapshot(st.scratch);
    if (target < 0) {
        try {
            o.read.resize(content.size() + 10);
            backupStream.exceptions(std::ios_base::badbit);
            backupStream.seekg(0);
            backupStream.read(&o.read[0], static_cast<std::streamsize>(o.read.size()));
            o.read.resize(static_cast<std::size_t>(backupStream.gcount()));
            backupStream.clear();
            backupStream.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        } catch (const std::exception &e) {
            o.read = e.what();
        }
    }
    switch (s.next) {
    case Restore:
    case RestoreMissing:
        if (s.next == RestoreMissing)
            fs::remove(o.path);
        break;
    default:
        // the file is partially written
        vt::writeFile(o.path, "partially written");
        break;
    }
    faults::state.armed = true;
    Diagnostics diag;
    const auto fail = [&] {
        try {
            BackupHelper::handleFailureAfterFileModifiedCanonical(info, o.path, o.backup, original, backupStream, diag, "test");
        } catch (const OperationAbortedException &) {
            o.rethrown = "OperationAbortedException";
        } catch (const Failure &) {
            o.rethrown = "Failure";
        } catch (const std::ios_base::failure &) {
            o.rethrown = "ios_base::failure";
        } catch (const std::runtime_error &) {
            o.rethrown = "std::runtime_error";
        } catch (...) {
            o.rethrown = "something else";
        }
    };
    try {
        switch (s.next) {
        case Again: {
            auto path = st.given;
            create(s, st.backupDir, path, o.backup2, original, backupStream2);
            break;
        }
        case FailFailure:
            try {
                throw Failure();
            } catch (...) {
                fail();
            }
            break;
        case FailAborted:
            try {
                throw OperationAbortedException();
            } catch (...) {
                fail();
            }
            break;
        case FailIo:
            try {
                throw std::ios_base::failure("simulated");
            } catch (...) {
                fail();
            }
            break;
        case FailOther:
            try {
                throw std::runtime_error("simulated");
            } catch (...) {
                fail();
            }
            break;
        default:
            BackupHelper::restoreOriginalFileFromBackupFile(o.path, o.backup, original, backupStream);
        }
        o.done = true;
    } catch (const std::exception &e) {
        o.error = e.what();
    }
    collect();
    o.diag = diagText(diag);
    return o;
}
// what must hold whatever happens: nothing which existed before is altered (besides the original), the original content is there
void invariant(Ctx &c, const Tree &before, const Tree &after, const std::string &actual, const char *key, const Bytes &ctx)
{
    bool found = false;
    for (auto &[p, v] : before)
        if (p != actual && v.compare(0, 4, "-> /")) {
            const auto i = after.find(p);
            c.check(i != after.end() && i->second == v, key, "%s has been %s; %s", p.c_str(), i == after.end() ? "removed" : "altered", ctx.c_str());
        }
    for (auto &[p, v] : after)
        found = found || v == "file " + content;
    c.check(found, "lost", "the original content is lost; %s", ctx.c_str());
}
Bytes describe(const Scenario &s, const State &st)
{
    return fmt("path %s%s, backup dir \"%s\", occupied by %s/%s%s%s%s, then %s", st.given.c_str(), s.path->link ? " (link)" : "", s.dir->given, occupations[s.occupied[0]], occupations[s.occupied[1]],
        s.canonical ? ", canonical" : "", s.exdev ? ", other device" : "", s.open ? "" : ", not open", nextNames[s.next]);
}
Scenario choose(Ctx &c, bool small)
{
    Scenario s;
    s.path = &paths[c.top / std::size(dirs)];
    s.dir = &dirs[c.top % std::size(dirs)];
    s.canonical = c.flip("canonical");
    s.exdev = c.flip("other device");
    s.open = small || c.flip("open");
    s.occupied[0] = static_cast<int>(c.choose(small ? 2 : 5, "first name"));
    s.occupied[1] = s.occupied[0] ? static_cast<int>(c.choose(small ? 1 : 5, "second name")) : 0;
    s.next = static_cast<Next>(c.choose(NextCount, "next"));
    return s;
}
// occupies the names a backup would get, as observed
bool occupyNames(Ctx &c, const Scenario &s, const State &st)
{
    for (auto kind : s.occupied) {
        if (!kind)
            break;
        const auto before = snapshot(st.scratch);
        auto probe = s;
        probe.next = Restore;
        probe.exdev = false;
        const auto o = run(probe, st);
        if (!o.created)
            return false;
        c.check(difference(before, snapshot(st.scratch)).empty(), "restore", "restoring does not bring back the original: %s (%s)", difference(before, snapshot(st.scratch)).c_str(), describe(s, st).c_str());
        occupy(fs::path(o.backup).is_absolute() ? o.backup : st.scratch + "/" + o.backup, kind);
    }
    return true;
}
} // namespace

VT_SUITE(histories, std::size(paths) * std::size(dirs))
{
    const auto s = choose(c, false);
    if (!s.canonical && s.path->link && s.exdev)
        c.skip(); // the link is kept so one would write to the actual file
    const auto st = prepare(c, s);
    const auto exists = fs::is_directory(st.expectedDir);
    if (!occupyNames(c, s, st)) {
        c.check(!exists, "create", "unable to create a backup to determine its name (%s)", describe(s, st).c_str());
        c.skip();
    }
    const auto considered = (s.canonical || !s.path->link ? std::string(s.path->file) : std::string(s.path->link)); // relative to the scratch directory
    const auto before = snapshot(st.scratch);
    c.step();
    const auto o = run(s, st);
    const auto after = snapshot(st.scratch);
    const auto ctx = fmt("%s; backup: %s; %s%s%s", describe(s, st).c_str(), o.backup.c_str(), o.created ? "created " : "not created ", o.error.c_str(), o.diag.c_str());
    c.state(vt::hashStr(ctx.substr(ctx.find("occupied")) + s.path->file + s.dir->given));
    invariant(c, before, o.afterCreation, considered, "overwritten", ctx);
    if (!o.created) {
        c.check(!exists, "create", "unable to create a backup; %s", ctx.c_str());
        c.check(difference(before, after).empty(), "failure", "not possible to create a backup but %s; %s", difference(before, after).c_str(), ctx.c_str());
        return;
    }
    // check the backup
    const auto backup = fs::path(o.backup).is_absolute() ? fs::path(o.backup) : fs::path(st.scratch) / o.backup;
    c.check(fs::canonical(backup.parent_path()) == fs::canonical(st.expectedDir), "directory", "the backup is expected within %s; %s", st.expectedDir.c_str(), ctx.c_str());
    const auto rel = backup.lexically_normal().string().substr(st.scratch.size() + 1);
    c.check(!before.count(rel), "overwritten", "%s has existed before; %s", rel.c_str(), ctx.c_str());
    c.check(o.read == content, "stream", "reading from the backup stream gives \"%s\"; %s", o.read.substr(0, 50).c_str(), ctx.c_str());
    auto expected = before;
    if (!s.exdev)
        expected[rel] = expected[considered], expected.erase(considered);
    else
        expected[rel] = "file " + content;
    c.check(difference(expected, o.afterCreation).empty(), "create", "after creating the backup %s; %s", difference(expected, o.afterCreation).c_str(), ctx.c_str());
    c.check(!s.canonical || o.path == (fs::canonical(st.scratch) / s.path->file).string(), "canonical", "the canonical path is %s; %s", o.path.c_str(), ctx.c_str());
    // check the further steps
    if (s.next == Again) {
        c.check(o.done, "again", "unable to create another backup; %s", ctx.c_str());
        const auto backup2 = (fs::path(o.backup2).is_absolute() ? fs::path(o.backup2) : fs::path(st.scratch) / o.backup2).lexically_normal().string().substr(st.scratch.size() + 1);
        c.check(!o.afterCreation.count(backup2), "overwritten", "%s has existed before; %s", backup2.c_str(), ctx.c_str());
        invariant(c, o.afterCreation, after, considered, "overwritten", ctx);
        const auto i = after.find(backup2);
        c.check(i != after.end() && (i->second == "file partially written"), "again", "the second backup is wrong; %s", ctx.c_str());
        return;
    }
    if (s.next >= FailFailure)
        c.check(o.rethrown == nextNames[s.next], "rethrow", "%s rethrown; %s", o.rethrown.c_str(), ctx.c_str());
    c.check(o.done, "restore", "unable to restore; %s", ctx.c_str());
    // a link which has been renamed is copied as regular file when it cannot be renamed
    auto wanted = before;
    if (s.exdev && !s.canonical && s.path->link)
        return;
    c.check(difference(wanted, after).empty(), "restore", "after restoring %s; %s", difference(wanted, after).c_str(), ctx.c_str());
    if (s.next >= FailFailure)
        c.check(o.diag.find("restored") != Bytes::npos && (o.diag.find("[critical]") == Bytes::npos) == (s.next == FailAborted), "report", "wrong messages; %s", ctx.c_str());
}

VT_SUITE(faulty, std::size(paths) * std::size(dirs))
{
    const auto s = choose(c, !vt::thorough());
    if (!s.canonical && s.path->link)
        c.skip();
    if (!s.dir->exists)
        c.skip();
    auto st = prepare(c, s);
    if (!fs::is_directory(st.expectedDir))
        c.skip();
    occupyNames(c, s, st);
    static std::map<Bytes, std::vector<int>> logs;
    auto &ops = logs[describe(s, st)];
    if (ops.empty()) {
        ops = run(s, st).ops;
        st = prepare(c, s);
        occupyNames(c, s, st);
    }
    const auto i = c.choose(ops.size(), "call");
    constexpr faults::Mode modes[] = { faults::Once, faults::FromThen, faults::DiskFull, faults::ShortThenFull };
    const auto mode = modes[c.choose(std::size(modes), "mode")];
    if ((mode == faults::ShortThenFull && ops[i] != faults::Write) || (mode == faults::DiskFull && ops[i] != faults::Write))
        c.skip();
    const auto before = snapshot(st.scratch);
    c.step();
    const auto o = run(s, st, static_cast<long>(i), mode);
    const auto after = snapshot(st.scratch);
    const auto ctx = fmt("%s; call %zu (%s) failing (%d); backup: %s; %s%s%s", describe(s, st).c_str(), i, o.fault.c_str(), mode, o.backup.c_str(), o.created ? "created " : "not created ", o.error.c_str(), o.diag.c_str());
    c.check(o.hit, "harness", "fault not reached; %s", ctx.c_str());
    c.state(vt::hashStr(fmt("%s %d %d %d %d", s.dir->given, ops[i], mode, o.created, o.done)));
    const std::string considered = s.path->file;
    invariant(c, before, o.afterCreation, considered, "overwritten", ctx);
    invariant(c, before, after, considered, "overwritten", ctx);
    const auto same = difference(before, after).empty();
    const auto name = fs::path(o.backup).filename().string();
    if (!o.created) {
        // the file is where it was or in the backup which is named
        const auto f = after.find(considered);
        if (f == after.end() || f->second != "file " + content)
            c.check(o.error.find(name) != Bytes::npos, "report", "the backup is not named; %s", ctx.c_str());
        else
            c.check(same || mode == faults::FromThen, "leftover", "%s; %s", difference(before, after).c_str(), ctx.c_str());
        return;
    }
    if (s.next == Again)
        return;
    const auto f = after.find(considered);
    const auto restored = f != after.end() && f->second == "file " + content;
    if (s.next >= FailFailure) {
        c.check(o.rethrown == nextNames[s.next], "rethrow", "%s rethrown; %s", o.rethrown.c_str(), ctx.c_str());
        c.check(restored || (o.diag.find("could not be restored") != Bytes::npos && o.diag.find(name) != Bytes::npos), "report", "not restored but wrong message; %s", ctx.c_str());
    } else
        c.check(restored || (!o.done && o.error.find(name) != Bytes::npos), "report", "not restored but wrong message; %s", ctx.c_str());
}
