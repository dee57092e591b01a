// P31: File handle and path information are consistent with the file.
// Explicit-state comparison: all sequences of operations on the handle up to the stated length vs. a model; all paths over an alphabet up to the stated length.
#include "common.h"

#include <tagparser/basicfileinfo.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4ids.h>

#include <fstream>
#include <memory>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P31";
const char *vt::rule = "handle: all sequences of opening (read-only or not), reopening, closing, invalidating, changing the path, reading, writing, reporting a size/path and external changes up to the stated "
                       "length for BasicFileInfo and MediaFileInfo; paths: all strings of separators, points and letters up to the stated length; states = distinct states of the model / shapes of paths";
const char *vt::assumptions = "the containing directory of a file directly in the root directory is reported as empty|size() is only determined when opening the file";

namespace {
struct ModelFile {
    std::string path;
    Bytes content;
    bool exists = true;
};
struct Model {
    ModelFile files[3]; // first, second, missing
    std::string path;
    bool open = false, readOnly = false;
    std::uint64_t size = 0, pos = 0;
    int handle = -1; // file the handle refers to
    bool failed = false; // whether the flags of the stream are set
};
int lookup(const Model &m)
{
    auto p = m.path;
    if (p.compare(0, 7, "file://") == 0)
        p = p.substr(7);
    for (int i = 0; i < 3; ++i)
        if (m.files[i].path == p)
            return i;
    return -1;
}
void invalidate(Model &m)
{
    m.open = false;
    m.size = 0;
    m.handle = -1;
    m.failed = false;
}
// returns whether reopening is supposed to succeed
bool reopen(Model &m, bool readOnly)
{
    invalidate(m);
    m.readOnly = readOnly;
    const auto i = lookup(m);
    if (i < 0 || !m.files[i].exists)
        return false;
    m.open = true;
    m.handle = i;
    m.size = m.files[i].content.size();
    m.pos = 0;
    return true;
}
constexpr std::size_t opCount = 19;
const char *const opNames[opCount] = { "open", "open read-only", "reopen", "reopen read-only", "close", "invalidate", "setPath(first)", "setPath(second)", "setPath(missing)", "setPath(second as URL)",
    "setPath(same)", "read byte", "write byte", "reportSizeChanged", "reportPathChanged(second)", "append externally", "create missing", "remove second", "seek to end" };

template <class Info> struct Access : public Info {
    template <class... A> explicit Access(A &&...a)
        : Info(std::forward<A>(a)...)
    {
    }
};

template <class Info> void run(Ctx &c, std::size_t first)
{
    Model m;
    const char *const names[3] = { "first.tag.xyz", "second", "missing.x" };
    for (int i = 0; i < 3; ++i)
        m.files[i].path = c.file(names[i]);
    m.files[0].content = "0123456789";
    m.files[1].content = "abcde";
    m.files[2].exists = false;
    vt::removeAllIn(c.scratch());
    for (auto &f : m.files)
        if (f.exists)
            vt::writeFile(f.path, f.content);
    m.path = m.files[0].path;
    std::unique_ptr<Info> info;
    switch (c.choose(3, "constructor")) {
    case 0: {
        info = std::make_unique<Info>(std::string_view(m.path));
        break;
    }
    case 1:
        info = std::make_unique<Info>(std::string(m.path));
        break;
    default:
        info = std::make_unique<Info>();
        info->setPath(std::string_view(m.path));
    }
    const auto depth = vt::thorough() ? 5u : 4u;
    auto used = false;
    for (auto n = 0u; n < depth; ++n) {
        const auto op = n ? c.choose(opCount + 1, "operation") : first;
        if (op == opCount)
            break;
        used = true;
        c.log("%s\n", opNames[op]);
        auto expectOk = true;
        auto ok = true;
        int got = 0, expected = 0;
        try {
            switch (op) {
            case 0:
            case 1:
                if (!m.open)
                    expectOk = reopen(m, op == 1);
                info->open(op == 1);
                break;
            case 2:
            case 3:
                expectOk = reopen(m, op == 3);
                info->reopen(op == 3);
                break;
            case 4:
                m.open = m.failed = false;
                m.handle = -1;
                info->close();
                break;
            case 5:
                invalidate(m);
                info->invalidate();
                break;
            case 6:
            case 7:
            case 8:
            case 9:
            case 10: {
                const auto path = op == 9 ? "file://" + m.files[1].path : op == 10 ? m.path : m.files[op - 6].path;
                if (path != m.path) {
                    invalidate(m);
                    m.path = path;
                }
                if (n & 1)
                    info->setPath(std::string(path));
                else
                    info->setPath(std::string_view(path));
                break;
            }
            case 11:
                if (!m.open) { // using a closed handle fails and sets the flags of the stream
                    try {
                        got = info->stream().get();
                    } catch (const std::ios_base::failure &) {
                        m.failed = true;
                    }
                    c.check(m.failed, "closed", "reading from a closed handle returned %d", got);
                    break;
                }
                if ( m.pos >= m.files[m.handle].content.size())
                    c.skip();
                expected = static_cast<unsigned char>(m.files[m.handle].content[m.pos]);
                ++m.pos;
                info->stream().seekg(static_cast<std::streamoff>(m.pos - 1));
                got = info->stream().get();
                break;
            case 12:
                if (!m.open || !m.files[m.handle].exists)
                    c.skip();
                expectOk = !m.readOnly;
                if (expectOk)
                    m.files[m.handle].content[0] = static_cast<char>('A' + n);
                else {
                    // a failing stream is not usable until reopening
                    const auto before = vt::readFile(m.files[m.handle].path);
                    auto thrown = false;
                    try {
                        info->stream().seekp(0);
                        info->stream().put(static_cast<char>('A' + n));
                        info->stream().flush();
                    } catch (const std::ios_base::failure &) {
                        thrown = true;
                    }
                    c.check(thrown, "writeable", "writing via a read-only handle succeeded");
                    c.check(vt::readFile(m.files[m.handle].path) == before, "modified", "file modified via a read-only handle");
                    info->stream().clear();
                    expectOk = true;
                    break;
                }
                info->stream().seekp(0);
                info->stream().put(static_cast<char>('A' + n));
                info->stream().flush();
                m.pos = 1;
                break;
            case 13:
                m.size = 3 + n;
                info->reportSizeChanged(3 + n);
                break;
            case 14:
                m.path = m.files[1].path;
                if (n & 1)
                    info->reportPathChanged(std::string(m.path));
                else
                    info->reportPathChanged(std::string_view(m.path));
                break;
            case 15: {
                if (!m.files[0].exists)
                    c.skip();
                m.files[0].content += "more";
                std::ofstream(m.files[0].path, std::ios_base::app | std::ios_base::binary) << "more";
                break;
            }
            case 16:
                if (m.files[2].exists)
                    c.skip();
                m.files[2].exists = true;
                m.files[2].content = "new";
                vt::writeFile(m.files[2].path, "new");
                break;
            case 17:
                if (!m.files[1].exists)
                    c.skip();
                m.files[1].exists = false;
                std::remove(m.files[1].path.c_str());
                break;
            case 18:
                if (!m.open)
                    c.skip();
                m.pos = m.files[m.handle].content.size();
                info->stream().seekg(0, std::ios_base::end);
                break;
            }
        } catch (const std::ios_base::failure &e) {
            ok = false;
            c.log("failure: %s\n", e.what());
        }
        c.step();
        c.check(ok == expectOk, "outcome", "%s %s", opNames[op], ok ? "succeeded unexpectedly" : "failed unexpectedly");
        c.check(got == expected, "read", "read %d instead of %d", got, expected);
        c.check(info->isOpen() == m.open && info->stream().is_open() == m.open, "isOpen", "isOpen() is %d after %s", info->isOpen(), opNames[op]);
        c.check(info->size() == m.size, "size", "size() is %llu instead of %llu after %s", (unsigned long long)info->size(), (unsigned long long)m.size, opNames[op]);
        c.check(info->path() == m.path, "path", "path() is %s instead of %s after %s", info->path().c_str(), m.path.c_str(), opNames[op]);
        c.check(info->isReadOnly() == m.readOnly, "isReadOnly", "isReadOnly() is %d after %s", info->isReadOnly(), opNames[op]);
        if (m.open && ok) {
            c.check(info->stream().good(), "state", "stream not usable after %s", opNames[op]);
            c.check(static_cast<std::uint64_t>(info->stream().tellg()) == m.pos || op == 12, "position", "position is %lld instead of %llu after %s", (long long)info->stream().tellg(),
                (unsigned long long)m.pos, opNames[op]);
            if (op == 12 && m.readOnly)
                info->stream().seekg(static_cast<std::streamoff>(m.pos));
        } else if (!m.open && ok) {
            c.check(info->stream().good() == !m.failed && (info->stream().exceptions() & std::ios_base::failbit), "state", "flags not as expected after %s", opNames[op]);
        }
        const auto file = m.path.substr(m.path.rfind('/') + 1);
        c.check(info->fileName() == file && info->containingDirectory() + "/" + file == m.path, "names", "parts of the path not current after %s", opNames[op]);
        for (const auto &f : m.files) {
            c.check(vt::fileExists(f.path) == f.exists, "exists", "file %s appeared/disappeared after %s", f.path.c_str(), opNames[op]);
            if (f.exists)
                c.check(vt::readFile(f.path) == f.content, "content", "content of %s changed by %s", f.path.c_str(), opNames[op]);
        }
        auto h = vt::hashStr(m.path);
        h = vt::mix(h, m.open | m.readOnly << 1 | m.failed << 5 | static_cast<unsigned>(m.handle + 1) << 2);
        h = vt::mix(vt::mix(h, m.size), m.open ? m.pos : 0);
        for (const auto &f : m.files)
            h = vt::mix(h, f.exists ? vt::hashStr(f.content) : 1);
        c.state(h);
    }
    // destroying the object closes the handle and leaves the files alone
    info.reset();
    if (used)
        for (const auto &f : m.files)
            if (f.exists)
                c.check(vt::readFile(f.path) == f.content, "content", "content of %s changed by the destructor", f.path.c_str());
}

// independent decomposition of a path
struct Parts {
    std::string dir, sep, stem, ext;
};
Parts parts(const std::string &path)
{
    Parts r;
    std::size_t name = 0;
    for (std::size_t i = 0; i < path.size(); ++i)
        if (path[i] == '/' || path[i] == '\\')
            name = i + 1;
    if (name) {
        r.dir = path.substr(0, name - 1);
        r.sep = path.substr(name - 1, 1);
    }
    auto file = path.substr(name);
    std::size_t point = file.size();
    for (std::size_t i = 0; i < file.size(); ++i)
        if (file[i] == '.')
            point = i;
    r.stem = file.substr(0, point);
    r.ext = file.substr(point);
    return r;
}
constexpr char letters[] = { 'a', '.', '/', '\\', '\xC3', ' ' };
constexpr std::size_t nLetters = sizeof(letters);
} // namespace

VT_SUITE(handle, opCount * 2)
{
    if (c.top % 2)
        run<MediaFileInfo>(c, c.top / 2);
    else
        run<BasicFileInfo>(c, c.top / 2);
}

VT_SUITE(paths, nLetters * nLetters * nLetters + 1)
{
    std::vector<std::string> todo;
    if (c.top == nLetters * nLetters * nLetters) {
        for (const auto *p : { "", "a", ".", "/", "\\", "..", "aa", "a.", ".a", "a/", "/a", "a\\", "./", "/.", "\\/", "/\\" })
            todo.emplace_back(p);
    } else {
        const std::string start{ letters[c.top % nLetters], letters[c.top / nLetters % nLetters], letters[c.top / nLetters / nLetters] };
        todo.emplace_back(start);
        const auto more = vt::thorough() ? 6u : 5u;
        for (std::size_t i = 0, level = 0, end = 1; level < more; ++level, end = todo.size())
            for (; i < end; ++i)
                for (const auto l : letters)
                    todo.emplace_back(todo[i] + l);
    }
    BasicFileInfo info;
    for (const auto &p : todo) {
        const auto e = parts(p);
        const auto view = std::string_view(p);
        const auto base = e.dir + e.sep;
        c.check(BasicFileInfo::fileName(view) == e.stem + e.ext, "fileName", "file name of %s is %s", quote(p).c_str(), quote(BasicFileInfo::fileName(view)).c_str());
        c.check(BasicFileInfo::fileName(view, true) == e.stem, "fileName-cut", "file name of %s without extension is %s", quote(p).c_str(), quote(BasicFileInfo::fileName(view, true)).c_str());
        c.check(BasicFileInfo::extension(view) == e.ext, "extension", "extension of %s is %s", quote(p).c_str(), quote(BasicFileInfo::extension(view)).c_str());
        c.check(BasicFileInfo::pathWithoutExtension(view) == base + e.stem, "pathWithoutExtension", "path of %s without extension is %s", quote(p).c_str(),
            quote(BasicFileInfo::pathWithoutExtension(view)).c_str());
        c.check(BasicFileInfo::containingDirectory(view) == e.dir, "containingDirectory", "directory of %s is %s", quote(p).c_str(), quote(BasicFileInfo::containingDirectory(view)).c_str());
        info.setPath(view);
        c.check(info.fileName() == e.stem + e.ext && info.fileName(true) == e.stem && info.extension() == e.ext && info.pathWithoutExtension() == base + e.stem
                && info.containingDirectory() == e.dir && info.path() == p,
            "members", "members return something else than the static functions for %s", quote(p).c_str());
        // the parts do not depend on what is behind a view
        const auto longer = p + "/x.y";
        const auto sub = std::string_view(longer).substr(0, p.size());
        c.check(BasicFileInfo::fileName(sub) == e.stem + e.ext && BasicFileInfo::extension(sub) == e.ext && BasicFileInfo::pathWithoutExtension(sub) == base + e.stem
                && BasicFileInfo::containingDirectory(sub) == e.dir && BasicFileInfo::fileName(sub, true) == e.stem,
            "view", "parts of %s depend on what follows the view", quote(p).c_str());
        const auto url = "file:/" + p;
        c.check(BasicFileInfo::pathForOpen(url) == p && BasicFileInfo::pathForOpen(p) == p, "pathForOpen", "path for opening %s is %s", quote(url).c_str(),
            quote(BasicFileInfo::pathForOpen(url)).c_str());
        c.step(13);
    }
    c.state(vt::mix(todo.size(), c.top));
}
