// P30: the element trees of EBML and MP4 files are complete, exact and independent of the order in which they are explored.
#include "common.h"
#include "ebml.h"

#include <tagparser/matroska/ebmlelement.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4atom.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/progressfeedback.h>

#include <functional>
#include <memory>
#include <sstream>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P30";
const char *vt::rule = "all trees of up to 4 (thorough 5) elements with repeated IDs of every length, every kind of size denotation (lengths 1 to 8/32-bit/64-bit/until the end of the file), leading header data of "
                       "the children, junk between elements and data sizes x all sequences of up to 2 lookups, copies, buffer operations, validations and reparsings starting from the unparsed root; "
                       "states = distinct (tree, operations, result)";
const char *vt::assumptions = "a path lookup follows the first element matching each item; finding a match behind a later one is allowed as well|junk consists of bytes which can not start an EBML element";

namespace {
// an element as it has been generated
struct Spec {
    std::uint32_t id = 0;
    bool parent = false, padding = false;
    int parentIndex = -1, level = 0;
    std::vector<int> kids;
    std::uint64_t off = 0, idLen = 0, sizeLen = 0, extra = 0, total = 0, junk = 0;
    bool untilEnd = false;
    std::size_t data = 0;
    std::uint64_t header() const
    {
        return idLen + sizeLen;
    }
};
struct Tree {
    std::vector<Spec> e; // in the order of their occurrence
    std::vector<int> top;
    Bytes file;
    Bytes text;
    const std::vector<int> &siblings(int i) const
    {
        return e[i].parentIndex < 0 ? top : e[e[i].parentIndex].kids;
    }
    std::vector<int> following(int i, bool self) const
    {
        std::vector<int> r;
        auto found = false;
        for (auto s : siblings(i)) {
            if (found || (s == i && self))
                r.emplace_back(s);
            if (s == i)
                found = true;
        }
        return r;
    }
};
Bytes name(std::uint32_t id)
{
    return fmt("%x", id);
}
// chooses the shape of a tree: every element is either a child of the previous one or a following sibling of one of its ancestors (or of itself)
void shape(Ctx &c, Tree &t, int max)
{
    std::vector<int> chain;
    for (int i = 0; i < max; ++i) {
        std::uint32_t options = 1; // next top-level element
        if (i) {
            options = static_cast<std::uint32_t>(chain.size()) + 1; // depth of the new element
        }
        const auto depth = i ? c.choose(options + 1, "depth") : 0; // last option: no more elements
        if (i && depth == options)
            break;
        chain.resize(depth);
        Spec s;
        s.level = static_cast<int>(depth);
        s.parentIndex = depth ? chain.back() : -1;
        if (depth) {
            t.e[chain.back()].kids.emplace_back(i);
            t.e[chain.back()].parent = true;
        } else
            t.top.emplace_back(i);
        t.e.emplace_back(s);
        chain.emplace_back(i);
    }
}
Bytes describe(const Tree &t)
{
    Bytes r;
    for (auto &s : t.e)
        r += fmt("%s%x[%llu+%llu]", Bytes(static_cast<std::size_t>(s.level), '>').c_str(), s.id, (unsigned long long)s.off, (unsigned long long)s.total) + " ";
    return r;
}

// builds the file for EBML
void buildEbml(Ctx &c, Tree &t, bool all)
{
    static const std::uint32_t parents[] = { ebml::CuePoint, ebml::Seek, ebml::Tags }, leaves[] = { ebml::TrackNumber, ebml::TrackUID, ebml::TimecodeScale, ebml::Void };
    const auto ids = c.top / 5, sizes = c.top % 5, content = all ? c.choose(3, "content") : 1, junk = all ? c.choose(4, "junk") : c.choose(2, "junk");
    for (std::size_t i = 0; i < t.e.size(); ++i) {
        auto &s = t.e[i];
        const auto variant = ids == 3 ? i : ids;
        s.id = s.parent ? parents[variant % 3] : leaves[(variant + (ids == 3 ? 0 : i / 3)) % 4];
        s.idLen = static_cast<std::uint64_t>(ebml::idLen(s.id));
        s.padding = s.id == ebml::Void;
        s.data = s.parent ? 0 : (content == 2 ? i * 63 : content + i % 3);
        s.junk = junk == 3 ? (i ? 5 : 0) : (i && i % 2 == 0 && junk ? junk : 0);
    }
    const std::function<Bytes(int, std::uint64_t)> make = [&](int i, std::uint64_t off) {
        auto &s = t.e[static_cast<std::size_t>(i)];
        off += s.junk;
        s.off = off;
        // size of the content does not depend on its position
        const std::function<std::size_t(int)> measure = [&](int n) -> std::size_t {
            auto &m = t.e[static_cast<std::size_t>(n)];
            std::size_t content = m.data;
            for (auto k : m.kids)
                content += measure(k);
            static const int lens[] = { 0, 8, 2, 4, 0 };
            auto len = sizes == 4 ? (n % 2 ? 3 : 0) : lens[sizes];
            if (!len)
                for (len = 1; content >= (1ull << (7 * len)) - 1; ++len)
                    ;
            m.sizeLen = static_cast<std::uint64_t>(len);
            m.total = m.idLen + m.sizeLen + content;
            return m.junk + m.total;
        };
        measure(i);
        Bytes inner = s.parent ? Bytes() : filler(s.data, static_cast<unsigned>(i));
        for (auto k : s.kids)
            inner += make(k, off + s.header() + inner.size());
        return Bytes(s.junk, '\0') + ebml::id(s.id) + ebml::size(inner.size(), static_cast<int>(s.sizeLen)) + inner;
    };
    for (auto i : t.top)
        t.file += make(i, t.file.size());
}
// builds the file for MP4
constexpr std::uint32_t cc(const char *s)
{
    return static_cast<std::uint32_t>(static_cast<unsigned char>(s[0])) << 24 | static_cast<std::uint32_t>(static_cast<unsigned char>(s[1])) << 16 | static_cast<std::uint32_t>(static_cast<unsigned char>(s[2])) << 8
        | static_cast<unsigned char>(s[3]);
}
void buildMp4(Ctx &c, Tree &t, bool all)
{
    static const std::uint32_t parents[] = { cc("moov"), cc("udta"), cc("meta"), cc("dref"), cc("stsd") }, leaves[] = { cc("tkhd"), cc("free"), cc("mdat"), cc("skip") };
    const auto ids = c.top / 4, sizes = c.top % 4, content = all ? c.choose(3, "content") : 1;
    const auto untilEnd = c.flip("last until end");
    for (std::size_t i = 0; i < t.e.size(); ++i) {
        auto &s = t.e[i];
        const auto variant = ids == 5 ? i : ids;
        s.id = s.parent ? (ids == 1 ? parents[1 + s.level % 2] : parents[variant % 5]) : leaves[(variant + (ids == 5 ? 0 : i / 3)) % 4];
        s.idLen = 4;
        s.padding = s.id == cc("free") || s.id == cc("skip");
        s.sizeLen = (sizes == 1 || (sizes == 2 && i % 2) || (sizes == 3 && s.parent)) ? 12 : 4;
        s.data = s.parent ? 0 : (content == 2 ? i * 300 : content * 8 + i % 3);
        if (s.parent) {
            if (s.id == cc("dref") || s.id == cc("stsd"))
                s.extra = 8;
            else if (s.id == cc("meta") && s.parentIndex >= 0 && t.e[static_cast<std::size_t>(s.parentIndex)].id == cc("udta"))
                s.extra = 4;
        }
    }
    if (untilEnd) {
        auto &s = t.e[static_cast<std::size_t>(t.top.back())];
        if (s.sizeLen != 4)
            c.skip();
        s.untilEnd = true;
    }
    const std::function<Bytes(int, std::uint64_t)> make = [&](int i, std::uint64_t off) {
        auto &s = t.e[static_cast<std::size_t>(i)];
        s.off = off;
        Bytes inner = s.parent ? filler(s.extra, 7) : filler(s.data, static_cast<unsigned>(i));
        for (auto k : s.kids)
            inner += make(k, off + s.header() + inner.size());
        s.total = s.header() + inner.size();
        if (s.sizeLen == 12)
            return BE(1, 4) + BE(s.id, 4) + BE(s.total, 8) + inner;
        return BE(s.untilEnd ? 0 : s.total, 4) + BE(s.id, 4) + inner;
    };
    for (auto i : t.top)
        t.file += make(i, t.file.size());
}

template <class Element> struct Explorer {
    Ctx &c;
    const Tree &t;
    Element &root;
    Diagnostics &diag;
    Bytes &what;

    // navigates to the specified element parsing only what is required
    Element &reach(int index)
    {
        std::vector<int> path;
        for (auto i = index; i >= 0; i = t.e[static_cast<std::size_t>(i)].parentIndex)
            path.insert(path.begin(), i);
        Element *e = &root;
        for (auto i : path) {
            for (auto s : t.siblings(i)) {
                if (s == i)
                    break;
                e->parse(diag);
                e = e->nextSibling();
                c.check(e, "missing", "%s: element %d has no sibling", what.c_str(), s);
            }
            if (i != index) {
                e->parse(diag);
                e = e->firstChild();
                c.check(e, "missing", "%s: element %d has no child", what.c_str(), i);
            }
        }
        return *e;
    }
    void checkElement(Element *e, int index, const char *op)
    {
        c.check(e, "missing", "%s: %s returned nothing instead of element %d", what.c_str(), op, index);
        auto &s = t.e[static_cast<std::size_t>(index)];
        e->parse(diag);
        c.check(e->startOffset() == s.off && e->id() == s.id && e->isParsed(), "identity", "%s: %s returned element %x at %llu instead of %x at %llu", what.c_str(), op, e->id(), (unsigned long long)e->startOffset(), s.id,
            (unsigned long long)s.off);
    }
    void checkTree()
    {
        const std::function<void(Element *, const std::vector<int> &, Element *)> visit = [&](Element *e, const std::vector<int> &expected, Element *parent) {
            Element *last = nullptr;
            for (auto i : expected) {
                auto &s = t.e[static_cast<std::size_t>(i)];
                c.check(e, "missing", "%s: element %d missing in tree", what.c_str(), i);
                checkElement(e, i, "tree");
                c.check(e->idLength() == s.idLen && e->sizeLength() == s.sizeLen && e->headerSize() == s.header() && e->totalSize() == s.total && e->dataSize() == s.total - s.header(), "sizes",
                    "%s: element %d: header %u+%u, data %llu, total %llu", what.c_str(), i, e->idLength(), e->sizeLength(), (unsigned long long)e->dataSize(), (unsigned long long)e->totalSize());
                c.check(e->dataOffset() == s.off + s.header() && e->endOffset() == s.off + s.total, "offsets", "%s: element %d: data at %llu, end at %llu", what.c_str(), i, (unsigned long long)e->dataOffset(),
                    (unsigned long long)e->endOffset());
                c.check(e->maxTotalSize() >= e->totalSize() && e->startOffset() + e->maxTotalSize() == (parent ? parent->endOffset() : t.file.size()), "max-size", "%s: element %d: max. size %llu", what.c_str(), i,
                    (unsigned long long)e->maxTotalSize());
                c.check(e->parent() == parent && const_cast<const Element *>(e)->parent() == parent && e->level() == s.level && e->parent(0) == e && e->parent(1) == parent
                        && e->parent(static_cast<std::uint8_t>(s.level + 1)) == nullptr && (!s.level || e->parent(static_cast<std::uint8_t>(s.level))->level() == 0),
                    "parent", "%s: element %d: wrong parent or level %u", what.c_str(), i, e->level());
                c.check(e->relativeStartOffset() == s.off - (parent ? parent->startOffset() : 0), "relative-offset", "%s: element %d: relative offset %llu", what.c_str(), i, (unsigned long long)e->relativeStartOffset());
                c.check(e->isPadding() == s.padding && (!s.parent || !e->firstChildOffset() || e->firstChildOffset() == s.header() + s.extra), "kind", "%s: element %d: padding %d, first child at %llu", what.c_str(), i, e->isPadding(),
                    (unsigned long long)e->firstChildOffset());
                visit(e->firstChild(), s.kids, e);
                last = e;
                e = e->nextSibling();
            }
            c.check(!e, "surplus", "%s: there are surplus elements", what.c_str());
            if (parent)
                c.check(parent->lastChild() == last && const_cast<const Element *>(parent)->lastChild() == last, "last-child", "%s: wrong last child", what.c_str());
        };
        visit(&root, t.top, nullptr);
    }
    void checkCopy(Bytes got, std::uint64_t off, std::uint64_t size, const char *op)
    {
        c.check(got == t.file.substr(off, size), "copy", "%s: %s gave %zu bytes (%s...) instead of %llu from %llu", what.c_str(), op, got.size(), vt::quote(got.substr(0, 20)).c_str(), (unsigned long long)size, (unsigned long long)off);
    }
    // first element matching a path
    int follow(int from, const std::vector<std::uint32_t> &path, bool backtrack)
    {
        for (auto s : t.following(from, true)) {
            auto &e = t.e[static_cast<std::size_t>(s)];
            if (e.id != path.front())
                continue;
            if (path.size() == 1)
                return s;
            const auto r = e.kids.empty() ? -1 : follow(e.kids.front(), std::vector<std::uint32_t>(path.begin() + 1, path.end()), backtrack);
            if (r >= 0 || !backtrack)
                return r;
        }
        return -1;
    }
    void operation(bool more, unsigned maxPath)
    {
        std::vector<std::uint32_t> ids;
        for (auto &s : t.e)
            if (std::find(ids.begin(), ids.end(), s.id) == ids.end())
                ids.emplace_back(s.id);
        ids.emplace_back(0x80u);
        const auto n = static_cast<std::uint32_t>(t.e.size());
        const auto op = c.choose(more ? 12 : 11, "operation");
        if (op == 11) {
            what += "; nothing";
            return;
        }
        const auto index = static_cast<int>(c.choose(n, "element"));
        auto &s = t.e[static_cast<std::size_t>(index)];
        auto &e = reach(index);
        switch (op) {
        case 0:
        case 1:
        case 2: {
            const auto id = ids[c.choose(static_cast<std::uint32_t>(ids.size()), "ID")];
            static const char *const names[] = { "childById", "siblingById", "siblingByIdIncludingThis" };
            what += fmt("; %s(%x) of element %d", names[op], id, index);
            const auto candidates = op == 0 ? s.kids : t.following(index, op == 2);
            auto expected = -1;
            for (auto k : candidates)
                if (expected < 0 && t.e[static_cast<std::size_t>(k)].id == id)
                    expected = k;
            auto *const r = op == 0 ? e.childById(id, diag) : op == 1 ? e.siblingById(id, diag) : e.siblingByIdIncludingThis(id, diag);
            if (expected >= 0)
                checkElement(r, expected, names[op]);
            else if (r)
                c.fail("lookup", "%s returned %x at %llu", what.c_str(), r->id(), (unsigned long long)r->startOffset());
            break;
        }
        case 3: {
            std::vector<std::uint32_t> path{ ids[c.choose(static_cast<std::uint32_t>(ids.size()), "ID")] };
            const auto len = c.choose(maxPath, "path length");
            for (unsigned i = 0; i < len; ++i)
                path.emplace_back(ids[c.choose(static_cast<std::uint32_t>(ids.size()), "ID")]);
            what += fmt("; path from element %d:", index);
            for (auto p : path)
                what += " " + name(p);
            auto *const r = len == 0 ? e.subelementByPath(diag, path[0]) : len == 1 ? e.subelementByPath(diag, path[0], path[1]) : e.subelementByPath(diag, path[0], path[1], path[2]);
            const auto first = follow(index, path, false), any = follow(index, path, true);
            if (first >= 0)
                checkElement(r, first, "subelementByPath");
            else if (r)
                c.check(any >= 0 && r->startOffset() == t.e[static_cast<std::size_t>(any)].off, "lookup", "%s returned %x at %llu", what.c_str(), r->id(), (unsigned long long)r->startOffset());
            break;
        }
        case 4:
            what += fmt("; reparse element %d", index);
            e.reparse(diag);
            break;
        case 5:
            what += fmt("; clear element %d", index);
            e.clear();
            c.check(!e.isParsed() && !e.firstChild() && !e.nextSibling(), "clear", "%s: not cleared", what.c_str());
            break;
        case 6: {
            what += fmt("; buffer element %d", index);
            e.parse(diag);
            e.makeBuffer();
            c.check(e.buffer() != nullptr, "buffer", "%s: no buffer", what.c_str());
            std::stringstream o, o2, o3;
            e.copyBuffer(o);
            checkCopy(o.str(), s.off, s.total, "copyBuffer");
            e.copyPreferablyFromBuffer(o2, diag, nullptr);
            checkCopy(o2.str(), s.off, s.total, "copyPreferablyFromBuffer");
            if (c.flip("discard")) {
                e.discardBuffer();
                c.check(e.buffer() == nullptr, "buffer", "%s: buffer still present", what.c_str());
            }
            e.copyPreferablyFromBuffer(o3, diag, nullptr);
            checkCopy(o3.str(), s.off, s.total, "copyPreferablyFromBuffer");
            break;
        }
        case 7:
        case 8:
        case 9: {
            static const char *const names[] = { "copyEntirely", "copyHeader", "copyWithoutChilds" };
            const auto progress = c.flip("progress");
            what += fmt("; %s of element %d%s", names[op - 7], index, progress ? " with progress" : "");
            AbortableProgressFeedback feedback;
            std::stringstream o;
            e.parse(diag);
            auto *const p = progress ? &feedback : nullptr;
            op == 7 ? e.copyEntirely(o, diag, p) : op == 8 ? e.copyHeader(o, diag, p) : e.copyWithoutChilds(o, diag, p);
            const auto childOffset = e.firstChildOffset();
            checkCopy(o.str(), s.off, op == 7 ? s.total : op == 8 ? s.header() : childOffset ? childOffset : s.total, names[op - 7]);
            if (s.parent)
                c.check(childOffset == s.header() + s.extra, "kind", "%s: first child at %llu", what.c_str(), (unsigned long long)childOffset);
            break;
        }
        default: {
            what += fmt("; validate from element %d", index);
            std::uint64_t padding = 0, expected = 0;
            e.validateSubsequentElementStructure(diag, &padding);
            const std::function<void(int)> sum = [&](int i) {
                auto &x = t.e[static_cast<std::size_t>(i)];
                if (x.padding)
                    expected += x.total;
                for (auto k : x.kids)
                    sum(k);
            };
            for (auto i : t.following(index, true))
                sum(i);
            c.check(padding == expected, "padding", "%s: padding %llu, expected %llu", what.c_str(), (unsigned long long)padding, (unsigned long long)expected);
        }
        }
        c.step();
    }
};
template <class Element, class Container> void explore(Ctx &c, Tree &t, int operations, unsigned maxPath = 3)
{
    Bytes what = describe(t);
    std::stringstream stream(t.file, std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    MediaFileInfo info;
    info.reportSizeChanged(t.file.size());
    Container container(info, 0);
    container.setStream(stream);
    Diagnostics diag;
    auto junk = false;
    for (auto &s : t.e)
        if (s.junk)
            junk = true;
    try {
        Element root(container, 0);
        Explorer<Element> x{ c, t, root, diag, what };
        for (int i = 0; i < operations; ++i)
            x.operation(i || operations == 1, operations == 1 ? maxPath : 2);
        x.checkTree();
    } catch (const Failure &e) {
        c.fail("failure", "%s: failed: %s", what.c_str(), diagText(diag).c_str());
    } catch (const std::ios_base::failure &e) {
        c.fail("io", "%s: IO error", what.c_str());
    }
    if (!junk)
        for (auto &m : diag)
            if (m.level() >= DiagLevel::Warning)
                c.fail("diagnostics", "%s: %s", what.c_str(), m.message().c_str());
    c.check(stream.str() == t.file, "modified", "%s: file has been modified", what.c_str());
    c.state(vt::hashStr(what));
}
} // namespace

// reparsing after the file has been changed
template <class Element, class Container> void change(Ctx &c, Tree &t, std::initializer_list<std::uint32_t> leaves)
{
    std::stringstream stream(t.file, std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    MediaFileInfo info;
    info.reportSizeChanged(t.file.size());
    Container container(info, 0);
    container.setStream(stream);
    Diagnostics diag;
    Bytes what = describe(t);
    const auto n = static_cast<std::uint32_t>(t.e.size());
    const auto changed = static_cast<int>(c.choose(n, "changed element")), reparsed = static_cast<int>(c.choose(n, "reparsed element"));
    auto &s = t.e[static_cast<std::size_t>(changed)];
    auto affected = false; // whether the changed element is read again
    for (auto i = changed; i >= 0; i = t.e[static_cast<std::size_t>(i)].parentIndex) {
        const auto following = t.following(reparsed, true);
        if (std::find(following.begin(), following.end(), i) != following.end())
            affected = true;
    }
    if (s.parent || !affected)
        c.skip();
    auto id = s.id;
    for (auto l : leaves)
        if (l != s.id && ebml::idLen(l) == ebml::idLen(s.id))
            id = l;
    if (id == s.id)
        c.skip();
    what += fmt("; element %d changed to %x and element %d reparsed", changed, id, reparsed);
    try {
        Element root(container, 0);
        Explorer<Element> x{ c, t, root, diag, what };
        x.checkTree();
        s.id = id;
        s.padding = id == ebml::Void || id == cc("free") || id == cc("skip");
        t.file.replace(s.off + (std::is_same_v<Element, Mp4Atom> ? 4 : 0), s.idLen, BE(id, static_cast<int>(s.idLen)));
        stream.str(t.file);
        x.reach(reparsed).reparse(diag);
        x.checkTree();
    } catch (const Failure &e) {
        c.fail("failure", "%s: failed: %s", what.c_str(), diagText(diag).c_str());
    }
    c.step();
    c.state(vt::hashStr(what));
}
VT_SUITE(ebmlChanges, 20)
{
    Tree t;
    shape(c, t, vt::thorough() ? 5 : 4);
    buildEbml(c, t, false);
    change<EbmlElement, MatroskaContainer>(c, t, { ebml::Void, ebml::TrackNumber, ebml::Name, ebml::TrackUID, ebml::DefaultDuration, ebml::TimecodeScale });
}
VT_SUITE(mp4Changes, 24)
{
    Tree t;
    shape(c, t, vt::thorough() ? 5 : 4);
    buildMp4(c, t, false);
    change<Mp4Atom, Mp4Container>(c, t, { cc("free"), cc("tkhd") });
}
// single operations
VT_SUITE(ebmlTrees, 20)
{
    Tree t;
    shape(c, t, vt::thorough() ? 5 : 4);
    buildEbml(c, t, true);
    explore<EbmlElement, MatroskaContainer>(c, t, 1);
}
VT_SUITE(mp4Trees, 24)
{
    Tree t;
    shape(c, t, vt::thorough() ? 5 : 4);
    buildMp4(c, t, true);
    explore<Mp4Atom, Mp4Container>(c, t, 1);
}
// sequences of operations
VT_SUITE(ebmlSequences, 20)
{
    Tree t;
    shape(c, t, vt::thorough() ? 4 : 3);
    buildEbml(c, t, false);
    explore<EbmlElement, MatroskaContainer>(c, t, 2);
}
VT_SUITE(mp4Sequences, 24)
{
    Tree t;
    shape(c, t, vt::thorough() ? 4 : 3);
    buildMp4(c, t, false);
    explore<Mp4Atom, Mp4Container>(c, t, 2);
}
// elements of unknown size: the segment and clusters within it
VT_SUITE(ebmlUnknown, 3 * 3 + 3)
{
    const std::size_t segSize = c.top < 9 ? c.top % 3 : 1 + c.top % 2, clusterLen = c.top / 3 % 3, segments = c.top / 9 + 1; // a segment of unknown size is the last element
    const auto unknownSegment = [&](unsigned n) { return segSize != 0 && n + 1 == segments; };
    Tree t;
    const auto add = [&](std::uint32_t id, int parent, std::size_t data, std::uint64_t sizeLen, bool unknown) {
        Spec s;
        s.id = id;
        s.idLen = static_cast<std::uint64_t>(ebml::idLen(id));
        s.parentIndex = parent;
        s.level = parent < 0 ? 0 : t.e[static_cast<std::size_t>(parent)].level + 1;
        s.sizeLen = sizeLen;
        s.data = data;
        s.untilEnd = unknown;
        s.padding = id == ebml::Void;
        const auto index = static_cast<int>(t.e.size());
        if (parent < 0)
            t.top.emplace_back(index);
        else {
            t.e[static_cast<std::size_t>(parent)].kids.emplace_back(index);
            t.e[static_cast<std::size_t>(parent)].parent = true;
        }
        t.e.emplace_back(s);
        return index;
    };
    add(ebml::EBML, -1, 0, 1, false);
    add(ebml::DocType, 0, 4, 1, false);
    static const std::uint64_t lens[] = { 8, 1, 8 };
    for (unsigned n = 0; n < segments; ++n) {
        const auto unknown = unknownSegment(n);
        const auto seg = add(ebml::Segment, -1, 0, unknown ? lens[segSize] : 8, unknown);
        const auto count = n ? 1 : c.choose(vt::thorough() ? 4 : 3, "elements");
        auto previousUnknown = false;
        for (unsigned i = 0; i < count; ++i) {
            switch (c.choose(previousUnknown ? 4 : 5, "kind")) {
            case 0: {
                const auto cluster = add(ebml::Cluster, seg, 0, lens[clusterLen], previousUnknown = true);
                static const std::uint32_t kids[] = { ebml::Timecode, ebml::SimpleBlock, ebml::BlockGroup };
                const auto k = c.choose(4, "children");
                for (unsigned j = 0; j < k; ++j) {
                    const auto kid = add(kids[j], cluster, j == 2 ? 0 : 1 + j * 130, j == 1 ? 2 : 1, false);
                    if (j == 2)
                        add(ebml::Block, kid, 5, 1, false);
                }
                break;
            }
            case 1:
                add(ebml::Timecode, add(ebml::Cluster, seg, 0, 4, previousUnknown = false), 2, 1, false);
                break;
            case 2:
                add(ebml::CueTime, add(ebml::CuePoint, add(ebml::Cues, seg, 0, 1, previousUnknown = false), 0, 1, false), 1, 1, false);
                break;
            case 3:
                add(ebml::Tags, seg, 0, 1, previousUnknown = false); // empty
                break;
            default:
                add(ebml::Void, seg, 9, 1, false);
            }
        }
    }
    const std::function<Bytes(int)> make = [&](int i) {
        const auto off = t.file.size();
        auto &s = t.e[static_cast<std::size_t>(i)];
        s.off = off;
        const std::function<std::size_t(int)> measure = [&](int n) -> std::size_t {
            auto &m = t.e[static_cast<std::size_t>(n)];
            std::size_t content = m.data;
            for (auto k : m.kids)
                content += measure(k);
            return m.total = m.idLen + m.sizeLen + content;
        };
        measure(i);
        t.file += ebml::id(s.id) + (s.untilEnd ? BE((1ull << (7 * s.sizeLen + 1)) - 1, static_cast<int>(s.sizeLen)) : ebml::size(s.total - s.header(), static_cast<int>(s.sizeLen)));
        t.file += s.kids.empty() ? filler(s.data, static_cast<unsigned>(i)) : Bytes();
        for (auto k : s.kids)
            make(k);
        return Bytes();
    };
    for (auto i : t.top)
        make(i);
    explore<EbmlElement, MatroskaContainer>(c, t, 1, 2);
}
