// P27: navigating an Ogg stream reaches exactly its segments and bytes.
// Explicit-state exploration: all states reachable by any sequence of the iterator's operations (no depth limit).
#include "common.h"
#include "oggfile.h"

#include <tagparser/exceptions.h>
#include <tagparser/ogg/oggiterator.h>

#include <deque>
#include <sstream>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P27";
const char *vt::rule = "explicit-state search: files made of every combination of page shapes (segment sizes, empty pages, unconcluded segments, serial numbers, junk, truncation) x all states of the "
                       "real iterator which are reachable by ANY sequence of operations (reset, next/previous page/segment, filters, positioning, reading, skipping, resynchronising, clearing); each "
                       "transition is compared with a model of the stream; states = distinct states of model and iterator";
const char *vt::assumptions = "operations documented to require a valid iterator are only invoked on valid ones|if there is no previous page/segment the iterator either stays where it is or becomes invalid";

namespace {
struct RealPage {
    std::uint64_t start = 0, end = 0, data = 0;
    std::uint32_t serial = 0;
    std::vector<std::uint32_t> sizes; // segments (pieces of packets)
};
struct File {
    Bytes bytes;
    std::uint64_t startOffset = 0;
    std::vector<RealPage> pages; // complete pages behind the start offset
    std::uint64_t truncatedAt = ~0ull; // start of an incomplete page
    Bytes description;
};
struct Model {
    std::vector<int> fetched;
    std::size_t page = 0, seg = 0;
    std::uint64_t read = 0;
    int filter = -1;

    const RealPage &p(const File &f) const
    {
        return f.pages[static_cast<std::size_t>(fetched[page])];
    }
    bool valid(const File &f) const
    {
        return page < fetched.size() && seg < p(f).sizes.size();
    }
    std::uint64_t nextOffset(const File &f) const
    {
        return fetched.empty() ? f.startOffset : f.pages[static_cast<std::size_t>(fetched.back())].end;
    }
    std::uint64_t segOffset(const File &f) const
    {
        auto &r = p(f);
        return std::accumulate(r.sizes.begin(), r.sizes.begin() + static_cast<std::ptrdiff_t>(seg), r.data);
    }
    bool matches(const File &f) const
    {
        return filter < 0 || p(f).serial == static_cast<std::uint32_t>(filter);
    }
};
enum class Err { None, Truncated, Invalid };
Err fetch(const File &f, Model &m, bool &ok)
{
    const auto at = m.nextOffset(f);
    ok = false;
    if (at >= f.bytes.size())
        return Err::None;
    for (std::size_t i = 0; i < f.pages.size(); ++i)
        if (f.pages[i].start == at) {
            m.fetched.push_back(static_cast<int>(i));
            ok = true;
            return Err::None;
        }
    return f.truncatedAt == at || f.bytes.size() - at < 27 ? Err::Truncated : Err::Invalid;
}
Err seekForward(const File &f, Model &m) // to the first suitable page at or behind m.page
{
    for (;; ++m.page) {
        if (m.page >= m.fetched.size()) {
            bool ok;
            if (const auto e = fetch(f, m, ok); e != Err::None)
                return e;
            if (!ok)
                return Err::None;
        }
        if (!m.p(f).sizes.empty() && m.matches(f)) {
            m.seg = 0;
            m.read = 0;
            return Err::None;
        }
    }
}
Err nextSegment(const File &f, Model &m)
{
    if (m.matches(f) && m.seg + 1 < m.p(f).sizes.size()) {
        ++m.seg;
        m.read = 0;
        return Err::None;
    }
    ++m.page;
    return seekForward(f, m);
}
// reads or skips; returns the bytes
Err consume(const File &f, Model &m, std::uint64_t count, Bytes &out, bool all)
{
    while (m.valid(f) && (count || !all)) {
        const auto avail = m.p(f).sizes[m.seg] - m.read;
        const auto n = std::min<std::uint64_t>(avail, count);
        out += f.bytes.substr(m.segOffset(f) + m.read, n);
        if (count <= avail) {
            m.read += count;
            return Err::None;
        }
        if (const auto e = nextSegment(f, m); e != Err::None)
            return e;
        count -= n;
    }
    return !all && count ? Err::Truncated : Err::None;
}
struct Node {
    OggIterator it;
    Model m;
    std::size_t parent;
    const char *op;
};
struct Shape {
    std::uint32_t serial;
    std::vector<unsigned char> lacing;
};
void add(File &f, const Shape &s, std::uint32_t seq)
{
    ogg::Page p;
    p.serial = s.serial;
    p.sequence = seq;
    p.lacing = s.lacing;
    std::size_t n = 0;
    RealPage r;
    bool open = false;
    for (auto l : s.lacing) {
        n += l;
        if (!open)
            r.sizes.push_back(0);
        r.sizes.back() += l;
        open = l == 255;
    }
    p.data = filler(n, 7 * seq + s.serial);
    r.start = f.bytes.size();
    f.bytes += ogg::str(p);
    r.end = f.bytes.size();
    r.data = r.end - n;
    r.serial = s.serial;
    f.description += ogg::describe(p);
    f.pages.push_back(r);
}
void explore(vt::Ctx &c, const File &f)
{
    c.log("%s%s", f.description.c_str(), f.startOffset ? fmt(" start offset %zu", static_cast<std::size_t>(f.startOffset)).c_str() : "");
    std::stringstream stream(f.bytes, std::ios_base::in | std::ios_base::binary);
    stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    std::deque<Node> nodes;
    std::unordered_set<std::string> seen;
    nodes.push_back({ OggIterator(stream, f.startOffset, f.bytes.size()), Model(), ~std::size_t(0), "construct" });
    const auto history = [&](std::size_t i, const char *op) {
        Bytes h = op;
        for (; i != ~std::size_t(0); i = nodes[i].parent)
            h = Bytes(nodes[i].op) + ", " + h;
        return h;
    };
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        if (nodes.size() > (vt::thorough() ? 400000u : 60000u))
            c.fail("bound", "more states than expected (%zu)", nodes.size());
        // each operation: applied to the model and the iterator
        const auto transition = [&](const char *op, auto &&modelOp, auto &&realOp, bool mayStay = false) {
            auto m = nodes[i].m;
            auto it = nodes[i].it;
            const auto before = nodes[i].m;
            Bytes wanted, got;
            const Err expected = modelOp(m, wanted);
            Err actual = Err::None;
            try {
                realOp(it, got);
            } catch (const TruncatedDataException &) {
                actual = Err::Truncated;
            } catch (const InvalidDataException &) {
                actual = Err::Invalid;
            }
            c.step();
            const auto h = [&] { return history(i, op); };
            c.check(expected == actual, "exception", "after %s: outcome is %d instead of %d (0 = no exception, 1 = truncated, 2 = invalid data)", h().c_str(), static_cast<int>(actual),
                static_cast<int>(expected));
            if (expected != Err::None)
                m.page = std::max(m.page, m.fetched.size()); // invalid
            if (mayStay && !m.valid(f) && it)
                m = before; // no previous one: either invalid or still where it was
            if (expected == Err::None)
                c.check(wanted == got, "data", "after %s: %s has been read instead of %s", h().c_str(), vt::quote(got).c_str(), vt::quote(wanted).c_str());
            c.check(it.pages().size() == m.fetched.size(), "pages", "after %s: %zu pages fetched instead of %zu", h().c_str(), it.pages().size(), m.fetched.size());
            c.check(static_cast<bool>(it) == m.valid(f), "valid", "after %s: iterator is %s", h().c_str(), it ? "valid" : "invalid");
            c.check(it.isLastPageFetched() == (m.nextOffset(f) >= f.bytes.size()), "last", "after %s: isLastPageFetched() is wrong", h().c_str());
            if (m.valid(f)) {
                auto &p = m.p(f);
                c.check(it.currentPageIndex() == m.page && it.currentSegmentIndex() == m.seg && it.bytesReadFromCurrentSegment() == m.read, "position",
                    "after %s: at page %zu, segment %zu, byte %llu instead of page %zu, segment %zu, byte %llu", h().c_str(), it.currentPageIndex(), it.currentSegmentIndex(),
                    (unsigned long long)it.bytesReadFromCurrentSegment(), m.page, m.seg, (unsigned long long)m.read);
                c.check(it.currentSegmentOffset() == m.segOffset(f) && it.currentCharacterOffset() == m.segOffset(f) + m.read && it.tellg() == m.segOffset(f) + m.read, "offset",
                    "after %s: segment offset is %llu instead of %llu", h().c_str(), (unsigned long long)it.currentSegmentOffset(), (unsigned long long)m.segOffset(f));
                c.check(it.currentPageOffset() == p.start && it.currentPage().startOffset() == p.start && it.currentPage().streamSerialNumber() == p.serial
                        && it.currentPage().totalSize() == p.end - p.start && it.currentPage().segmentSizes() == p.sizes,
                    "page", "after %s: wrong page", h().c_str());
                c.check(it.currentSegmentSize() == p.sizes[m.seg] && it.remainingBytesInCurrentSegment() == p.sizes[m.seg] - m.read, "size", "after %s: size of segment is %u instead of %u", h().c_str(),
                    it.currentSegmentSize(), p.sizes[m.seg]);
                const auto left = f.bytes.size() - m.segOffset(f) - m.read;
                c.check(it.bytesRemaining(left) && !it.bytesRemaining(left + 1), "remaining", "after %s: bytesRemaining() is wrong", h().c_str());
            }
            Bytes key = fmt("%d %d %zu %zu %llu %d|%zu %zu %llu %llu %zu", m.valid(f), m.filter, m.valid(f) ? m.page : 0, m.valid(f) ? m.seg : 0, (unsigned long long)(m.valid(f) ? m.read : 0),
                it ? 1 : 0, it ? it.currentPageIndex() : 0, it ? it.currentSegmentIndex() : 0, (unsigned long long)(it ? it.currentSegmentOffset() : 0),
                (unsigned long long)(it ? it.bytesReadFromCurrentSegment() : 0), it.pages().size());
            for (auto x : m.fetched)
                key += fmt(" %d", x);
            if (seen.insert(key).second) {
                c.state(vt::hashStr(key, vt::hashStr(f.bytes)));
                nodes.push_back({ std::move(it), std::move(m), i, op });
            }
        };
        const auto valid = nodes[i].m.valid(f);
        transition("reset", [&](Model &m, Bytes &) { m.page = 0; return seekForward(f, m); }, [](OggIterator &it, Bytes &) { it.reset(); });
        transition("clear", [&](Model &m, Bytes &) { m.fetched.clear(); m.page = 0; return Err::None; },
            [&](OggIterator &it, Bytes &) { it.clear(stream, f.startOffset, f.bytes.size()); });
        for (const int id : { 1, 2, 9 })
            transition(id == 1 ? "filter 1" : id == 2 ? "filter 2" : "filter 9", [&](Model &m, Bytes &) { m.filter = id; return Err::None; },
                [&](OggIterator &it, Bytes &) { it.setFilter(static_cast<std::uint32_t>(id)); });
        transition("remove filter", [&](Model &m, Bytes &) { m.filter = -1; return Err::None; }, [&](OggIterator &it, Bytes &) { it.removeFilter(); });
        // small reads anywhere in small segments but only at the boundaries of big ones
        const auto size = valid ? nodes[i].m.p(f).sizes[nodes[i].m.seg] : 0;
        const auto boundary = nodes[i].m.read == 0 || size <= 16 || size - nodes[i].m.read <= 8;
        for (const std::uint64_t n : { std::uint64_t(1), std::uint64_t(4), std::uint64_t(300), std::uint64_t(size < 250 ? 0 : size - 5) }) {
            if (!boundary || !n || (n > 300 && nodes[i].m.read))
                continue;
            transition(n == 1 ? "read 1" : n == 4 ? "read 4" : n == 300 ? "read 300" : "read until shortly before the end", [&](Model &m, Bytes &out) { return consume(f, m, n, out, false); },
                [&](OggIterator &it, Bytes &out) {
                    out.resize(n);
                    stream.seekg(0);
                    it.read(out.data(), n);
                });
        }
        if (boundary)
            transition("readAll 7", [&](Model &m, Bytes &out) { return consume(f, m, 7, out, true); },
            [&](OggIterator &it, Bytes &out) {
                out.resize(7);
                stream.seekg(0);
                out.resize(it.readAll(out.data(), 7));
            });
        if (boundary)
            transition("ignore 3", [&](Model &m, Bytes &) { Bytes x; return m.valid(f) ? consume(f, m, 3, x, false) : Err::Truncated; }, [&](OggIterator &it, Bytes &) { it.ignore(3); });
        for (const std::uint64_t extra : { 0, 5 }) {
            if (nodes[i].m.nextOffset(f) + extra > f.bytes.size())
                continue;
            const auto at = nodes[i].m.nextOffset(f) + extra;
            transition(extra ? "resync +5" : "resync",
                [&](Model &m, Bytes &out) {
                    for (std::size_t k = 0; k < f.pages.size(); ++k)
                        if (f.pages[k].start >= at) {
                            if (f.pages[k].start - at > 65307 - 4)
                                break;
                            m.fetched.push_back(static_cast<int>(k));
                            m.page = m.fetched.size() - 1;
                            m.seg = 0;
                            m.read = 0;
                            out = "found";
                            return Err::None;
                        }
                    return Err::None;
                },
                [&](OggIterator &it, Bytes &out) {
                    if (it.resyncAt(at))
                        out = "found";
                });
        }
        for (std::size_t k = 0; k < nodes[i].m.fetched.size(); ++k) {
            static const char *const names[] = { "page 0", "page 1", "page 2", "page 3", "page 4", "page 5", "page 6", "page 7" };
            transition(names[k], [&](Model &m, Bytes &) { m.page = k; m.seg = 0; m.read = 0; return Err::None; }, [&](OggIterator &it, Bytes &) { it.setPageIndex(k); });
        }
        // not documented to be allowed on invalid iterators but explicitly handled: moving on at the end
        if (!valid)
            continue;
        transition("next page", [&](Model &m, Bytes &) { ++m.page; return seekForward(f, m); }, [](OggIterator &it, Bytes &) { it.nextPage(); });
        transition("next segment", [&](Model &m, Bytes &) { return nextSegment(f, m); }, [](OggIterator &it, Bytes &) { ++it; });
        const auto previousPage = [&](Model &m) {
            for (auto k = m.page; k--;) {
                m.page = k;
                if (!m.p(f).sizes.empty() && m.matches(f)) {
                    m.seg = m.p(f).sizes.size() - 1;
                    m.read = 0;
                    return Err::None;
                }
            }
            m.page = m.fetched.size(); // invalid
            return Err::None;
        };
        transition("previous page", [&](Model &m, Bytes &) { return previousPage(m); }, [](OggIterator &it, Bytes &) { it.previousPage(); }, true);
        transition("previous segment",
            [&](Model &m, Bytes &) {
                if (m.seg && m.matches(f)) {
                    --m.seg;
                    m.read = 0;
                    return Err::None;
                }
                return previousPage(m);
            },
            [](OggIterator &it, Bytes &) { --it; }, true);
        for (std::size_t k = 0; k < nodes[i].m.p(f).sizes.size(); k += std::max<std::size_t>(1, nodes[i].m.p(f).sizes.size() - 1))
            transition(k ? "last segment" : "first segment", [&](Model &m, Bytes &) { m.seg = k; m.read = 0; return Err::None; },
                [&](OggIterator &it, Bytes &) { it.setSegmentIndex(k); });
    }
}
const Shape shapes[] = {
    { 1, { 5 } },
    { 1, { 3, 0, 4 } },
    { 2, { 2, 1 } },
    { 1, {} },
    { 2, {} },
    { 1, { 255, 3 } },
    { 2, { 1, 255 } },
    { 1, { 255, 255 } },
    { 1, { 0 } },
    { 3, { 4 } },
};
constexpr std::size_t nShapes = std::size(shapes);
} // namespace

// every sequence of up to three (four) pages
VT_SUITE(pages, nShapes * nShapes)
{
    File f;
    const auto prefix = (c.top % nShapes < (vt::thorough() ? nShapes : 3) && c.flip("prefix"));
    if (prefix) {
        f.bytes = Bytes("some prefix");
        f.startOffset = f.bytes.size();
    }
    add(f, shapes[c.top / nShapes], 0);
    add(f, shapes[c.top % nShapes], 1);
    for (std::uint32_t n = 2; n < (vt::thorough() ? 4u : prefix ? 2u : 3u); ++n)
        if (const auto k = c.choose(vt::thorough() && n == 2 ? nShapes + 1 : 4, "page"))
            add(f, shapes[k - 1], n);
        else
            break;
    explore(c, f);
}
// junk and truncation
VT_SUITE(damaged, nShapes)
{
    static const char *const junk[] = { "", "O", "Ogg", "OggOggx", "junk junk junk junk junk junk junk", "OgggS OOggg" };
    File f;
    add(f, shapes[c.top], 0);
    f.bytes += c.pick(junk, "junk");
    add(f, shapes[c.choose(vt::thorough() ? nShapes : 4, "second")], 1);
    f.bytes += c.pick(junk, "junk");
    const auto size = f.bytes.size();
    add(f, shapes[c.choose(vt::thorough() ? 3 : 2, "third")], 2);
    switch (c.choose(4, "truncation")) {
    case 1:
        f.bytes.resize(f.bytes.size() - 1);
        f.truncatedAt = f.pages.back().start;
        f.pages.pop_back();
        break;
    case 2:
        f.bytes.resize(size + 27);
        f.truncatedAt = f.pages.back().start;
        f.pages.pop_back();
        break;
    case 3:
        f.bytes.resize(size + 10);
        f.truncatedAt = f.pages.back().start;
        f.pages.pop_back();
        break;
    default:;
    }
    f.description += fmt(" (%zu bytes)", f.bytes.size());
    explore(c, f);
}
// pages of the maximum size
VT_SUITE(big, 1)
{
    File f;
    add(f, { 1, std::vector<unsigned char>(255, 255) }, 0);
    add(f, { 2, std::vector<unsigned char>(vt::thorough() ? 255 : 20, 0) }, 1);
    add(f, { 1, { 255, 255, 0, 9 } }, 2);
    explore(c, f);
}
