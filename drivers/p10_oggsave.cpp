// P10: saving an Ogg file keeps every logical stream's packets intact.
#include "oggfile.h"
#include "save.h"

#include <tagparser/ogg/oggcontainer.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/vorbis/vorbiscommentfield.h>

using namespace ref;

const char *vt::property = "P10";
const char *vt::rule = "every combination of stream kind x comment size before and after around the limits of a lacing value, a page and several pages x sizes of the neighbouring packets x paging "
                       "policy; every interleaving of the header pages of two or three streams x edits; chained and unusual files; histories of two edits; the saved bytes are decoded by an "
                       "independent Ogg decoder checking every page; states = distinct saved files";
const char *vt::assumptions = "header packets have granule position 0 as the mappings demand|a logical stream which lacks its eos flag may get one|data which is not part of any Ogg page is not preserved";

namespace {
struct Tagged {
    ogg::Stream stream;
    ogg::Paging paging;
    bool hasComment = true; // as the second packet
    Bytes vendor = "v";
    vorbis::Entries entries;
    bool removed = false, gone = false; // whether the comment is to be removed/has been removed by saving
    std::size_t garbage = 0; // zero bytes behind the comment within the packet
};
Bytes commentOf(const Tagged &t)
{
    return ogg::commentPacket(t.stream.kind, t.vendor, t.entries, t.stream.headers == 2);
}
// creates a title so that the comment packet has exactly the specified size (if possible)
void sizeComment(Tagged &t, std::size_t packetSize)
{
    t.entries = { { "TITLE", "" } };
    const auto n = commentOf(t).size();
    t.entries[0].second = Bytes(packetSize > n ? packetSize - n : 0, 'x');
}
std::size_t titleFor(const Tagged &t, std::size_t packetSize)
{
    Tagged u = t;
    u.entries = { { "TITLE", "" } };
    const auto n = commentOf(u).size();
    return packetSize > n ? packetSize - n : 0;
}
Tagged make(int kind, std::uint32_t serial, std::size_t commentSize, std::size_t setupSize, const std::vector<std::size_t> &audio)
{
    Tagged t;
    t.stream.kind = kind;
    t.stream.serial = serial;
    t.stream.packets.push_back({ ogg::identification(kind), 0 });
    t.hasComment = kind == ogg::Vorbis || kind == ogg::Opus || kind == ogg::Flac;
    if (t.hasComment) {
        t.stream.headers = setupSize != ~std::size_t(0) ? 3 : 2;
        sizeComment(t, commentSize);
        t.stream.packets.push_back({ commentOf(t), 0 });
        if (setupSize != ~std::size_t(0)) {
            Bytes setup = kind == ogg::Vorbis ? "\x05vorbis" + filler(setupSize, 5) : kind == ogg::Flac ? flac::block({ flac::SeekTable, filler(setupSize, 5) }, true) : filler(setupSize, 5);
            setup.resize(std::max<std::size_t>(setupSize, 4));
            t.stream.packets.push_back({ setup, 0 });
        }
    } else
        t.stream.headers = 1;
    ogg::Granule g = 0;
    for (std::size_t i = 0; i < audio.size(); ++i)
        t.stream.packets.push_back({ filler(audio[i], 100 * serial + 10 + static_cast<unsigned>(i)), g += 960 });
    return t;
}
Bytes file(const std::vector<ogg::Page> &ps)
{
    Bytes b;
    for (auto &p : ps)
        b += ogg::str(p);
    return b;
}
// compares a saved file with what is expected
void verify(Ctx &c, const Bytes &b, const std::vector<Tagged> &ts, const Bytes &ctx)
{
    std::vector<ogg::Page> ps;
    std::vector<ogg::Logical> ls;
    ps = ogg::pages(c, b);
    ls = ogg::logical(c, ps);
    const auto d = ogg::describe(ps) + "; " + ctx;
    c.check(ls.size() == ts.size(), "streams", "%zu logical streams instead of %zu: %s", ls.size(), ts.size(), d.c_str());
    for (std::size_t i = 0; i < ts.size(); ++i) {
        auto &l = ls[i];
        auto &t = ts[i];
        c.check(l.serial == t.stream.serial, "streams", "stream %zu has serial number %u: %s", i, l.serial, d.c_str());
        c.check(l.firstSequence == t.stream.firstSequence, "sequence", "stream %zu starts with page %u: %s", i, l.firstSequence, d.c_str());
        c.check(!l.unfinished, "packets", "last packet of stream %zu is not finished: %s", i, d.c_str());
        c.check(l.eos || !t.stream.eos, "eos", "stream %zu lacks eos: %s", i, d.c_str());
        c.check(l.emptyPages >= t.paging.emptyPageAfter.size(), "empty", "%zu empty pages instead of %zu: %s", l.emptyPages, t.paging.emptyPageAfter.size(), d.c_str());
        const auto comment = t.hasComment && !t.removed;
        auto expected = t.stream.packets;
        if (t.hasComment && t.removed)
            expected.erase(expected.begin() + 1);
        c.check(l.packets.size() == expected.size(), "packets", "stream %zu has %zu packets instead of %zu: %s", i, l.packets.size(), expected.size(), d.c_str());
        for (std::size_t k = 0; k < expected.size(); ++k) {
            const auto &p = l.packets[k];
            if (p.granule != ogg::none)
                c.check(p.granule == expected[k].granule, "granule", "granule position of packet %zu of stream %zu is %llu instead of %llu: %s", k, i, (unsigned long long)p.granule,
                    (unsigned long long)expected[k].granule, d.c_str());
            if (k != 1 || !comment) {
                c.check(p.data == expected[k].data, "packets", "packet %zu of stream %zu (%zu instead of %zu bytes) differs at %zu: %s", k, i, p.data.size(), expected[k].data.size(),
                    firstDiff(p.data, expected[k].data), d.c_str());
                continue;
            }
            Bytes body = p.data;
            const auto prefix = commentOf(t).substr(0, t.stream.kind == ogg::Vorbis ? 7 : t.stream.kind == ogg::Opus ? 8 : 1);
            c.check(body.compare(0, prefix.size(), prefix) == 0, "comment", "comment packet of stream %zu starts with %s: %s", i, hex(body, 16).c_str(), d.c_str());
            body.erase(0, prefix.size());
            if (t.stream.kind == ogg::Flac) {
                c.check(rdBE(body, 0, 3) + 3 == body.size(), "comment", "metadata block of %llu bytes within packet of %zu bytes: %s", (unsigned long long)rdBE(body, 0, 3), body.size() + 1, d.c_str());
                body.erase(0, 3);
            }
            std::size_t used = 0;
            const auto [vendor, entries] = vorbis::decode(c, body, &used);
            auto e = t.entries;
            std::stable_sort(e.begin(), e.end(), [](auto &x, auto &y) { return x.first < y.first; });
            c.check(vendor == t.vendor && entries == e, "comment", "comment of stream %zu (%zu entries, vendor %s) is not the requested one: %s", i, entries.size(), quote(vendor).c_str(), d.c_str());
            if (t.stream.kind == ogg::Vorbis) {
                c.check(used < body.size() && body[used] == 1, "comment", "framing bit missing: %s", d.c_str());
                ++used;
            }
            c.check(body.find_first_not_of('\0', used) == Bytes::npos, "comment", "data behind the comment: %s", d.c_str());
        }
    }
}
void verifyRead(Ctx &c, Session &s, const std::vector<Tagged> &ts, const Bytes &ctx)
{
    c.check(s.file.tracks().size() == ts.size(), "read", "%zu tracks instead of %zu; %s; %s", s.file.tracks().size(), ts.size(), ctx.c_str(), diagText(s.diag).c_str());
    const auto tags = s.file.tags();
    std::size_t expected = 0;
    for (auto &t : ts) {
        if (!t.hasComment || t.removed)
            continue;
        ++expected;
        std::size_t found = 0;
        for (auto *tag : tags) {
            if (tag->target().tracks().empty() || tag->target().tracks().front() != t.stream.serial)
                continue;
            ++found;
            auto *vc = static_cast<VorbisComment *>(tag);
            vorbis::Entries e, w = t.entries;
            for (auto &[id, f] : vc->fields())
                e.emplace_back(id, valueUtf8(f.value()));
            std::stable_sort(w.begin(), w.end(), [](auto &x, auto &y) { return x.first < y.first; });
            c.check(e == w && valueUtf8(vc->vendor()) == t.vendor, "read", "comment of stream %u not read correctly (%zu fields instead of %zu; vendor %s); %s; %s", t.stream.serial, e.size(),
                w.size(), quote(valueUtf8(vc->vendor())).c_str(), ctx.c_str(), diagText(s.diag).c_str());
        }
        c.check(found == 1, "read", "%zu comments for stream %u; %s; %s", found, t.stream.serial, ctx.c_str(), diagText(s.diag).c_str());
    }
    c.check(tags.size() == expected, "read", "%zu tags instead of %zu; %s", tags.size(), expected, ctx.c_str());
}
VorbisComment *tagOf(Ctx &c, Session &s, std::uint32_t serial)
{
    for (auto *t : s.file.tags())
        if (!t->target().tracks().empty() && t->target().tracks().front() == serial)
            return static_cast<VorbisComment *>(t);
    c.fail("read", "no comment for stream %u", serial);
    return nullptr;
}
enum EditKind { Keep, Title, Clear, Remove, Multi };
struct Edit {
    EditKind kind = Keep;
    std::size_t size = 0; // size of the title
};
Bytes str(const Edit &e)
{
    static const char *n[] = { "keep", "title", "clear", "remove", "multi" };
    return fmt("%s(%zu)", n[e.kind], e.size);
}
void apply(Ctx &c, Session &s, Tagged &t, const Edit &e)
{
    if (t.gone && e.kind != Keep && e.kind != Remove) { // the comment has been removed when saving before
        TagTarget target;
        target.tracks().push_back(t.stream.serial);
        auto *tag = s.file.container()->createTag(target);
        c.check((tag != nullptr) == (t.stream.kind != ogg::Flac), "create", "comment %screated", tag ? "" : "not ");
        if (!tag)
            return;
        t.stream.packets.insert(t.stream.packets.begin() + 1, ogg::Packet());
        t.vendor.clear();
        t.hasComment = true;
        t.gone = t.removed = false;
    }
    if (!t.hasComment)
        return;
    if (e.kind != Keep && t.removed) {
        TagTarget target;
        target.tracks().push_back(t.stream.serial);
        if (e.kind == Remove)
            return;
        auto *tag = s.file.container()->createTag(target);
        c.check(tag, "create", "unable to create comment again");
        t.removed = false;
    }
    switch (e.kind) {
    case Keep:
        break;
    case Title: {
        const Bytes v = Bytes(e.size, 'n');
        tagOf(c, s, t.stream.serial)->setValue(KnownField::Title, text(v));
        t.entries.erase(std::remove_if(t.entries.begin(), t.entries.end(), [](auto &x) { return x.first == "TITLE"; }), t.entries.end());
        if (!v.empty())
            t.entries.emplace_back("TITLE", v);
        break;
    }
    case Clear:
        tagOf(c, s, t.stream.serial)->removeAllFields();
        t.entries.clear();
        break;
    case Remove:
        s.file.container()->removeTag(tagOf(c, s, t.stream.serial));
        t.removed = true;
        t.entries.clear();
        break;
    case Multi:
        tagOf(c, s, t.stream.serial)->setValues(KnownField::Artist, { text(Bytes(e.size, 'a')), text(Bytes(e.size, 'b')) });
        t.entries.erase(std::remove_if(t.entries.begin(), t.entries.end(), [](auto &x) { return x.first == "ARTIST"; }), t.entries.end());
        t.entries.emplace_back("ARTIST", Bytes(e.size, 'a'));
        t.entries.emplace_back("ARTIST", Bytes(e.size, 'b'));
        break;
    }
}
struct Step {
    std::vector<Edit> edits; // per stream
    bool reopen = false;
};
void run(Ctx &c, const std::vector<ogg::Page> &ps, std::vector<Tagged> ts, const std::vector<Step> &steps, const Layout &l, const Bytes &more, bool criticalAllowed = false, const Bytes &raw = Bytes())
{
    const auto path = c.file("a.ogg"), other = c.file("b.ogg");
    vt::removeAllIn(c.scratch());
    Bytes cur = raw.empty() ? file(ps) : raw, curPath = path;
    vt::writeFile(path, cur);
    Bytes ctx = "was " + ogg::describe(ps) + " " + ref::str(l) + " edits ";
    for (auto &s : steps)
        for (auto &e : s.edits)
            ctx += ::str(e) + (&e == &s.edits.back() ? "; " : " ");
    ctx += more;
    auto s = std::make_unique<Session>(path);
    for (auto &step : steps) {
        const auto first = &step == &steps.front();
        if (step.reopen)
            s = std::make_unique<Session>(curPath);
        s->diag.clear();
        s->parse();
        const auto name = first ? " before first step" : " before second step";
        verifyRead(c, *s, ts, ctx + name);
        applyLayout(s->file, l);
        if (l.saveAs && first)
            s->file.setSaveFilePath(other);
        for (std::size_t i = 0; i < ts.size(); ++i)
            apply(c, *s, ts[i], step.edits[i % step.edits.size()]);
        Bytes what;
        c.check(save(c, *s, &what), "exception", "saving failed: %s; %s; %s", what.c_str(), ctx.c_str(), diagText(s->diag).c_str());
        for (auto &t : ts) // the library complains (rightly) if a FLAC stream has no comment
            criticalAllowed = criticalAllowed || (t.stream.kind == ogg::Flac && t.stream.packets.size() > 1 && (t.removed || !t.hasComment));
        c.check(criticalAllowed || !hasLevel(s->diag, DiagLevel::Critical), "diag", "%s; %s", diagText(s->diag).c_str(), ctx.c_str());
        if (l.saveAs && first) {
            c.check(vt::readFile(path) == cur, "save-as", "the original file has been altered; %s", ctx.c_str());
            curPath = other;
        }
        cur = vt::readFile(curPath);
        c.state(vt::hashStr(cur));
        for (auto &t : ts)
            if (t.hasComment && !t.removed)
                t.stream.packets[1].data = commentOf(t);
        verify(c, cur, ts, ctx + (first ? " after first step" : " after second step"));
        for (auto &t : ts)
            if (t.removed && t.hasComment) { // there is no comment from now on
                t.hasComment = false;
                t.gone = true;
                t.stream.packets.erase(t.stream.packets.begin() + 1);
            }
    }
    Session again(curPath);
    again.parse(true);
    verifyRead(c, again, ts, ctx + " finally");
}
std::vector<ogg::Page> interleave(std::vector<std::vector<ogg::Page>> ps, const std::function<std::size_t(const std::vector<std::size_t> &)> &choose)
{
    std::vector<ogg::Page> r;
    std::vector<std::size_t> pos(ps.size());
    for (std::size_t i = 0; i < ps.size(); ++i)
        r.push_back(ps[i][pos[i]++]);
    for (;;) {
        std::vector<std::size_t> open;
        for (std::size_t i = 0; i < ps.size(); ++i)
            if (pos[i] < ps[i].size())
                open.push_back(i);
        if (open.empty())
            return r;
        const auto i = open[open.size() > 1 ? choose(open) : 0];
        r.push_back(ps[i][pos[i]++]);
    }
}
constexpr auto noSetup = ~std::size_t(0);
} // namespace

// comment sizes before and after around the limits of lacing values and pages
static const std::size_t sizesBefore[] = { 60, 254, 255, 256, 509, 510, 511, 65024, 65025, 65026, 65279, 65280, 65281, 130049, 130050, 130051 };
VT_SUITE(boundaries, std::size(sizesBefore) * 3)
{
    const auto before = sizesBefore[c.top / 3];
    const int kind = static_cast<int>(c.top % 3);
    static const std::size_t after[] = { 0, 60, 254, 255, 256, 509, 510, 511, 765, 64770, 65024, 65025, 65026, 65279, 65280, 65281, 130049, 130050, 130051, 195075 };
    const auto size = c.pick(after, "new size");
    static const std::size_t setups[] = { noSetup, 4, 254, 255, 510, 4000, 65025, 65280 };
    const auto setup = kind == ogg::Opus ? noSetup : c.pick(setups, "setup packet");
    if (kind == ogg::Vorbis && setup == noSetup)
        c.skip();
    auto t = make(kind, 7, before, setup, { 100, 255, 0, 3000, 65025, 77 });
    if (setup != noSetup && c.flip("flush after comment"))
        t.paging.flushAfter.insert(1);
    Layout l;
    static const std::size_t paddings[] = { 0, 1, 255 };
    if (vt::thorough())
        l.preferred = c.pick(paddings, "padding");
    Edit e{ size ? Title : Remove, size ? titleFor(t, size) : 0 };
    run(c, ogg::paginate(t.stream, t.paging), { t }, { { { e } } }, l, "");
}
// tiny pages: the comment spans many pages and shares them with its neighbours in every possible way
VT_SUITE(paging, 6 * 3)
{
    const int kind = static_cast<int>(c.top % 3);
    static const std::size_t perPage[] = { 1, 2, 3, 4, 5, 255 };
    static const std::size_t sizes[] = { 60, 255, 300, 510, 700, 1020, 1300 };
    const auto before = c.pick(sizes, "size");
    const auto setup = kind == ogg::Opus ? noSetup : c.pick({ noSetup, std::size_t(40), std::size_t(255), std::size_t(600), std::size_t(765) }, "setup packet");
    if (kind == ogg::Vorbis && setup == noSetup)
        c.skip();
    auto t = make(kind, 0xFFFFFFFF, before, setup, { 100, 255, 0, 700, 510, 77 });
    t.paging.perPage = perPage[c.top / 3];
    if (setup != noSetup && c.flip("flush after comment"))
        t.paging.flushAfter.insert(1);
    const auto kindOfEdit = c.choose(5, "edit");
    Edit e{ static_cast<EditKind>(kindOfEdit), 0 };
    if (e.kind == Title || e.kind == Multi)
        e.size = c.pick({ std::size_t(1), std::size_t(200), std::size_t(420), std::size_t(900) }, "title");
    Layout l;
    l.preferred = c.pick({ std::size_t(0), std::size_t(30) }, "padding");
    run(c, ogg::paginate(t.stream, t.paging), { t }, { { { e } } }, l, "");
}
// several streams: every interleaving of the first pages
VT_SUITE(multiplex, 9)
{
    static const int kinds[][3] = { { ogg::Vorbis, ogg::Opus, -1 }, { ogg::Opus, ogg::Vorbis, -1 }, { ogg::Theora, ogg::Vorbis, -1 }, { ogg::Vorbis, ogg::Theora, -1 }, { ogg::Flac, ogg::Vorbis, -1 },
        { ogg::Unknown, ogg::Opus, -1 }, { ogg::Opus, ogg::Opus, -1 }, { ogg::Vorbis, ogg::Flac, ogg::Opus }, { ogg::Theora, ogg::Vorbis, ogg::Vorbis } };
    const auto &k = kinds[c.top];
    std::vector<Tagged> ts;
    const auto size = c.pick({ std::size_t(60), std::size_t(300), std::size_t(700) }, "size");
    const auto perPage = c.pick({ std::size_t(1), std::size_t(2), std::size_t(255) }, "lacing values per page");
    for (std::size_t i = 0; i < 3 && k[i] >= 0; ++i) {
        ts.push_back(make(k[i], static_cast<std::uint32_t>(5 + i * 3), size + i * 10, k[i] == ogg::Opus ? noSetup : 300, { 100, 255, 300 }));
        ts.back().paging.perPage = perPage;
        if (i == 1)
            ts.back().stream.firstSequence = 3;
    }
    std::vector<std::vector<ogg::Page>> ps;
    for (auto &t : ts)
        ps.push_back(ogg::paginate(t.stream, t.paging));
    std::size_t chosen = 0, turn = 0;
    const std::size_t depth = ts.size() == 3 ? (vt::thorough() ? 6 : 3) : vt::thorough() ? 8 : 5;
    auto all = interleave(ps, [&](const std::vector<std::size_t> &open) { return chosen++ < depth ? c.choose(open.size(), "stream") : turn++ % open.size(); });
    static const Edit edits[] = { { Keep, 0 }, { Title, 1 }, { Title, 600 }, { Remove, 0 } };
    std::vector<Edit> es;
    for (auto &t : ts)
        es.push_back(t.hasComment ? c.pick(edits, "edit") : Edit());
    run(c, all, ts, { { es } }, Layout(), "");
}
// chained streams and unusual arrangements
VT_SUITE(unusual, 12)
{
    const int kind = static_cast<int>(c.choose(3, "kind"));
    const auto size = c.pick({ std::size_t(60), std::size_t(600) }, "size");
    const auto perPage = c.pick({ std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(255) }, "lacing values per page");
    static const Edit edits[] = { { Keep, 0 }, { Title, 1 }, { Title, 500 }, { Title, 1300 }, { Remove, 0 }, { Clear, 0 } };
    const auto e = c.pick(edits, "edit");
    std::vector<Tagged> ts{ make(kind, 42, size, kind == ogg::Opus ? noSetup : 300, { 100, 255, 300, 400 }) };
    ts[0].paging.perPage = perPage;
    std::vector<Edit> es{ e };
    Bytes raw;
    bool critical = false;
    std::vector<ogg::Page> ps;
    switch (c.top) {
    case 0: // chained, different serial numbers
    case 1: // interleaved kinds
        ts.push_back(make(c.top ? ogg::Opus : kind, 43, 90, c.top || kind == ogg::Opus ? noSetup : 40, { 100, 20 }));
        es.push_back(c.pick(edits, "second edit"));
        for (auto &t : ts)
            for (auto &p : ogg::paginate(t.stream, t.paging))
                ps.push_back(p);
        break;
    case 2: // page without segments in the middle of the audio
    case 3: // … at the very end (carrying eos)
    case 4: // … between the headers
        ts[0].paging.emptyPageAfter.insert(c.top == 2 ? ts[0].stream.headers : c.top == 3 ? ts[0].stream.packets.size() - 1 : 0);
        break;
    case 5: // numbers of pages do not start at zero / wrap around
        ts[0].stream.firstSequence = c.flip("wrap") ? 0xFFFFFFFEu : 1000;
        break;
    case 6: // no eos
        ts[0].stream.eos = false;
        break;
    case 7: // padding behind the comment, possibly spanning several pages
        if (kind == ogg::Flac)
            c.skip();
        ts[0].stream.packets[1].data += Bytes(c.pick({ std::size_t(1), std::size_t(255), std::size_t(600), std::size_t(1500) }, "padding"), '\0');
        break;
    case 8: // all headers on the same page
        ts[0].paging.flushHeaders = false;
        ts[0].paging.flushAfter.insert(ts[0].stream.headers - 1);
        break;
    case 9: // first packet spans several pages and the comment begins behind it
        ts[0].paging.flushHeaders = false;
        ts[0].paging.flushAfter.insert(ts[0].stream.headers - 1);
        if (kind == ogg::Flac)
            c.skip();
        ts[0].stream.packets[0].data += Bytes(c.pick({ std::size_t(255), std::size_t(700) }, "size of first packet"), '\0');
        break;
    case 10: // only headers, i.e. the comment page or the page of the setup packet is the last one
        ts[0].stream.packets.resize(ts[0].stream.headers);
        if (c.flip("big comment"))
            es[0] = { Title, c.pick({ std::size_t(64000), std::size_t(66000), std::size_t(131000) }, "title") };
        break;
    case 11: // further header packets of zero length
        ts[0].stream.packets.insert(ts[0].stream.packets.begin() + 2, { Bytes(), 0 });
        ++ts[0].stream.headers;
        if (c.flip("two"))
            ts[0].stream.packets.insert(ts[0].stream.packets.begin() + 2, { Bytes(255, 'z'), 0 }), ++ts[0].stream.headers;
        break;
    }
    if (ps.empty())
        ps = ogg::paginate(ts[0].stream, ts[0].paging);
    run(c, ps, ts, { { es } }, Layout(), "", critical, raw);
}
// two successive edits
VT_SUITE(histories, 12 * 12)
{
    static const Edit edits[] = { { Keep, 0 }, { Title, 0 }, { Title, 1 }, { Title, 196 }, { Title, 230 }, { Title, 700 }, { Title, 64990 }, { Title, 140000 }, { Clear, 0 }, { Remove, 0 }, { Multi, 20 },
        { Multi, 300 } };
    const int kind = static_cast<int>(c.choose(3, "kind"));
    std::vector<Tagged> ts{ make(kind, 42, 300, kind == ogg::Opus ? noSetup : 600, { 100, 255, 300, 400 }) };
    ts[0].paging.perPage = c.pick({ std::size_t(2), std::size_t(255) }, "lacing values per page");
    std::vector<std::vector<ogg::Page>> ps{ ogg::paginate(ts[0].stream, ts[0].paging) };
    if (c.flip("second stream")) {
        ts.push_back(make(ogg::Vorbis, 43, 90, 40, { 100, 20 }));
        ps.push_back(ogg::paginate(ts[1].stream, ts[1].paging));
    }
    std::size_t turn = 0;
    const auto all = interleave(ps, [&](const std::vector<std::size_t> &open) { return turn++ % open.size(); });
    Layout l;
    l.saveAs = c.flip("save as");
    const auto reopen = c.flip("re-open");
    const auto a = edits[c.top / 12], b = edits[c.top % 12];
    std::vector<Step> steps{ { { a, a } }, { { b, ts.size() > 1 && c.flip("edit second stream only once") ? Edit() : b }, reopen } };
    run(c, all, ts, steps, l, "");
}
// files in which nothing is to be changed but which need to be written completely
VT_SUITE(unsupported, 3)
{
    std::vector<Tagged> ts;
    const int kinds[][2] = { { ogg::Theora, -1 }, { ogg::Unknown, -1 }, { ogg::Theora, ogg::Unknown } };
    std::vector<std::vector<ogg::Page>> ps;
    for (int k : kinds[c.top])
        if (k >= 0) {
            ts.push_back(make(k, static_cast<std::uint32_t>(3 + k), 0, noSetup, { 100, 255, 0, 700 }));
            ts.back().paging.perPage = c.pick({ std::size_t(1), std::size_t(2), std::size_t(255) }, "lacing values per page");
            ps.push_back(ogg::paginate(ts.back().stream, ts.back().paging));
        }
    std::size_t turn = 0;
    run(c, interleave(ps, [&](const std::vector<std::size_t> &open) { return turn++ % open.size(); }), ts, { { { Edit() } } }, Layout(), "");
}
