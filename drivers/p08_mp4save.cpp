// P08: saving an MP4 file keeps the media data reachable and other atoms intact.
#include "mp4file.h"
#include "save.h"

#include <tagparser/localehelper.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4tag.h>

using namespace ref;

const char *vt::property = "P08";
const char *vt::rule = "every order of ftyp, pdin, moov, free, skip, unknown, sidx, moof and mdat atoms from a systematically built set x chunk tables x track structures x fragment addressing modes x layout "
                       "preferences x title lengths (every length in a range, so every padding is reached) x track edits x sequences of two saves; the saved bytes are decoded by an independent strict decoder "
                       "which follows every chunk offset, base data offset and run; states = distinct saved files";
const char *vt::assumptions = "free and skip atoms may be dropped or created anywhere|the order of the children of trak and mdia atoms may change|mfra atoms are outside the bound";

namespace {
const Layout layouts[] = {
    { 0, 1u << 20, 0, false },
    { 0, 1u << 20, 0, true },
    { 0, 1u << 20, 1, true },
    { 16, 64, 32, false },
    { 0, 1u << 20, 300, true, ElementPosition::BeforeData, ElementPosition::BeforeData },
    { 0, 1u << 20, 10, true, ElementPosition::AfterData, ElementPosition::AfterData },
    { 0, 1u << 20, 10, false, ElementPosition::AfterData, ElementPosition::AfterData, true, true },
    { 0, 1u << 20, 10, false, ElementPosition::BeforeData, ElementPosition::BeforeData, true, true },
    { 0, 1u << 20, 64, true, ElementPosition::AfterData, ElementPosition::BeforeData, true, true },
    { 0, 1u << 20, 63, true, ElementPosition::BeforeData, ElementPosition::AfterData, false, true },
    { 0, 0, 0, false },
    { 0, 1u << 20, 2, false, ElementPosition::Keep, ElementPosition::Keep, false, false, true },
    { 0, 1u << 20, 0, false, ElementPosition::AfterData, ElementPosition::Keep, true, false },
    { 0, 1u << 20, 0, false, ElementPosition::Keep, ElementPosition::AfterData, false, true },
};
constexpr std::size_t nLayouts = std::size(layouts);
mp4::TrackSpec track(std::size_t chunks, std::size_t salt = 0)
{
    mp4::TrackSpec t;
    for (std::size_t i = 0; i < chunks; ++i)
        t.chunks.push_back(i % 3 == 2 ? std::vector<std::size_t>{ 9 } : std::vector<std::size_t>{ 10 + i + salt, 7 + salt });
    return t;
}
mp4::File file(const std::string &order, std::size_t tracks = 2, std::size_t chunks = 4)
{
    mp4::File f;
    f.order = order;
    for (std::size_t i = 0; i < tracks; ++i)
        f.tracks.push_back(track(chunks + i, i));
    if (std::count(order.begin(), order.end(), 'o')) {
        for (auto &t : f.tracks)
            t.chunks.clear();
        f.fragments.resize(static_cast<std::size_t>(std::count(order.begin(), order.end(), 'o')));
    }
    return f;
}
struct Edit {
    int title = -1; // length of the new title; -1 = none, -2 = remove tags
    int name = -1; // length of the new name of the last track
    const char *language = nullptr; // of the first track
    bool unknownFormat = false;
    int enabled = -1; // of the first track
    int offsetSize = 0; // of the first track
    int remove = -1; // index of track to be removed
};
void apply(Session &s, const Edit &e)
{
    auto *const mp4 = static_cast<Mp4Container *>(s.file.container());
    if (e.title == -2)
        mp4->removeAllTags();
    else if (e.title >= 0) {
        s.file.createAppropriateTags();
        mp4->tag(0)->setValue(KnownField::Title, text(Bytes(static_cast<std::size_t>(e.title), 'n')));
    }
    if (e.name >= 0)
        mp4->track(mp4->trackCount() - 1)->setName(Bytes(static_cast<std::size_t>(e.name), 't'));
    if (e.language)
        mp4->track(0)->setLocale(Locale(std::string(e.language), e.unknownFormat ? LocaleFormat::Unknown : LocaleFormat::ISO_639_2_T));
    if (e.enabled >= 0)
        mp4->track(0)->setEnabled(e.enabled);
    if (e.offsetSize)
        mp4->tracks().front()->setChunkOffsetSize(static_cast<unsigned int>(e.offsetSize));
    if (e.remove >= 0)
        mp4->removeTrack(mp4->track(static_cast<std::size_t>(e.remove)));
}
Bytes headerWithFlags(const Bytes &header, int enabled)
{
    if (enabled < 0)
        return header;
    Bytes r = header;
    r[11] = static_cast<char>((r[11] & ~1) | enabled); // flags are at most 7 here
    return r;
}
void compare(Ctx &c, mp4::Summary want, const mp4::Summary &got, const Edit &e)
{
    // the expected outcome
    auto rest = [](const Bytes &order) {
        Bytes r;
        for (auto ch : order)
            if (ch != 'f' && ch != 'p' && ch != 'm')
                r += ch;
        return r;
    };
    if (e.remove >= 0)
        want.tracks.erase(want.tracks.begin() + e.remove);
    c.check(!got.order.empty() && got.order[0] == 'f', "order", "file starts with \"%s\"", got.order.c_str());
    c.check(got.order.find('m') != Bytes::npos, "movie", "there is no moov atom");
    if (e.remove < 0) {
        c.check(rest(got.order) == rest(want.order), "order", "order of atoms changed from \"%s\" to \"%s\"", want.order.c_str(), got.order.c_str());
        c.check(got.mediaData.size() == want.mediaData.size(), "media-data", "%zu media data atoms instead of %zu", got.mediaData.size(), want.mediaData.size());
        for (std::size_t i = 0; i < want.mediaData.size(); ++i)
            c.check(got.mediaData[i] == want.mediaData[i], "media-data", "content of media data atom %zu (size %zu) changed at %zu", i, want.mediaData[i].size(), firstDiff(got.mediaData[i], want.mediaData[i]));
    }
    auto sorted = [](std::vector<Bytes> v) {
        std::sort(v.begin(), v.end());
        return v;
    };
    c.check(sorted(got.top) == sorted(want.top), "top-level", "content of top-level atoms changed");
    c.check(got.tracks.size() == want.tracks.size(), "tracks", "%zu tracks instead of %zu", got.tracks.size(), want.tracks.size());
    for (std::size_t i = 0; i < want.tracks.size(); ++i) {
        auto &g = got.tracks[i];
        auto w = want.tracks[i];
        c.check(g.chunks.size() == w.chunks.size(), "chunks", "track %zu has %zu chunks instead of %zu", i, g.chunks.size(), w.chunks.size());
        for (std::size_t k = 0; k < w.chunks.size(); ++k)
            c.check(g.chunks[k] == w.chunks[k], "chunk", "chunk %zu of track %zu leads to other data", k, i);
        if (i == 0)
            w.header = headerWithFlags(w.header, e.enabled);
        if (i + 1 == want.tracks.size() && e.name >= 0)
            w.name = Bytes(static_cast<std::size_t>(e.name), 't');
        if (i == 0 && e.language)
            w.language = static_cast<unsigned>(((e.language[0] - 0x60) << 10) | ((e.language[1] - 0x60) << 5) | (e.language[2] - 0x60));
        c.check(g.id == w.id, "track-id", "ID of track %zu changed from %u to %u", i, w.id, g.id);
        c.check(g.header == w.header, "track-header", "track header changed from %s to %s", w.header.c_str(), g.header.c_str());
        c.check(g.media == w.media, "media-header", "media header changed from %s to %s", w.media.c_str(), g.media.c_str());
        c.check(g.handler == w.handler, "handler", "handler changed from %s to %s", w.handler.c_str(), g.handler.c_str());
        c.check(g.name == w.name, "track-name", "name changed from %s to %s", quote(w.name).c_str(), quote(g.name).c_str());
        c.check(g.language == w.language, "track-language", "language changed from %04X to %04X", w.language, g.language);
        c.check(g.tables == w.tables, "sample-table", "sample table changed from %s to %s", w.tables.c_str(), g.tables.c_str());
    }
    c.check(got.movie == want.movie, "movie", "children of moov atom changed from %s to %s", want.movie.c_str(), got.movie.c_str());
    c.check(got.userData == want.userData, "user-data", "children of udta atom changed from %s to %s", want.userData.c_str(), got.userData.c_str());
    c.check(got.runs.size() == want.runs.size(), "fragments", "%zu entries of fragments instead of %zu", got.runs.size(), want.runs.size());
    for (std::size_t i = 0; i < want.runs.size(); ++i)
        c.check(got.runs[i] == want.runs[i], "fragment", "run changed or leads to other data, %s became %s", want.runs[i].c_str(), got.runs[i].c_str());
    if (e.title == -2) {
        c.check(got.metas == 0, "tags", "there is still a tag after removing it");
    } else {
        const auto title = e.title >= 0 ? Bytes(static_cast<std::size_t>(e.title), 'n') : want.title;
        c.check(got.title == title, "tags", "title is %s instead of %s", quote(got.title).c_str(), quote(title).c_str());
        c.check(got.otherFields == want.otherFields, "tag-fields", "other fields changed from %s to %s", want.otherFields.c_str(), got.otherFields.c_str());
        c.check(got.metas == (want.metas || e.title > 0), "tags", "%zu tags", got.metas);
    }
}
mp4::Summary step(Ctx &c, const std::string &path, const mp4::Summary &before, const Layout &layout, const Edit &e)
{
    std::string at = path;
    {
        Session s(path);
        s.parse();
        c.check(s.file.containerFormat() == ContainerFormat::Mp4 && s.file.tracksParsingStatus() == ParsingStatus::Ok, "parse", "the file cannot be parsed: %s", diagText(s.diag).c_str());
        c.check(!hasLevel(s.diag, DiagLevel::Critical), "parse", "critical messages when parsing the file: %s", diagText(s.diag).c_str());
        apply(s, e);
        applyLayout(s.file, layout);
        if (layout.saveAs) {
            at = path + ".new";
            s.file.setSaveFilePath(at);
        }
        std::string what;
        c.check(save(c, s, &what), "save", "saving failed (%s): %s", what.c_str(), diagText(s.diag).c_str());
        c.check(s.file.size() == vt::readFile(at).size(), "size", "size reported after saving is %zu instead of %zu", static_cast<std::size_t>(s.file.size()), vt::readFile(at).size());
    }
    const auto saved = vt::readFile(at);
    if (at != path)
        vt::writeFile(path, saved);
    c.state(vt::hashStr(saved));
    mp4::Summary got;
    try {
        got = mp4::summarise(saved);
    } catch (const mp4::Error &err) {
        c.fail("structure", "the saved file is broken: %s", err.what());
    }
    compare(c, before, got, e);
    {
        Session s(path);
        s.parse(true);
        c.check(!hasLevel(s.diag, DiagLevel::Critical), "reparse", "critical messages when parsing the saved file: %s", diagText(s.diag).c_str());
    }
    return got;
}
void run(Ctx &c, const mp4::File &f, const Layout &l, const Edit &e, bool again = false)
{
    vt::removeAllIn(c.scratch());
    const auto path = c.file("a.mp4");
    const auto bytes = mp4::build(f);
    vt::writeFile(path, bytes);
    auto before = mp4::summarise(bytes);
    c.log("%s, %zu bytes, %s, title %d", f.order.c_str(), bytes.size(), str(l).c_str(), e.title);
    before = step(c, path, before, l, e);
    if (again) {
        const auto &l2 = layouts[c.choose(nLayouts, "layout2")];
        Edit e2;
        e2.title = c.pick({ 3, 150 }, "title2");
        c.log("%s, title %d", str(l2).c_str(), e2.title);
        step(c, path, before, l2, e2);
    }
}
Edit titled(int title)
{
    Edit e;
    e.title = title;
    return e;
}
const char *const orders[] = { "fmd", "fmFd", "fFmd", "fdm", "fFdm", "fmdF", "fdmF", "fdFm", "fpmFd", "fpdm", "fmSd", "fmFSFd", "fmdd", "fdmd", "fmFdFd", "fmdFdFd", "fmFdudF", "fudm", "fmudu", "fmdFu", "fFdFdFm",
    "fdFudmF", "fmdp", "fuFmFd", "fdFmFd", "fddmFd", "fdFdFmFd" };
} // namespace

// every order of top-level atoms with every layout preference
VT_SUITE(orders, std::size(orders) * nLayouts)
{
    auto f = file(orders[c.top / nLayouts]);
    const auto variant = c.choose(5, "variant");
    if (variant == 1)
        f.mdatLarge = 3;
    else if (variant == 2)
        f.mdatOfChunk = 1;
    else if (variant == 3)
        f.mdatOpen = true;
    else if (variant == 4)
        f.freeOpen = true;
    if ((variant == 3 && f.order.back() != 'd') || (variant == 4 && f.order.back() != 'F') || (variant == 2 && std::count(f.order.begin(), f.order.end(), 'd') < 2))
        c.skip();
    if (variant == 2)
        f.tracks[0].co64 = true;
    run(c, f, layouts[c.top % nLayouts], titled(c.pick({ -1, 1, 60, 400, -2 }, "title")));
}
// every length of the title so that every padding is hit
VT_SUITE(slide, 12)
{
    static const char *const some[] = { "fmFd", "fdmF", "fmFdFdF" };
    auto f = file(some[c.top % 3], 1);
    f.freeSize = 130;
    static const Layout ls[] = { { 0, 1u << 20, 1, false, ElementPosition::BeforeData, ElementPosition::BeforeData, true, true }, { 0, 1u << 20, 0, true }, { 0, 1u << 20, 10, false, ElementPosition::AfterData, ElementPosition::AfterData, true, true },
        { 0, 1u << 20, 0, false } };
    run(c, f, ls[c.top / 3], titled(static_cast<int>(c.choose(vt::thorough() ? 700 : 220, "title")) + 1));
}
// every size of the padding of the original file
VT_SUITE(padding, nLayouts)
{
    static const char *const some[] = { "fmFd", "fmFSd", "fmdFd", "fdFm", "fFdFm" };
    auto f = file(c.pick(some, "order"), 1, 2);
    const auto n = c.choose(vt::thorough() ? 60 : 30, "size");
    f.freeSizes = { n + 8, 8 + (n * 7) % 13 };
    run(c, f, layouts[c.top], titled(c.pick({ -1, 1, 9, 20, -2 }, "title")));
}
VT_SUITE(trackFeatures, 10 * 6)
{
    auto f = file(c.pick({ "fmFd", "fdm" }, "order"));
    auto &t = f.tracks[c.choose(2, "track")];
    t.extras = 1 << (c.top % 10);
    const auto second = c.choose(11, "second extra");
    if (second < 10)
        t.extras |= 1 << second;
    else
        t.flags = 0xFEDCBAu | (c.top % 10); // including flags the library does not know
    t.hdlr = static_cast<int>(c.top / 10);
    t.version = static_cast<int>(c.choose(2, "version"));
    t.co64 = t.version;
    static const Layout ls[] = { { 0, 1u << 20, 0, false }, { 0, 1u << 20, 100, true, ElementPosition::BeforeData, ElementPosition::BeforeData } };
    run(c, f, ls[c.choose(2, "layout")], titled(c.pick({ -1, 20 }, "title")));
}
VT_SUITE(timings, 4)
{
    auto f = file(c.top % 2 ? "fdm" : "fmFd");
    auto &t = f.tracks[0];
    t.version = static_cast<int>(c.choose(2, "version"));
    if (t.version) {
        static const std::uint64_t values[] = { 5, 0xFFFFFFFFu, 0x100000000u };
        const auto bits = c.choose(729, "values");
        auto rest = bits;
        for (auto &v : t.times) {
            v = values[rest % 3];
            rest /= 3;
        }
    } else {
        static const std::uint64_t values[] = { 0, 0xFFFFFFFFu };
        for (auto &v : t.times)
            v = values[c.choose(2, "value")];
    }
    t.timeScale = c.pick({ 1u, 44100u, 0xFFFFFFFFu }, "time scale");
    t.flags = static_cast<std::uint32_t>(c.choose(2, "flags") * 7);
    t.language = c.pick({ 0u, 0x55C4u, 0x0421u }, "language");
    static const Layout ls[] = { { 0, 1u << 20, 0, false }, { 0, 1u << 20, 0, true } };
    run(c, f, ls[c.top / 2], titled(10));
}
VT_SUITE(movieFeatures, nLayouts)
{
    auto f = file(c.pick({ "fmFd", "fdm" }, "order"));
    f.moovOrder = static_cast<int>(c.choose(4, "order of children"));
    f.udta = static_cast<int>(c.choose(6, "user data"));
    f.moovFree = c.flip("free in moov");
    f.moovLarge = c.flip("64-bit size of moov");
    run(c, f, layouts[c.top], titled(c.pick({ -1, 20, -2 }, "title")));
}
VT_SUITE(trackEdits, nLayouts)
{
    auto f = file(c.pick({ "fmFd", "fdm", "fmdFd" }, "order"), c.choose(3, "tracks") + 1);
    for (auto &t : f.tracks)
        t.hdlr = static_cast<int>(c.choose(2, "name format"));
    Edit e;
    static const int names[] = { -1, 0, 1, 9, 100, 116, 255, 300 };
    e.name = c.pick(names, "name");
    e.language = c.flip("language") ? "deu" : nullptr;
    e.unknownFormat = e.language && c.flip("format of language not specified");
    e.enabled = static_cast<int>(c.choose(3, "enabled")) - 1;
    e.title = c.pick({ -1, 30 }, "title");
    run(c, f, layouts[c.top], e);
}
VT_SUITE(offsetSizes, nLayouts)
{
    auto f = file(c.pick({ "fmFd", "fdm", "fmdFd", "fmFod" }, "order"));
    f.tracks[0].co64 = c.flip("64-bit before");
    f.tracks[0].extras = c.flip("unknown atoms") ? 64 : 0;
    if (f.fragments.empty())
        f.tracks[0].chunks.resize(c.choose(4, "chunks"));
    Edit e;
    e.offsetSize = c.flip("64-bit after") ? 8 : 4;
    e.title = c.pick({ -1, 30 }, "title");
    run(c, f, layouts[c.top], e);
}
// tracks are removed so the file is written chunk by chunk
VT_SUITE(removedTracks, nLayouts)
{
    static const char *const some[] = { "fmFd", "fdm", "fmdd", "fdmd", "fpmFdFdu" };
    const auto n = c.choose(3, "tracks") + 1;
    auto f = file(c.pick(some, "order"), n);
    f.tracks[0].sampleTable = static_cast<int>(c.choose(5, "sample table"));
    if (f.tracks[0].sampleTable == 1)
        for (auto &ch : f.tracks[0].chunks)
            for (auto &s : ch)
                s = 12;
    if (f.tracks[0].sampleTable == 4)
        for (auto &ch : f.tracks[0].chunks)
            for (auto &s : ch)
                s = s % 15 + 1;
    f.tracks[0].co64 = c.flip("64-bit offsets");
    f.mdatOfChunk = static_cast<int>(c.choose(3, "chunks in media data"));
    Edit e;
    e.remove = static_cast<int>(c.choose(n, "remove"));
    e.title = c.pick({ -1, 30 }, "title");
    run(c, f, layouts[c.top], e);
}
VT_SUITE(chunkTables, nLayouts)
{
    static const char *const some[] = { "fmFdFd", "fmdud", "fdFdm", "fdmd", "fmFdFdd" };
    auto f = file(c.pick(some, "order"), 2, c.pick({ 0u, 1u, 2u, 5u, 11u }, "chunks"));
    f.mdatOfChunk = static_cast<int>(c.choose(3, "chunks in media data"));
    f.tracks[0].co64 = c.flip("64-bit offsets of first track");
    f.tracks[1].co64 = c.flip("64-bit offsets of second track");
    f.mdatLarge = static_cast<int>(c.choose(4, "64-bit sizes"));
    f.gap = c.pick({ 0u, 5u }, "gap");
    run(c, f, layouts[c.top], titled(c.pick({ 5, 200 }, "title")));
}
VT_SUITE(fragments, nLayouts)
{
    static const char *const some[] = { "fmod", "fmFod", "fmodod", "fmFodFod", "fmiodod", "fmFiodiod", "fmuodod", "fmodFodF", "fmoFdod", "fmoFdFoFd", "fmiFodFod" };
    auto f = file(c.pick(some, "order"));
    const auto base = c.choose(5, "addressing");
    int i = 0;
    const auto trafs = c.choose(2, "second track") + 1, runs = c.choose(2, "second run") + 1;
    const bool off = c.flip("data offset");
    f.mdatLarge = c.flip("64-bit size") ? 1 : 0;
    for (auto &fr : f.fragments) {
        fr.base = base < 4 ? static_cast<int>(base) : i++ % 4;
        fr.trafs = static_cast<int>(trafs);
        fr.runs = static_cast<int>(runs);
        fr.dataOffset = off;
    }
    run(c, f, layouts[c.top], titled(c.pick({ -1, 30, 200, -2 }, "title")));
}
// fragments in addition to media data described by the moov atom
VT_SUITE(hybrid, nLayouts)
{
    static const char *const some[] = { "fmdod", "fmFdFod", "fmFdodFod" };
    auto f = file(c.pick(some, "order"));
    for (std::size_t i = 0; i < f.tracks.size(); ++i)
        f.tracks[i] = track(3 + i, i);
    f.mdatOfChunk = static_cast<int>(c.choose(2, "chunks in media data"));
    for (auto &fr : f.fragments)
        fr.base = static_cast<int>(c.choose(4, "addressing"));
    run(c, f, layouts[c.top], titled(c.pick({ -1, 30, 200 }, "title")));
}
VT_SUITE(twice, nLayouts)
{
    static const char *const some[] = { "fmFd", "fdmF", "fmFdFd", "fdFmFd", "fmFodFod", "fmd" };
    auto f = file(c.pick(some, "order"));
    if (c.flip("64-bit offsets"))
        f.tracks[0].co64 = true;
    for (auto &fr : f.fragments)
        fr.base = 0;
    run(c, f, layouts[c.top], titled(c.pick({ -1, 1, 90, 400, -2 }, "title")), true);
}
