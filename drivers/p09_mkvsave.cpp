// P09: saving a Matroska file keeps clusters reachable and the element structure valid.
#include "mkvfile.h"
#include "save.h"

#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskatag.h>

using namespace ref;

const char *vt::property = "P09";
const char *vt::rule = "every order of seek head, void, info, tracks, chapters, tags, attachments, cues and clusters from a systematically built set x cluster features x cue features x segment "
                       "header features x layout preferences x title lengths (every length in a range, so every padding and every size step is reached) x sequences of two saves; the saved bytes are "
                       "decoded by an independent strict EBML decoder which follows every cue, seek entry, position, previous size and checksum; states = distinct saved files";
const char *vt::assumptions = "title and muxing/writing application of the segment info are maintained by the library|cluster positions which do not fit anymore may be voided|void elements and checksums of rewritten "
                              "elements may be dropped|empty level-1 elements are not preserved";

namespace {
const Layout layouts[] = {
    { 0, 1u << 20, 0, false },
    { 0, 1u << 20, 0, true },
    { 0, 1u << 20, 1, true },
    { 16, 64, 32, false },
    { 0, 1u << 20, 300, true, ElementPosition::BeforeData, ElementPosition::BeforeData },
    { 0, 1u << 20, 10, true, ElementPosition::AfterData, ElementPosition::AfterData },
    { 0, 1u << 20, 10, false, ElementPosition::AfterData, ElementPosition::AfterData, true, true },
    { 0, 1u << 20, 10, false, ElementPosition::BeforeData, ElementPosition::BeforeData, true, true },
    { 0, 1u << 20, 64, true, ElementPosition::AfterData, ElementPosition::BeforeData, true, true },
    { 0, 1u << 20, 63, true, ElementPosition::BeforeData, ElementPosition::AfterData, true, true },
    { 0, 0, 0, false },
    { 0, 1u << 20, 2, false, ElementPosition::Keep, ElementPosition::Keep, false, false, true },
    { 0, 1u << 20, 0, false, ElementPosition::AfterData, ElementPosition::Keep, true, false },
    { 0, 1u << 20, 0, false, ElementPosition::Keep, ElementPosition::AfterData, false, true },
};
constexpr std::size_t nLayouts = std::size(layouts);
std::vector<mkv::ClusterSpec> clusters(std::size_t n)
{
    std::vector<mkv::ClusterSpec> r(n);
    for (std::size_t i = 0; i < n; ++i) {
        r[i].timecode = i * 1000;
        r[i].blocks = { 40 + i, 25 - i };
    }
    return r;
}
mkv::File file(const std::string &order)
{
    mkv::File f;
    f.segments.emplace_back();
    f.segments[0].order = order;
    f.segments[0].clusters = clusters(static_cast<std::size_t>(std::count(order.begin(), order.end(), 'K')));
    return f;
}
// an edit: length of the new title; -1 = none, -2 = remove tags
void edit(Session &s, int length)
{
    if (length == -1)
        return;
    if (length == -2) {
        s.file.container()->removeAllTags();
        return;
    }
    s.file.createAppropriateTags();
    s.file.container()->tag(0)->setValue(KnownField::Title, text(Bytes(static_cast<std::size_t>(length), 'n')));
}
std::string stripPositions(Bytes s)
{
    for (const char *w : { "pos ", "prev " })
        for (std::size_t p; (p = s.find(w)) != Bytes::npos;)
            s.erase(p, std::strlen(w));
    return s;
}
void compare(Ctx &c, const mkv::Summary &want, const mkv::Summary &got, const Bytes *title, bool removed)
{
    c.check(got.segments.size() == want.segments.size(), "segments", "%zu segments instead of %zu", got.segments.size(), want.segments.size());
    for (std::size_t i = 0; i < want.segments.size(); ++i) {
        auto &w = want.segments[i];
        auto &g = got.segments[i];
        c.check(g.clusters.size() == w.clusters.size(), "clusters", "segment %zu has %zu clusters instead of %zu", i, g.clusters.size(), w.clusters.size());
        for (std::size_t k = 0; k < w.clusters.size(); ++k)
            c.check(stripPositions(g.clusters[k]) == stripPositions(w.clusters[k]), "cluster-data", "cluster %zu changed at %zu of its dump", k, firstDiff(g.clusters[k], w.clusters[k]));
        c.check(g.cues.size() == w.cues.size(), "cues", "%zu cue points instead of %zu", g.cues.size(), w.cues.size());
        for (std::size_t k = 0; k < w.cues.size(); ++k)
            c.check(g.cues[k] == w.cues[k], "cue", "cue point %zu is \"%s\" instead of \"%s\"", k, g.cues[k].c_str(), w.cues[k].c_str());
        c.check(g.info == w.info, "info", "segment info changed from %s to %s", w.info.c_str(), g.info.c_str());
        c.check(g.infoTitle == w.infoTitle, "info-title", "title of segment %zu changed from \"%s\" to \"%s\"", i, w.infoTitle.c_str(), g.infoTitle.c_str());
        c.check(g.tracks == w.tracks, "tracks", "tracks changed from %s to %s", w.tracks.c_str(), g.tracks.c_str());
        c.check(g.chapters == w.chapters, "chapters", "chapters changed from %s to %s", w.chapters.c_str(), g.chapters.c_str());
        c.check(g.hasCrc == w.hasCrc, "segment-crc", "CRC-32 element of segment has been %s", g.hasCrc ? "added" : "dropped");
        if (w.seeks)
            c.check(g.seeks > 0, "seek-head", "seek head is gone");
    }
    // attachments are written into the first or last segment
    Bytes wa, ga;
    for (auto &s : want.segments)
        wa += s.attachments;
    for (auto &s : got.segments)
        ga += s.attachments;
    c.check(ga == wa, "attachments", "attachments changed from %s to %s", wa.c_str(), ga.c_str());
    c.check(got.unknownTop == want.unknownTop, "top-level", "top-level elements changed at %zu", firstDiff(got.unknownTop, want.unknownTop));
    if (removed) {
        c.check(got.tags == 0, "tags", "%zu tags after removing all", got.tags);
    } else if (title) {
        c.check(got.tagTitles.size() == std::max<std::size_t>(1, want.tagTitles.size()) && got.tagTitles[0] == *title, "tags", "%zu titles, first %s instead of %s", got.tagTitles.size(),
            got.tagTitles.empty() ? "none" : quote(got.tagTitles[0]).c_str(), quote(*title).c_str());
    } else {
        c.check(got.tagTitles == want.tagTitles, "tags", "titles changed: %zu instead of %zu", got.tagTitles.size(), want.tagTitles.size());
    }
}
mkv::Summary step(Ctx &c, const std::string &path, const mkv::Summary &before, const Layout &layout, int length)
{
    std::string at = path;
    {
        Session s(path);
        s.parse();
        c.check(s.file.containerFormat() == ContainerFormat::Matroska && s.file.tagsParsingStatus() != ParsingStatus::CriticalFailure, "parse", "the file cannot be parsed: %s", diagText(s.diag).c_str());
        edit(s, length);
        applyLayout(s.file, layout);
        if (layout.saveAs) {
            at = path + ".new";
            s.file.setSaveFilePath(at);
        }
        std::string what;
        c.check(save(c, s, &what), "save", "saving failed (%s): %s", what.c_str(), diagText(s.diag).c_str());
        c.check(s.file.size() == vt::readFile(at).size(), "size", "size reported after saving is wrong");
    }
    const auto saved = vt::readFile(at);
    if (at != path)
        vt::writeFile(path, saved);
    c.state(vt::hashStr(saved));
    const auto got = mkv::summarise(c, saved);
    const Bytes t(static_cast<std::size_t>(std::max(0, length)), 'n');
    compare(c, before, got, length > 0 ? &t : nullptr, length == -2);
    {
        Session s(path);
        s.parse(true);
        c.check(!hasLevel(s.diag, DiagLevel::Critical), "reparse", "critical messages when parsing the saved file: %s", diagText(s.diag).c_str());
    }
    return got;
}
void run(Ctx &c, const mkv::File &f, const Layout &l, int length, bool again = false)
{
    vt::removeAllIn(c.scratch());
    const auto path = c.file("a.mkv");
    const auto bytes = mkv::build(f);
    vt::writeFile(path, bytes);
    auto before = mkv::summarise(c, mkv::build(mkv::normalised(f)));
    c.log("%zu bytes, %s, title %d", bytes.size(), str(l).c_str(), length);
    before = step(c, path, before, l, length);
    if (again) {
        const auto &l2 = layouts[c.choose(nLayouts, "layout2")];
        const int len2 = c.pick({ 3, 150 }, "title2");
        c.log("%s, title %d", str(l2).c_str(), len2);
        step(c, path, before, l2, len2);
    }
}
// orders of level-1 elements: heads x tails x what is in between
const char *const heads[] = { "SVIT", "IT", "SITV", "IST", "VSIVT", "RSIT", "ITS", "STI" };
const char *const positions[] = { "ghac", "ghaC", "GHAC", "GHAc", "Ghac", "gHAC", "gHac", "GhaC", "-h-c", "----", "-ha-", "G--c", "g--C", "CAHG" }; // lower case: before the clusters
std::string order(std::size_t h, std::size_t p, std::size_t k, bool voidBehind, bool unknown)
{
    std::string r = heads[h];
    for (const char *q = positions[p]; *q; ++q)
        if (*q >= 'a' && *q <= 'z')
            r += static_cast<char>(*q - 32);
    if (voidBehind)
        r += 'V';
    r += std::string(k, 'K');
    if (unknown)
        r += 'X';
    for (const char *q = positions[p]; *q; ++q)
        if (*q >= 'A' && *q <= 'Z')
            r += *q;
    return r;
}
} // namespace

VT_SUITE(orders, std::size(heads) * std::size(positions))
{
    const auto k = c.pick({ 1, 3 }, "clusters");
    const bool v = c.flip("void in front of the clusters");
    auto f = file(order(c.top / std::size(positions), c.top % std::size(positions), static_cast<std::size_t>(k), v, false));
    c.log("%s", f.segments[0].order.c_str());
    const auto &l = layouts[c.choose(nLayouts, "layout")];
    run(c, f, l, c.pick({ -1, 1, 60, 400, -2 }, "title"));
}
// elements between and behind clusters, several elements of a kind
VT_SUITE(scattered, nLayouts)
{
    static const char *const orders[] = { "SITKGK", "SITGKHK", "SITKCK", "SITKAKG", "SITKVKGC", "SVITKGKCKHKA", "SITGGK", "SITGKG", "SITHHK", "SITAKA", "SSITGKC", "SITKSGC", "SITGKVV", "SITGKCVV", "ITKSK",
        "KSITG", "SIKTKG", "SITIK", "SKITGC", "SITGKX", "SITXGKC" };
    auto f = file(c.pick(orders, "order"));
    c.log("%s", f.segments[0].order.c_str());
    run(c, f, layouts[c.top], c.pick({ -1, 1, 90, -2 }, "title"));
}
// every length of the title so that every padding and every size step is hit
VT_SUITE(slide, 12)
{
    static const char *const orders[] = { "SVITHGACKKK", "SITGKKC", "RSITGVCKK" };
    auto f = file(orders[c.top % 3]);
    auto &s = f.segments[0];
    s.voidSize = 130;
    s.sizeLen = c.pick({ 1, 8 }, "size length") == 1 ? 0 : 8;
    s.relative = true;
    const std::size_t l = c.top / 3;
    static const Layout ls[] = { { 0, 1u << 20, 1, false, ElementPosition::BeforeData, ElementPosition::BeforeData, true, true }, { 0, 1u << 20, 0, true }, { 0, 1u << 20, 10, false, ElementPosition::AfterData, ElementPosition::AfterData, true, true },
        { 0, 1u << 20, 0, false } };
    run(c, f, ls[l], static_cast<int>(c.choose(vt::thorough() ? 700 : 180, "title")) + 1);
}
// offsets around the size steps of integers and sizes
VT_SUITE(steps, 14)
{
    static const std::size_t targets[] = { 90, 200, 16100, 65000 };
    static const char *const orders[] = { "SITHGCKK", "SITHGKKC" };
    auto f = file(orders[c.top % 2]);
    auto &s = f.segments[0];
    s.relative = s.twoTracks = true;
    s.infoExtras = false;
    const auto base = c.pick(targets, "base");
    s.chapterText = base / 2;
    s.clusters[0].blocks = { base / 3, base };
    run(c, f, layouts[c.top / 2 * 2 % nLayouts], static_cast<int>(c.choose(vt::thorough() ? 400 : 70, "title")) * (vt::thorough() ? 1 : 5) + 1);
}
VT_SUITE(clusterFeatures, nLayouts)
{
    static const char *const orders[] = { "SVITGCKKK", "SITGKKKC", "ITKKKG" };
    auto f = file(c.pick(orders, "order"));
    auto &s = f.segments[0];
    const auto variant = c.choose(vt::thorough() ? 4 : 2, "position width");
    s.posWidth = variant == 0 ? 0 : variant == 1 ? 8 : variant == 2 ? 4 : 2;
    s.sizeLen = c.pick({ 8, 2 }, "segment size length");
    s.relative = c.flip("relative");
    const auto bits = c.choose(64, "features");
    for (std::size_t i = 0; i < s.clusters.size(); ++i) {
        auto &cl = s.clusters[i];
        cl.position = bits & 1;
        cl.prevSize = bits & 2;
        cl.crc = bits & 4;
        cl.voidBefore = bits & 8 ? 7 : 0;
        cl.sizeLen = bits & 16 ? 8 : 0;
        cl.unknown = (bits & 32) && i != 1;
    }
    run(c, f, layouts[c.top], c.pick({ 5, 260 }, "title"));
}
VT_SUITE(cueFeatures, nLayouts)
{
    static const char *const orders[] = { "SVITGCKKK", "SITGKKKC" };
    auto f = file(c.pick(orders, "order"));
    auto &s = f.segments[0];
    const auto bits = c.choose(128, "features");
    s.relative = bits & 1;
    s.blockNumber = bits & 2;
    s.reference = bits & 4;
    s.duration = bits & 8;
    s.twoTracks = bits & 16;
    s.cueVoid = bits & 32;
    s.posWidth = bits & 64 ? 8 : 0;
    s.codecState = s.reference || s.duration;
    for (auto &cl : s.clusters)
        cl.voidBefore = 4;
    run(c, f, layouts[c.top], c.pick({ 5, 260 }, "title"));
}
// cue points, track positions and the entire index around the size where the size denotation becomes longer
VT_SUITE(cueSizes, nLayouts)
{
    static const char *const orders[] = { "SVITGCKKK", "SITGKKKC" };
    auto f = file(c.pick(orders, "order"));
    auto &s = f.segments[0];
    switch (c.choose(3, "what")) {
    case 0:
        s.cuePositions = c.pick({ 13u, 14u, 15u }, "track positions per cue");
        s.cueTimeWidth = static_cast<int>(c.choose(8, "width of time")) + 1;
        break;
    case 1:
        s.reference = true;
        s.cueReferences = c.pick({ 12u, 13u, 14u }, "references");
        s.refTimeWidth = static_cast<int>(c.choose(8, "width of time")) + 1;
        break;
    default:
        s.cuePositions = 4;
        s.cueTimeWidth = static_cast<int>(c.choose(8, "width of time")) + 1;
    }
    if (vt::thorough())
        s.posWidth = c.pick({ 0, 8 }, "position width");
    const auto length = c.pick({ 5, 260, 65100 }, "title"); // the latter moves clusters beyond 65535 bytes
    run(c, f, layouts[c.top], length);
}
VT_SUITE(segmentFeatures, nLayouts)
{
    static const char *const orders[] = { "SVITHGACKK", "SITHKKCGA", "RSVITHGACKK", "RSITHKKCGA" };
    auto f = file(c.pick(orders, "order"));
    auto &s = f.segments[0];
    const auto sz = c.choose(9, "segment size length");
    s.sizeLen = sz == 0 ? 0 : sz == 1 ? 2 : static_cast<int>(sz);
    s.unknown = sz != 0 && sz != 2 && c.flip("unknown segment size");
    if (s.unknown && sz == 1)
        s.sizeLen = 1;
    f.headerWidth = c.pick({ 0, 2 }, "EBML header width");
    s.crcChildren = c.flip("checksums of children");
    s.trackVariant = static_cast<int>(c.choose(vt::thorough() ? 4 : 2, "tracks")) ;
    if (!vt::thorough() && s.trackVariant)
        s.trackVariant = 1 + static_cast<int>(c.top % 3);
    if (!s.unknown)
        f.trailing = c.pick({ 0, 1 }, "trailing") ? ebml::voidEl(9) : Bytes();
    f.segments[0].clusters[1].position = true;
    run(c, f, layouts[c.top], c.pick({ 5, 260 }, "title"));
}
VT_SUITE(incompleteSeekHeads, nLayouts)
{
    static const char *const orders[] = { "SITHGKKAC", "SITGKKHACS", "SITKKHGACS", "SITHGAKKCS", "SITKKCHGA" };
    static const char *const omit[] = { "", "A", "H", "C", "AHC", "K", "AHCK" };
    auto f = file(c.pick(orders, "order"));
    f.segments[0].seekOmit = c.pick(omit, "omitted");
    if (f.segments[0].order.back() == 'S')
        f.segments[0].chained = c.flip("chained");
    run(c, f, layouts[c.top], c.pick({ 5, 260 }, "title"));
}
VT_SUITE(noClusters, nLayouts)
{
    static const char *const orders[] = { "SVITHGA", "ITG", "SITH", "IT", "SVITHGAV" };
    auto f = file(c.pick(orders, "order"));
    run(c, f, layouts[c.top], c.pick({ -1, 5, 260, -2 }, "title"));
}
VT_SUITE(severalSegments, nLayouts)
{
    static const char *const orders[] = { "SVITHGACKK", "SITHKKCGA", "SVITCK", "SITKC" };
    auto f = file(c.pick(orders, "order"));
    f.segments.push_back(file(c.pick(orders, "order of second")).segments[0]);
    f.segments[1].salt = 1;
    f.segments[1].infoTitle = c.flip("title of second") ? "second" : "";
    f.segments[0].infoTitle = c.flip("title of first") ? "first" : "";
    f.segments[0].clusters[0].position = f.segments[1].clusters[0].position = true;
    f.segments[0].relative = f.segments[1].relative = true;
    run(c, f, layouts[c.top], c.pick({ -1, 5, 260 }, "title"));
}
VT_SUITE(twice, nLayouts)
{
    static const char *const orders[] = { "SVITHGACKKK", "SITHKKCGA", "RSITKKC", "ITK" };
    auto f = file(c.pick(orders, "order"));
    f.segments[0].relative = true;
    f.segments[0].clusters[0].position = true;
    run(c, f, layouts[c.top], c.pick({ -1, 1, 90, -2 }, "title"), true);
}
