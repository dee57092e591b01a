// P11: Layout preferences (padding, tag and index position) are honoured.
#include "content.h"

#include <sys/stat.h>

#include <map>
#include <tuple>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P11";
const char *vt::rule = "padding: every format with layout (MP3, FLAC, MP4 with moov first/last/fragmented, Matroska with tags first/last) x existing padding x edits of sizes around all limits x "
                       "minimum/maximum/preferred padding x forced and unforced positions; positions: formats x tag and index positions x forced or not x existing padding x edits; whether the file has been rewritten is "
                       "observed from its inode and compared with the space the tags need (measured from a file rewritten without padding); states = distinct (format, layout, edit, outcome)";
const char *vt::assumptions = "4 byte of FLAC padding and the size of the header of a padding element may or may not be counted as padding|space needed by a Matroska header may vary by up to 24 byte depending on offsets "
                              "within its seek information|padding is only possible within the first ID3v2 tag or a FLAC stream, that is MP3 files without ID3v2 tag have none";

namespace {
using P = ElementPosition;
constexpr fmts::Id ids[] = { fmts::Mp3, fmts::Flac, fmts::Mp4, fmts::Mp4Back, fmts::Mp4Dash, fmts::Mkv, fmts::MkvBack };
struct Change {
    bool remove = false;
    std::size_t title = 0;
};
constexpr std::size_t base = 40; // original length of the title
void edit(MediaFileInfo &f, const Change &e)
{
    if (e.remove)
        return f.removeAllTags();
    f.createAppropriateTags();
    for (auto *t : f.tags())
        if (t->type() != TagType::Id3v1Tag)
            t->setValue(KnownField::Title, text(Bytes(e.title, 't'), TagTextEncoding::Utf8));
}
std::size_t mediaStart(Ctx &c, fmts::Id id, const Bytes &b)
{
    const auto r = fmts::mediaRanges(id, b);
    c.check(!r.empty(), "media", "no media data");
    return r.front().first;
}
struct Result {
    Bytes bytes;
    fmts::Content content;
    std::size_t media = 0;
    bool rewritten = false;
    Bytes diag;
};
Result run(Ctx &c, fmts::Id id, const Bytes &original, const Change &e, const Layout &l, const char *name, const Bytes &what)
{
    const auto path = c.file((Bytes(name) + fmts::formats[id].ext).c_str());
    vt::writeFile(path, original);
    struct stat before, after;
    stat(path.c_str(), &before);
    Result r;
    {
        Session s(path);
        try {
            s.parse();
        } catch (const std::exception &ex) {
            c.fail("parse", "%s: unable to parse: %s", what.c_str(), ex.what());
        }
        edit(s.file, e);
        applyLayout(s.file, l);
        Bytes error;
        if (!save(c, s, &error))
            c.fail("save", "%s: unable to save: %s %s", what.c_str(), error.c_str(), diagText(s.diag).c_str());
        r.diag = diagText(s.diag);
        s.file.close();
    }
    stat(path.c_str(), &after);
    r.rewritten = before.st_ino != after.st_ino;
    r.bytes = vt::readFile(path);
    r.content = fmts::content(c, id, r.bytes);
    r.media = mediaStart(c, id, r.bytes);
    return r;
}
bool isMkv(fmts::Id id)
{
    return id == fmts::Mkv || id == fmts::MkvBack;
}
bool isMp4(fmts::Id id)
{
    return id == fmts::Mp4 || id == fmts::Mp4Back || id == fmts::Mp4Dash;
}
P resolve(P wanted, bool currentFirst)
{
    return wanted == P::Keep ? (currentFirst ? P::BeforeData : P::AfterData) : wanted;
}
void verify(Ctx &c, fmts::Id id, const Bytes &original, std::size_t existing, const Change &e, const Layout &l)
{
    const auto before = fmts::content(c, id, original);
    const auto what = fmt("%s with %zu byte padding, %s: %s", fmts::formats[id].name, existing, e.remove ? "removing tags" : fmt("title of %zu byte", e.title).c_str(), str(l).c_str());
    // determine the requested positions
    auto tag = resolve(l.tag, before.tagsFirst), index = resolve(l.index, before.indexFirst);
    bool forceTag = l.forceTag, forceIndex = l.forceIndex;
    if (isMp4(id)) { // tags and index are at the same place; forced position wins
        const auto p = l.forceTag || !l.forceIndex ? l.tag : l.index;
        tag = index = id == fmts::Mp4Dash ? P::BeforeData : resolve(p, before.tagsFirst);
        forceTag = forceIndex = l.forceTag || l.forceIndex || id == fmts::Mp4Dash;
    } else if (!isMkv(id)) {
        tag = index = P::BeforeData;
        forceTag = forceIndex = true;
    }
    // measure what is needed
    Layout tight;
    tight.force = tight.forceTag = tight.forceIndex = true;
    tight.tag = tag;
    tight.index = index;
    static std::map<std::tuple<int, std::size_t, bool, std::size_t, P, P>, Result> cache;
    const auto key = std::make_tuple(static_cast<int>(id), existing, e.remove, e.title, tag, index);
    if (cache.find(key) == cache.end())
        cache[key] = run(c, id, original, e, tight, "needed", what);
    const auto &needed = cache[key];
    c.check(needed.rewritten, "not-rewritten", "%s: file not rewritten despite being forced", what.c_str());
    c.check(!needed.content.padding, "padding", "%s: %zu byte padding when rewriting without", what.c_str(), needed.content.padding);
    const auto available = mediaStart(c, id, original);
    const auto r = run(c, id, original, e, l, "file", what);
    // the content does not depend on the layout
    c.check(r.content.tags == needed.content.tags, "tags", "%s: tags are %s but %s when rewritten", what.c_str(), quote(r.content.tags).c_str(), quote(needed.content.tags).c_str());
    c.check(r.content.rest == needed.content.rest && r.content.rest == before.rest, "content", "%s: content differs: %s / %s", what.c_str(), r.content.rest.c_str(), needed.content.rest.c_str());
    c.state(vt::hashStr(what, r.rewritten));
    // positions
    const bool tagged = r.content.tagCount;
    const auto positioned = [&](bool forcedOnly) {
        if ((!forcedOnly || forceTag) && (tagged || isMp4(id)))
            c.check(r.content.tagsFirst == (tag == P::BeforeData), "tag-position", "%s: tags are %s the data (%s)", what.c_str(), r.content.tagsFirst ? "before" : "after", r.rewritten ? "rewritten" : "updated");
        if ((!forcedOnly || forceIndex) && r.content.hasIndex)
            c.check(r.content.indexFirst == (index == P::BeforeData), "index-position", "%s: index is %s the data (%s)", what.c_str(), r.content.indexFirst ? "before" : "after",
                r.rewritten ? "rewritten" : "updated");
    };
    // padding
    const auto slack = isMkv(id) ? 24u : 0u;
    const auto minimum = isMp4(id) ? 8u : isMkv(id) ? 2u : id == fmts::Flac ? 4u : 0u; // size of the smallest padding element
    const bool canPad = id != fmts::Mp3 || !r.content.versions.empty();
    const auto fits = [&](std::size_t padding) { return padding >= l.min && padding <= l.max && (!padding || padding >= minimum); };
    if (r.rewritten) {
        positioned(false);
        auto expected = canPad ? l.preferred : 0;
        if (id == fmts::Flac && expected && r.content.versions.empty())
            expected += 4;
        if (isMp4(id) && expected)
            expected = std::max<std::size_t>(expected, 8);
        if (isMkv(id) && expected == 1)
            expected = l.max > 1 ? 2 : 0;
        c.check(r.content.padding == expected, "preferred-padding", "%s: padding is %zu and not %zu after rewriting", what.c_str(), r.content.padding, expected);
        c.check(!isMp4(id) || r.content.paddingTotal == expected, "total-padding", "%s: there is a total padding of %zu and not %zu after rewriting", what.c_str(), r.content.paddingTotal, expected);
    } else {
        positioned(true);
        c.check(!l.force, "forced", "%s: file not rewritten despite being forced", what.c_str());
        const auto p = r.content.padding;
        const auto within = (p >= l.min && p <= l.max) || (id == fmts::Flac && p >= 4 && p - 4 >= l.min && p - 4 <= l.max);
        if (canPad)
            c.check(within, "padding-limits", "%s: padding is %zu and not within %zu and %zu", what.c_str(), p, l.min, l.max);
        else
            c.check(!p, "padding-limits", "%s: there are %zu byte without ID3v2 tag", what.c_str(), p);
    }
    // no needless rewriting
    if (l.force || !canPad)
        return;
    const auto spare = static_cast<std::ptrdiff_t>(available) - static_cast<std::ptrdiff_t>(needed.media);
    bool all = true, none = true;
    for (auto s = spare - static_cast<std::ptrdiff_t>(slack); s <= spare + static_cast<std::ptrdiff_t>(slack); ++s) {
        auto ok = s >= 0 && fits(static_cast<std::size_t>(s));
        all = all && ok;
        none = none && !ok;
    }
    if (id == fmts::Flac && r.content.versions.empty() && spare >= 4 && (spare - 4 >= static_cast<std::ptrdiff_t>(l.min) && spare - 4 <= static_cast<std::ptrdiff_t>(l.max)) != all)
        return; // depends on whether the header of the padding counts
    c.check(!r.rewritten || !all, "needless-rewrite", "%s: file has been rewritten although %td of %zu byte could have been left as padding", what.c_str(), spare, available);
    if (forceTag && forceIndex)
        c.check(r.rewritten || !none, "limits-ignored", "%s: file has not been rewritten although that would leave %td byte", what.c_str(), spare);
}
const std::size_t paddings[] = { 0, 12, 60, 400, 3000 };
} // namespace

VT_SUITE(padding, std::size(ids) * std::size(paddings))
{
    const auto id = ids[c.top / std::size(paddings)];
    const auto existing = paddings[c.top % std::size(paddings)];
    Change e;
    // grows by so many byte
    static const int grows[] = { 0, 1, -1, -20, -7, 8, 300 };
    static const int limits[] = { 1, 0, -1, -2, -4, -7, -8, -9, -100, -130 }; // what will be left of the existing padding
    const auto which = c.choose(std::size(grows) + std::size(limits) + 1, "edit");
    if (which < std::size(grows))
        e.title = static_cast<std::size_t>(static_cast<int>(base) + grows[which]);
    else if (which < std::size(grows) + std::size(limits))
        e.title = static_cast<std::size_t>(std::max(1, static_cast<int>(base + existing) + limits[which - std::size(grows)]));
    else
        e.remove = true;
    static const std::size_t mins[] = { 0, 1, 8, 100 }, maxs[] = { 0, 8, 130, 0x10000 }, preferreds[] = { 0, 1, 7, 8, 90 };
    Layout l;
    l.min = c.pick(mins, "minimum");
    l.max = c.pick(maxs, "maximum");
    if (l.max < l.min)
        c.skip();
    l.preferred = l.min == 0 ? c.pick(preferreds, "preferred") : 50;
    if (l.min == 0 && (vt::thorough() || which < 3))
        l.force = c.flip("force rewriting");
    if (isMkv(id) || isMp4(id))
        switch (c.choose(vt::thorough() ? 4 : 3, "positions")) {
        case 0: l.tag = l.index = P::BeforeData; l.forceTag = l.forceIndex = true; break;
        case 1: break;
        case 2: l.tag = l.index = P::AfterData; l.forceTag = l.forceIndex = true; break;
        case 3: l.forceTag = l.forceIndex = true; break;
        }
    verify(c, id, fmts::formats[id].make(1500, Bytes(base, 't'), existing), existing, e, l);
}

VT_SUITE(positions, std::size(ids) * std::size(paddings))
{
    const auto id = ids[c.top / std::size(paddings)];
    const auto existing = paddings[c.top % std::size(paddings)];
    if (!isMkv(id) && !isMp4(id))
        c.skip();
    static const P positions[] = { P::BeforeData, P::AfterData, P::Keep };
    Layout l;
    l.tag = c.pick(positions, "tag position");
    l.index = c.pick(positions, "index position");
    l.forceTag = c.flip("force tag position");
    l.forceIndex = c.flip("force index position");
    Change e;
    static const std::size_t titles[] = { base, 10, 80, base + 200, base + 2000 };
    const auto which = c.choose(std::size(titles) + 1, "edit");
    e.remove = which == std::size(titles);
    if (!e.remove)
        e.title = titles[which];
    switch (c.choose(vt::thorough() ? 5 : 3, "padding")) {
    case 0: l.max = 0x10000; l.preferred = 30; break;
    case 1: l.min = 20; l.max = 1000; l.preferred = 100; break;
    case 2: l.max = 0x10000; l.force = true; break;
    case 3: l.max = 20; break;
    case 4: l.min = 1000; l.max = 5000; l.preferred = 1000; break;
    }
    verify(c, id, fmts::formats[id].make(1500, Bytes(base, 't'), existing), existing, e, l);
}
// free space between media data
VT_SUITE(betweenMedia, 7 * 4)
{
    static const char *const orders[] = { "fmdFd", "fmFdFd", "fmFdSd", "fmFdFuFd", "fdFdm", "fdFdFm", "fmFdFdF" };
    mp4::File f;
    f.order = orders[c.top % 7];
    f.tracks.resize(1);
    f.tracks[0].chunks = { { 100, 50 }, { 70 }, { 300 } };
    f.title = Bytes(base, 't');
    static const std::size_t sizes[] = { 8, 40, 200, 1000 };
    for (auto ch : f.order)
        if (ch == 'F' || ch == 'S')
            f.freeSizes.emplace_back(f.freeSizes.empty() ? sizes[c.top / 7] : c.pick(sizes, "size"));
    Change e;
    static const std::size_t titles[] = { base, base - 20, base + 8, base + 40, base + 300 };
    e.title = c.pick(titles, "title");
    Layout l;
    static const std::size_t maxs[] = { 0, 8, 60, 210, 0x10000 }, preferreds[] = { 0, 30 };
    l.max = c.pick(maxs, "maximum");
    l.preferred = l.max >= 60 ? c.pick(preferreds, "preferred") : 0;
    static const P positions[] = { P::BeforeData, P::AfterData, P::Keep };
    l.tag = l.index = c.pick(positions, "position");
    l.forceTag = l.forceIndex = c.flip("force position");
    std::size_t total = 0;
    for (auto n : f.freeSizes)
        total += n;
    const auto what = fmt("MP4 file of %s with %zu bytes free space, title of %zu byte: %s", f.order.c_str(), total, e.title, str(l).c_str());
    const auto original = mp4::build(f);
    const auto r = run(c, fmts::Mp4, original, e, l, "b", what);
    c.step();
    const auto before = fmts::content(c, fmts::Mp4, original);
    c.check(r.content.rest == before.rest, "media", "%s: media has changed from %s to %s", what.c_str(), before.rest.c_str(), r.content.rest.c_str());
    c.check(r.content.paddingTotal <= l.max, "total-padding", "%s: %s with %zu bytes free space", what.c_str(), r.rewritten ? "rewritten" : "updated", r.content.paddingTotal);
    c.check(!r.rewritten || r.content.paddingTotal == l.preferred, "total-padding", "%s: rewritten with %zu bytes free space", what.c_str(), r.content.paddingTotal);
    c.state(vt::hashStr(what, static_cast<unsigned>(r.content.paddingTotal)));
}
