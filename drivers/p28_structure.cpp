// P28: chapters, editions, attachments and file-level summaries are reported as stored.
#include "common.h"
#include "mkvfile.h"
#include "mp4file.h"
#include "save.h"

#include <tagparser/localehelper.h>
#include <tagparser/matroska/matroskaattachment.h>
#include <tagparser/matroska/matroskachapter.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskaeditionentry.h>

#include <sstream>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P28";
const char *vt::rule = "all combinations of present/absent/extreme values of the fields of chapters, all chapter names with up to two displays x languages, all trees of up to 5 (thorough: 6) chapters in up "
                       "to 3 editions spread over several elements and segments, all attachments with present/absent/repeated/empty fields in any order, all combinations of tracks' languages; "
                       "states = distinct reported structures";
const char *vt::assumptions = "times have a precision of 100 ns|whether the default language is added if only a country is present is not claimed";

namespace {
using namespace ebml;
struct Text {
    Bytes string;
    std::vector<std::pair<Bytes, LocaleFormat>> locale;
};
struct Chapter {
    std::uint64_t uid = 0;
    std::int64_t start = -1, end = -1; // 100 ns
    bool hidden = false, enabled = true;
    std::vector<Text> names;
    std::vector<std::uint64_t> tracks;
    std::vector<Chapter> kids;
};
struct Edition {
    std::uint64_t uid = 0;
    bool hidden = false, def = false, ordered = false;
    std::vector<Chapter> chapters;
};
Bytes dump(const Chapter &c)
{
    Bytes r = fmt("{%llu %lld-%lld%s%s", (unsigned long long)c.uid, (long long)c.start, (long long)c.end, c.hidden ? " hidden" : "", c.enabled ? "" : " disabled");
    for (auto &n : c.names) {
        r += " \"" + n.string + "\"";
        for (auto &l : n.locale)
            r += fmt(" %d:", static_cast<int>(l.second)) + l.first;
    }
    for (auto t : c.tracks)
        r += fmt(" track %llu", (unsigned long long)t);
    for (auto &k : c.kids)
        r += " " + dump(k);
    return r + "}";
}
Bytes dump(const Edition &e)
{
    Bytes r = fmt("[%llu%s%s%s", (unsigned long long)e.uid, e.hidden ? " hidden" : "", e.def ? " default" : "", e.ordered ? " ordered" : "");
    for (auto &c : e.chapters)
        r += " " + dump(c);
    return r + "]";
}
Chapter read(AbstractChapter &a)
{
    Chapter r;
    r.uid = a.id();
    r.start = a.startTime().totalTicks();
    r.end = a.endTime().totalTicks();
    r.hidden = a.isHidden();
    r.enabled = a.isEnabled();
    for (auto &n : a.names()) {
        Text t;
        t.string = n;
        for (auto &l : n.locale())
            t.locale.emplace_back(l, l.format);
        r.names.push_back(t);
    }
    r.tracks = a.tracks();
    for (std::size_t i = 0; i < a.nestedChapterCount(); ++i)
        r.kids.push_back(read(*a.nestedChapter(i)));
    return r;
}
// parses chapters and compares them
void checkChapters(Ctx &c, const mkv::File &f, const std::vector<Edition> &want)
{
    const std::string path = c.file("in.mkv");
    const auto bytes = mkv::build(f);
    vt::writeFile(path, bytes);
    Session s(path);
    auto &m = s.file;
    m.open(true);
    m.parseContainerFormat(s.diag, s.progress);
    for (int pass = 0; pass < 2; ++pass) {
        m.parseChapters(s.diag, s.progress);
        c.check(m.chaptersParsingStatus() == ParsingStatus::Ok, "status", "chapters could not be parsed: %s", diagText(s.diag).c_str());
        auto *container = dynamic_cast<MatroskaContainer *>(m.container());
        c.check(container, "container", "no Matroska container");
        Bytes wanted, got;
        std::vector<Bytes> flat;
        for (auto &e : want) {
            wanted += dump(e);
            for (auto &x : e.chapters)
                flat.push_back(dump(x));
        }
        for (auto &entry : container->editionEntires()) {
            Edition e;
            e.uid = entry->id();
            e.hidden = entry->isHidden();
            e.def = entry->isDefault();
            e.ordered = entry->isOrdered();
            for (auto &x : entry->chapters())
                e.chapters.push_back(read(*x));
            got += dump(e);
        }
        c.step();
        c.state(vt::hashStr(got, 28));
        c.check(got == wanted, "chapters", "reported: %s stored: %s", got.c_str(), wanted.c_str());
        const auto all = m.chapters();
        c.check(all.size() == flat.size() && container->chapterCount() == flat.size() && !container->chapter(flat.size()), "count", "%zu chapters instead of %zu", all.size(), flat.size());
        for (std::size_t i = 0; i < flat.size(); ++i)
            c.check(dump(read(*all[i])) == flat[i], "list", "chapter %zu is %s instead of %s", i, dump(read(*all[i])).c_str(), flat[i].c_str());
    }
    c.check(!hasLevel(s.diag, DiagLevel::Critical), "critical", "critical problem: %s", diagText(s.diag).c_str());
}
mkv::File withChapters(std::vector<std::vector<Bytes>> contents, const char *order)
{
    mkv::File f;
    for (auto &x : contents) {
        mkv::SegmentSpec s;
        s.order = order;
        s.clusters = { { 0 } };
        s.chapterContents = x;
        f.segments.push_back(s);
    }
    return f;
}
Bytes number(std::uint64_t id, std::uint64_t v, unsigned width)
{
    return elU(id, v, static_cast<int>(width));
}
Bytes atom(const Chapter &x, const Bytes &extra = Bytes())
{
    Bytes d = elU(ChapterUID, x.uid);
    if (x.start >= 0)
        d += elU(ChapterTimeStart, static_cast<std::uint64_t>(x.start) * 100 + 99);
    for (auto &n : x.names)
        d += el(ChapterDisplay, el(ChapString, n.string) + el(ChapLanguage, n.locale.at(0).first));
    for (auto &k : x.kids)
        d += atom(k);
    return el(ChapterAtom, d + extra);
}
} // namespace

// numbers and flags of a chapter
VT_SUITE(fields, 6 * 4)
{
    Chapter x;
    Bytes d[5];
    static const std::uint64_t starts[] = { ~0ull, 0, 99, 100, 1234567890123ull, 922337203685477580ull };
    const auto start = starts[c.top / 4];
    if (start != ~0ull) {
        d[0] = number(ChapterTimeStart, start, c.top % 2 ? 8 : 0);
        x.start = static_cast<std::int64_t>(start / 100);
    }
    static const std::uint64_t ends[] = { ~0ull, 0, 3600000000000ull, 9223372036854775807ull };
    const auto end = ends[c.top % 4];
    if (end != ~0ull) {
        d[1] = number(ChapterTimeEnd, end, 0);
        x.end = static_cast<std::int64_t>(end / 100);
    }
    static const std::uint64_t uids[] = { 0, 1, 255, 256, 0xFFFFFFFFull, ~0ull };
    x.uid = c.pick(uids, "uid");
    const auto width = c.choose(2, "width") ? 8u : 0u;
    if (const auto h = c.choose(3, "hidden")) {
        d[2] = number(ChapterFlagHidden, h - 1, width);
        x.hidden = h == 2;
    }
    if (const auto e = c.choose(3, "enabled")) {
        d[3] = number(ChapterFlagEnabled, e - 1, width);
        x.enabled = e == 2;
    }
    d[4] = number(ChapterUID, x.uid, x.uid >> 32 ? 8 : width);
    Bytes content;
    const auto order = c.choose(4, "order");
    for (int i = 0; i < 5; ++i)
        content += d[order == 0 ? i : order == 1 ? 4 - i : (i * (order == 2 ? 2 : 3) + 1) % 5] + (order == 3 ? voidEl(5) : Bytes());
    static const Bytes others[] = { Bytes(), el(0x5654, "string uid") + el(0x6E67, filler(16, 1)) + elU(0x63C3, 60), el(0x6944, elU(0x6955, 0)), el(0x4DBF, "unknown") };
    content += c.pick(others, "others");
    Edition e;
    e.uid = 5;
    e.chapters.push_back(x);
    checkChapters(c, withChapters({ { el(EditionEntry, elU(EditionUID, 5) + el(ChapterAtom, content)) } }, "SVITHK"), { e });
}
// names
VT_SUITE(names, 5 * 6)
{
    static const char *const strings[] = { nullptr, "", "name", "n\xC3\xA4me \xE2\x82\xAC \xF0\x9F\x8E\xB5", "name \"quoted\"\nline" };
    static const std::vector<std::pair<Bytes, LocaleFormat>> locales[] = {
        {},
        { { "ger", LocaleFormat::ISO_639_2_B } },
        { { "eng", LocaleFormat::ISO_639_2_B }, { "us", LocaleFormat::DomainCountry } },
        { { "de-AT", LocaleFormat::BCP_47 } },
        { { "ger", LocaleFormat::ISO_639_2_B }, { "fre", LocaleFormat::ISO_639_2_B }, { "de", LocaleFormat::DomainCountry }, { "fr", LocaleFormat::DomainCountry } },
        { { "und", LocaleFormat::ISO_639_2_B }, { "zh-Hant", LocaleFormat::BCP_47 } },
    };
    Chapter x;
    x.uid = 1;
    Bytes content = elU(ChapterUID, 1);
    const auto count = c.choose(vt::thorough() ? 3 : 2, "displays") + 1;
    for (std::uint32_t n = 0; n < count; ++n) {
        Text t;
        const auto *str = strings[n ? c.choose(5, "string") : c.top % 5];
        const auto l = n ? c.choose(6, "locale") : c.top / 5;
        const auto before = c.flip("language before string");
        Bytes languages;
        for (auto &[v, format] : locales[l])
            languages += el(format == LocaleFormat::ISO_639_2_B ? ChapLanguage : format == LocaleFormat::BCP_47 ? std::uint64_t(0x437D) : ChapCountry, v);
        const Bytes string = str ? el(ChapString, str) : Bytes();
        content += el(ChapterDisplay, (before ? languages + string : string + languages) + (n ? voidEl(4) : Bytes()));
        t.string = str ? str : "";
        t.locale = locales[l];
        if (t.locale.empty())
            t.locale = { { "eng", LocaleFormat::ISO_639_2_B } };
        x.names.push_back(t);
    }
    if (c.flip("zero padding"))
        content += elU(ChapterTimeStart, 0, 8), x.start = 0;
    Edition e;
    e.chapters.push_back(x);
    checkChapters(c, withChapters({ { el(EditionEntry, el(ChapterAtom, content)) } }, c.flip("at the end") ? "SVITKH" : "SVITHK"), { e });
}
// tracks chapters apply to
VT_SUITE(tracks, 4 * 4)
{
    static const std::uint64_t ids[] = { 1, 127, 0x1234567890ull, ~0ull };
    Chapter x;
    x.uid = 1;
    Bytes content = elU(ChapterUID, 1);
    for (std::size_t n = 0, count = c.top % 4; n <= count; ++n) {
        if (n && c.top / 4 == 0)
            break; // no tracks at all
        Bytes numbers;
        if (c.top / 4)
            for (std::size_t k = 0; k < c.top / 4; ++k) {
                const auto id = c.pick(ids, "track");
                numbers += elU(ChapterTrackNumber, id, id == 1 && k ? 8 : 0);
                x.tracks.push_back(id);
                if (n > 1)
                    break;
            }
        if (!numbers.empty())
            content += el(ChapterTrack, numbers);
        if (n > 1)
            break;
    }
    Edition e;
    e.chapters.push_back(x);
    checkChapters(c, withChapters({ { el(EditionEntry, el(ChapterAtom, content)) } }, "SVITHK"), { e });
}
// trees: each chapter is a child of any chapter of the current path (or of its edition, or begins a new edition, element or segment)
VT_SUITE(trees, 24)
{
    static const char *const orders[] = { "SVITHHHKK", "SVITKKHHH", "SITHVHKKH", "ITKHHKH", "SITHKHKH", "HHHSITKK" };
    const auto *const order = orders[c.top % 6];
    struct Element {
        std::vector<Edition> editions;
    };
    std::vector<std::vector<Element>> segments(1, std::vector<Element>(1));
    segments[0][0].editions.emplace_back();
    segments[0][0].editions.back().uid = 1000;
    const auto flags = static_cast<unsigned>(c.top / 6);
    std::size_t count = 0;
    std::vector<std::size_t> path; // indexes below the current edition
    const auto make = [&](std::size_t i) {
        Chapter x;
        x.uid = i + 1;
        x.start = static_cast<std::int64_t>(i * 10000000);
        x.names.push_back({ fmt("chapter %zu", i), { { "ger", LocaleFormat::ISO_639_2_B } } });
        return x;
    };
    const auto editionFlags = [&](Edition &e) {
        const auto k = (flags + e.uid - 1000) % 8;
        e.hidden = k & 1;
        e.def = k & 2;
        e.ordered = k & 4;
    };
    editionFlags(segments[0][0].editions[0]);
    std::uint64_t editions = 1;
    for (const std::size_t limit = vt::thorough() ? 6 : 5; count < limit; ++count) {
        // 0: end, 1: new segment, 2: new element, 3: new edition, 4…: child of the n-th chapter on the path
        const auto k = c.choose(static_cast<std::uint32_t>(5 + path.size()), "where");
        if (!k)
            break;
        if (k <= 3) {
            if (editions == 3)
                c.skip();
            if (k == 1)
                segments.emplace_back(1);
            else if (k == 2) {
                segments.back().emplace_back();
                if (segments.back().size() > 3)
                    c.skip();
            }
            auto &es = segments.back().back().editions;
            es.emplace_back();
            es.back().uid = 1000 + editions++;
            editionFlags(es.back());
            path.clear();
            if (c.flip("stays empty"))
                continue;
        }
        path.resize(k <= 3 ? 0 : k - 4);
        auto *list = &segments.back().back().editions.back().chapters;
        for (auto i : path)
            list = &(*list)[i].kids;
        list->push_back(make(count));
        path.push_back(list->size() - 1);
    }
    mkv::File f;
    std::vector<Edition> want;
    for (auto &s : segments) {
        mkv::SegmentSpec spec;
        spec.order = order;
        spec.clusters = { { 0 }, { 1000 } };
        spec.salt = static_cast<unsigned>(f.segments.size());
        while (static_cast<std::size_t>(std::count(spec.order.begin(), spec.order.end(), 'H')) > s.size())
            spec.order.erase(spec.order.rfind('H'), 1);
        for (auto &element : s) {
            Bytes content;
            for (auto &e : element.editions) {
                Bytes entry = elU(EditionUID, e.uid) + elU(EditionFlagHidden, e.hidden) + elU(EditionFlagDefault, e.def) + elU(EditionFlagOrdered, e.ordered);
                for (auto &x : e.chapters)
                    entry += atom(x);
                content += el(EditionEntry, entry) + (flags == 1 ? voidEl(9) : Bytes());
                want.push_back(e);
            }
            spec.chapterContents.push_back(content);
        }
        f.segments.push_back(spec);
    }
    checkChapters(c, f, want);
}
// attachments
VT_SUITE(attachments, 5 * 6)
{
    struct Attachment {
        Bytes description, name, mime, data;
        std::uint64_t uid = 0;
    };
    static const char *const orders[] = { "SVITAK", "SVITKA", "SVITAAK", "SITKAKA", "ITKA" };
    const auto *const order = orders[c.top % 5];
    static const std::size_t sizes[] = { 0, 1, 126, 127, 16383, 70000 };
    const auto size = sizes[c.top / 5];
    static const char *const texts[] = { nullptr, "", "text", "t\xC3\xA4xt.bin" };
    std::vector<Attachment> want;
    mkv::SegmentSpec spec;
    spec.order = order;
    spec.clusters = { { 0 }, { 1000 } };
    const auto elements = static_cast<std::size_t>(std::count(spec.order.begin(), spec.order.end(), 'A'));
    const auto first = c.choose(4, "description"), second = c.choose(4, "name"), third = c.choose(4, "mime"), uid = c.choose(4, "uid"), arrangement = c.choose(5, "arrangement");
    for (std::size_t k = 0; k < elements; ++k) {
        spec.attachedFiles.emplace_back();
        for (std::size_t n = 0; n < 2; ++n) {
            Attachment a;
            static const std::uint64_t uids[] = { 0, 1, 0xFFFFFFFFFFull, ~0ull };
            Bytes d[5];
            const auto rot = k * 2 + n; // the further ones use other combinations
            const auto *s = texts[(first + rot) % 4];
            d[0] = s ? el(FileDescription, s) : Bytes();
            a.description = s ? s : "";
            s = texts[(second + rot) % 4];
            d[1] = s ? el(FileName, s) : Bytes();
            a.name = s ? s : "";
            s = texts[(third + rot) % 4];
            d[2] = s ? el(FileMimeType, s) : Bytes();
            a.mime = s ? s : "";
            a.data = filler(rot ? 20 + rot : size, static_cast<unsigned>(rot));
            d[3] = el(FileData, a.data, arrangement == 2 ? 8 : 0);
            a.uid = uids[(uid + rot) % 4];
            d[4] = a.uid ? elU(FileUID, a.uid) : Bytes();
            Bytes content;
            for (int i = 0; i < 5; ++i)
                content += d[arrangement == 0 ? i : arrangement == 1 ? 4 - i : (i * 2 + 3) % 5] + (arrangement == 3 ? voidEl(6) : Bytes());
            if (arrangement == 4) { // surplus elements are ignored
                content += el(FileData, "surplus data");
                if (!a.name.empty())
                    content += el(FileName, "surplus");
                if (!a.description.empty())
                    content += el(FileDescription, "surplus");
                if (!a.mime.empty())
                    content += el(FileMimeType, "surplus");
                if (a.uid)
                    content += elU(FileUID, 4711);
            }
            spec.attachedFiles.back().push_back(el(AttachedFile, content));
            want.push_back(a);
        }
    }
    mkv::File f;
    f.segments.push_back(spec);
    const std::string path = c.file("in.mkv");
    vt::writeFile(path, mkv::build(f));
    Session s(path);
    auto &m = s.file;
    m.open(true);
    m.parseContainerFormat(s.diag, s.progress);
    m.parseAttachments(s.diag, s.progress);
    c.check(m.attachmentsParsingStatus() == ParsingStatus::Ok, "status", "attachments could not be parsed: %s", diagText(s.diag).c_str());
    const auto got = m.attachments();
    c.check(got.size() == want.size(), "attachments", "%zu attachments instead of %zu", got.size(), want.size());
    for (std::size_t i = 0; i < want.size(); ++i) {
        auto &g = *got[i];
        auto &w = want[i];
        c.step();
        c.check(g.description() == w.description && g.name() == w.name && g.mimeType() == w.mime && g.id() == w.uid, "attachment", "attachment %zu is \"%s\", \"%s\", \"%s\", %llu", i, g.description().c_str(),
            g.name().c_str(), g.mimeType().c_str(), (unsigned long long)g.id());
        c.check(g.data(), "data", "attachment %zu has no data", i);
        c.check(static_cast<std::size_t>(g.data()->size()) == w.data.size(), "data-size", "attachment %zu has %lld bytes instead of %zu", i, (long long)g.data()->size(), w.data.size());
        std::stringstream out;
        if (!w.data.empty())
            g.data()->copyTo(out);
        c.check(out.str() == w.data, "data", "data of attachment %zu differs (%zu bytes)", i, out.str().size());
        c.state(vt::hashStr(fmt("%zu %llu", w.data.size(), (unsigned long long)w.uid) + w.name + "|" + w.mime + "|" + w.description, 29));
    }
}
// languages and further summaries of files with several tracks
VT_SUITE(summary, 36)
{
    static const struct {
        const char *language, *ietf, *shown;
    } languages[] = { { nullptr, nullptr, "eng" }, { "ger", nullptr, "ger" }, { "und", nullptr, nullptr }, { nullptr, "pt-BR", "pt-BR" }, { "chi", "zh-Hant", "zh-Hant" }, { "fre", nullptr, "fre" } };
    static const unsigned types[] = { 1, 2, 17 };
    static const MediaType mediaTypes[] = { MediaType::Video, MediaType::Audio, MediaType::Text };
    mkv::SegmentSpec spec;
    spec.order = "SVITKK";
    spec.clusters = { { 0 }, { 1000 } };
    const auto duration = c.choose(2, "duration");
    spec.infoExtras = duration;
    std::set<std::string> want[4]; // per type and all
    const auto count = c.choose(3, "tracks") + 1;
    for (std::uint32_t n = 0; n < count; ++n) {
        const auto l = n == 0 ? c.top % 6 : n == 1 ? c.top / 6 : c.choose(6, "language");
        const auto t = c.choose(3, "type");
        Bytes b = elU(TrackNumber, n + 1) + elU(TrackUID, n + 10) + elU(ebml::TrackType, types[t]) + el(CodecID, "X_TEST");
        if (languages[l].language)
            b += el(Language, languages[l].language);
        if (languages[l].ietf)
            b += el(LanguageIETF, languages[l].ietf);
        spec.trackEntries.push_back(el(TrackEntry, b));
        if (languages[l].shown) {
            want[t].insert(languages[l].shown);
            want[3].insert(languages[l].shown);
        }
    }
    mkv::File f;
    f.segments.push_back(spec);
    const std::string path = c.file("in.mkv");
    const auto bytes = mkv::build(f);
    vt::writeFile(path, bytes);
    Session s(path);
    auto &m = s.file;
    m.open(true);
    c.check(m.availableLanguages(MediaType::Unknown).empty() && m.technicalSummary().empty() && m.tracks().empty(), "not-parsed", "information is available before parsing");
    m.parseContainerFormat(s.diag, s.progress);
    m.parseTracks(s.diag, s.progress);
    c.check(m.tracksParsingStatus() == ParsingStatus::Ok, "status", "tracks could not be parsed: %s", diagText(s.diag).c_str());
    c.check(m.trackCount() == count && m.tracks().size() == count, "tracks", "%zu tracks instead of %u", m.trackCount(), count);
    c.step();
    Bytes key;
    for (int t = 0; t < 4; ++t) {
        const auto got = m.availableLanguages(t == 3 ? MediaType::Unknown : mediaTypes[t]);
        const std::set<std::string> sorted(got.begin(), got.end());
        Bytes g, w;
        for (auto &x : sorted)
            g += x + " ";
        for (auto &x : want[t])
            w += x + " ";
        c.check(g == w, "languages", "languages (%d) are %s instead of %s", t, g.c_str(), w.c_str());
        key += w + "|";
        if (t < 3) {
            const auto has = m.hasTracksOfType(mediaTypes[t]);
            bool wanted = false;
            for (auto *track : m.tracks())
                wanted = wanted || track->mediaType() == mediaTypes[t];
            c.check(has == wanted, "has-tracks", "hasTracksOfType(%d) is %d", t, has);
        }
    }
    c.state(vt::hashStr(key, 30));
    Bytes summary;
    for (auto *track : m.tracks())
        if (const auto d = track->description(); !d.empty())
            summary += (summary.empty() ? "" : " / ") + d;
    c.check(m.technicalSummary() == summary, "summary", "technical summary is \"%s\" instead of \"%s\"", m.technicalSummary().c_str(), summary.c_str());
    c.check(m.duration().totalTicks() == (duration ? 100000000 : 0), "duration", "duration is %lld", (long long)m.duration().totalTicks());
    const double rate = duration ? static_cast<double>(bytes.size()) * 8 / 10.0 / 1024 : 0;
    c.check(std::abs(m.overallAverageBitrate() - rate) < 1e-9 * (1 + rate), "bitrate", "bitrate is %f instead of %f", m.overallAverageBitrate(), rate);
}
// details of locales
VT_SUITE(locales, 4 * 6)
{
    static const LocaleFormat formats[] = { LocaleFormat::Unknown, LocaleFormat::ISO_639_1, LocaleFormat::ISO_639_2_T, LocaleFormat::ISO_639_2_B, LocaleFormat::DomainCountry, LocaleFormat::BCP_47 };
    static const char *const values[] = { "", "und", "ger", "eng" };
    Locale l;
    struct Detail {
        std::string value;
        std::size_t format;
    };
    std::vector<Detail> ds{ { values[c.top % 4], c.top / 4 } };
    for (int n = 0; n < 2; ++n)
        if (const auto k = c.choose(4 * 6 + 1, "further detail"))
            ds.push_back({ values[(k - 1) % 4], (k - 1) / 4 });
        else
            break;
    std::string joined;
    for (auto &d : ds) {
        l.emplace_back(std::string_view(d.value), formats[d.format]);
        if (!d.value.empty())
            joined += (joined.empty() ? "" : ", ") + d.value;
    }
    const auto defined = [](const std::string &s) { return !s.empty() && s != "und"; };
    for (std::size_t k = 0; k < 6; ++k) {
        std::string want;
        for (auto &d : ds)
            if (d.format == k && defined(d.value) && want.empty())
                want = d.value;
        const std::string got = l.abbreviatedName(formats[k]);
        c.check(got == want, "abbreviated", "abbreviated name of format %zu is \"%s\" instead of \"%s\"", k, got.c_str(), want.c_str());
        // a second format is only considered if the first one is not present
        const std::string two = l.abbreviatedName(formats[k], LocaleFormat::ISO_639_2_B), b = l.abbreviatedName(LocaleFormat::ISO_639_2_B);
        c.check(two == (want.empty() ? b : want), "abbreviated2", "abbreviated name of format %zu or ISO 639-2/B is \"%s\"", k, two.c_str());
        // the preferred format if present, otherwise the most relevant detail
        const std::string some = l.someAbbreviatedName(formats[k]);
        if (!want.empty() && std::none_of(ds.begin(), ds.end(), [&](auto &d) { return d.format == k && !defined(d.value); }))
            c.check(some == want, "some", "some abbreviated name is \"%s\" instead of \"%s\" although the latter has the preferred format", some.c_str(), want.c_str());
        c.check(some.empty() || std::any_of(ds.begin(), ds.end(), [&](auto &d) { return d.value == some; }), "some-present", "\"%s\" is not present", some.c_str());
    }
    c.check(l.toString() == joined, "string", "string is \"%s\" instead of \"%s\"", l.toString().c_str(), joined.c_str());
    c.step(8);
}
