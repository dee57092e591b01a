// P21: track, chapter and attachment edits are saved faithfully.
#include "digest.h"
#include "flac.h"
#include "mkvfile.h"
#include "mp4file.h"
#include "save.h"

#include <tagparser/localehelper.h>
#include <tagparser/matroska/matroskaattachment.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskaid.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4tag.h>

#include <functional>

using namespace ref;

const char *vt::property = "P21";
const char *vt::rule = "files with 1-3 tracks and 0-3 attachments (before/behind the clusters, indexed or not, with optional/unknown children) x every edit of an alphabet (name, locale, flags and ID of every track; name, "
                       "MIME-type, description, ID, content, ignoring of every attachment; new attachments; removal, re-adding and adding of tracks; title) x every second edit, saved together or one after another x "
                       "layout preferences; an own model is edited the same way and compared with what an independent decoder reads from the saved file and with what the library reports after reopening; "
                       "states = distinct saved files";
const char *vt::assumptions = "a missing or undefined language is stored as und in Matroska and as zero in MP4|the order of attachments and track header children is not significant|track numbers, chapters and the media "
                              "type are not editable|references to IDs within tags, chapters and track references are not adjusted when an ID is edited|new attachments get content before saving";

namespace {
const Layout layouts[] = {
    { 0, 1u << 20, 0, false },
    { 0, 1u << 20, 0, true },
    { 0, 1u << 20, 10, true, ElementPosition::AfterData, ElementPosition::AfterData, true, true },
    { 0, 1u << 20, 300, true, ElementPosition::BeforeData, ElementPosition::BeforeData, true, true },
    { 0, 1u << 20, 10, false, ElementPosition::BeforeData, ElementPosition::AfterData, true, true },
    { 0, 1u << 20, 2, false, ElementPosition::Keep, ElementPosition::Keep, false, false, true },
    { 16, 64, 32, false },
    { 0, 0, 0, false, ElementPosition::AfterData, ElementPosition::Keep, true, false },
};
constexpr std::size_t nLayouts = std::size(layouts);
using Locales = std::vector<std::pair<Bytes, LocaleFormat>>;
Locale locale(const Locales &l)
{
    Locale r;
    for (auto &[s, f] : l)
        r.emplace_back(s, f);
    return r;
}
const Bytes longName(std::size_t n)
{
    Bytes r;
    for (std::size_t i = 0; i < n; ++i)
        r += static_cast<char>('a' + i % 26);
    return r;
}
constexpr auto B = LocaleFormat::ISO_639_2_B, T = LocaleFormat::ISO_639_2_T, IETF = LocaleFormat::BCP_47, U = LocaleFormat::Unknown;

// Matroska
constexpr std::uint64_t FileReferral = 0x4675, FileUsedStartTime = 0x4661, FileUsedEndTime = 0x4662;
struct MTrack {
    std::uint64_t number = 0, uid = 0;
    bool flags[3] = { true, true, false }; // enabled, default, forced
    Bytes name, language = "eng", ietf, rest;
};
struct MAttachment {
    std::uint64_t uid = 0;
    Bytes name, mime, description, data, rest, stored; // stored = content when opening the file
    bool known = true, hasData = true, gone = false;
};
struct MFile {
    std::vector<MTrack> tracks;
    std::vector<MAttachment> attachments;
    Bytes title;
    mkv::Summary rest;
};
Bytes dump(const MTrack &t)
{
    return fmt("no %llu uid %llu flags %d%d%d name %s language %s/%s ", static_cast<unsigned long long>(t.number), static_cast<unsigned long long>(t.uid), t.flags[0], t.flags[1], t.flags[2], quote(t.name, 5000).c_str(),
               t.language.c_str(), t.ietf.c_str())
        + t.rest;
}
Bytes dump(const MAttachment &a)
{
    return fmt("uid %llu name %s mime %s description %s data %d size %zu %016llx ", static_cast<unsigned long long>(a.uid), quote(a.name, 5000).c_str(), quote(a.mime).c_str(), quote(a.description, 5000).c_str(), a.hasData,
               a.data.size(), static_cast<unsigned long long>(vt::hashStr(a.data)))
        + a.rest;
}
MFile readMkv(Ctx &c, const Bytes &b)
{
    MFile r;
    r.rest = mkv::summarise(c, b);
    for (auto &seg : ebml::decode(c, b)) {
        for (auto &e : seg.kids) {
            if (e.id == ebml::Tracks)
                for (auto &k : e.kids) {
                    if (k.id != ebml::TrackEntry)
                        continue;
                    MTrack t;
                    t.number = k.u(ebml::TrackNumber);
                    t.uid = k.u(ebml::TrackUID);
                    t.flags[0] = k.u(ebml::FlagEnabled, 1);
                    t.flags[1] = k.u(ebml::FlagDefault, 1);
                    t.flags[2] = k.u(ebml::FlagForced, 0);
                    t.name = k.s(ebml::Name);
                    t.language = k.s(ebml::Language, "eng");
                    t.ietf = k.s(ebml::LanguageIETF);
                    std::vector<Bytes> rest;
                    for (auto &x : k.kids) {
                        switch (x.id) {
                        case ebml::TrackNumber: case ebml::TrackUID: case ebml::FlagEnabled: case ebml::FlagDefault: case ebml::FlagForced: case ebml::Name: case ebml::Language: case ebml::LanguageIETF:
                            c.check(k.count(x.id) == 1, "track-children", "element %llX is present %zu times", static_cast<unsigned long long>(x.id), k.count(x.id));
                            break;
                        case ebml::Void: case ebml::Crc32:
                            break;
                        default:
                            rest.push_back(mkv::canonical(x));
                        }
                    }
                    std::sort(rest.begin(), rest.end());
                    for (auto &x : rest)
                        t.rest += x;
                    r.tracks.push_back(std::move(t));
                }
            if (e.id == ebml::Attachments)
                for (auto &k : e.kids) {
                    if (k.id != ebml::AttachedFile)
                        continue;
                    MAttachment a;
                    a.uid = k.u(ebml::FileUID);
                    a.name = k.s(ebml::FileName);
                    a.mime = k.s(ebml::FileMimeType);
                    a.description = k.s(ebml::FileDescription);
                    a.data = k.s(ebml::FileData);
                    a.hasData = k.kid(ebml::FileData);
                    std::vector<Bytes> rest;
                    for (auto &x : k.kids)
                        switch (x.id) {
                        case ebml::FileUID: case ebml::FileName: case ebml::FileMimeType: case ebml::FileDescription: case ebml::FileData:
                            c.check(k.count(x.id) == 1, "attachment-children", "element %llX is present %zu times", static_cast<unsigned long long>(x.id), k.count(x.id));
                            break;
                        case ebml::Void: case ebml::Crc32:
                            break;
                        default:
                            rest.push_back(mkv::canonical(x));
                        }
                    std::sort(rest.begin(), rest.end());
                    for (auto &x : rest)
                        a.rest += x;
                    r.attachments.push_back(std::move(a));
                }
        }
    }
    if (!r.rest.tagTitles.empty())
        r.title = r.rest.tagTitles[0];
    return r;
}
Bytes trackEntry(unsigned no, int variant)
{
    Bytes t = ebml::elU(ebml::TrackNumber, no, variant == 2 ? 2 : 0) + ebml::elU(ebml::TrackUID, variant == 2 ? 0x1122334455667788ull + no : 1000 + no);
    t += ebml::elU(ebml::TrackType, no == 1 ? 1 : no == 2 ? 2 : 0x11);
    if (variant != 1)
        t += ebml::elU(ebml::FlagEnabled, variant != 4) + ebml::elU(ebml::FlagDefault, no == 1) + ebml::elU(ebml::FlagForced, variant == 4) + ebml::el(ebml::Language, variant == 4 ? "und" : variant == 3 ? "mul" : "ger");
    t += ebml::elU(ebml::FlagLacing, 0) + ebml::el(ebml::CodecID, no == 1 ? "V_VP8" : no == 2 ? "A_VORBIS" : "S_TEXT/UTF8");
    if (variant == 2)
        t += ebml::el(ebml::Name, "tr\xC3\xA4" "ck") + ebml::el(ebml::LanguageIETF, "de-AT");
    if (variant == 4)
        t += ebml::voidEl(5) + ebml::el(ebml::ContentEncodings, ebml::el(ebml::ContentEncoding, ebml::el(ebml::ContentCompression, ebml::elU(0x4254, 3)))) + ebml::el(0x4DBF, filler(7, 3));
    if (variant == 5)
        t += ebml::el(ebml::LanguageIETF, "und");
    if (no == 1)
        t += ebml::elU(ebml::DefaultDuration, 40000000) + ebml::el(ebml::Video, ebml::elU(ebml::PixelWidth, 320) + ebml::elU(ebml::PixelHeight, 240));
    else if (no == 2)
        t += ebml::el(ebml::CodecPrivate, filler(variant == 3 ? 200 : 20, 3)) + ebml::el(ebml::Audio, ebml::el(ebml::SamplingFrequency, BE(0x40E7700000000000ull, 8)) + ebml::elU(ebml::Channels, 2));
    return ebml::el(ebml::TrackEntry, variant == 3 ? mkv::withCrc(t) : t);
}
Bytes attachedFile(unsigned n, int variant)
{
    Bytes a = ebml::el(ebml::FileName, fmt("a%u.bin", n)) + ebml::el(ebml::FileMimeType, n % 2 ? "application/x" : "image/png");
    if (variant != 1)
        a += ebml::el(ebml::FileDescription, "desc");
    a += ebml::el(ebml::FileData, filler(variant == 5 ? 0 : variant == 4 ? 16500 : 30 + n, 90 + n));
    if (variant == 2)
        a += ebml::el(FileReferral, filler(5, 6)) + ebml::elU(FileUsedStartTime, 1) + ebml::elU(FileUsedEndTime, 1000);
    a += ebml::elU(ebml::FileUID, variant == 1 ? 0x8877665544332200ull + n : 600 + n);
    if (variant == 2)
        a += ebml::voidEl(9);
    return ebml::el(ebml::AttachedFile, variant == 3 ? mkv::withCrc(a) : a, variant == 2 ? 4 : 0);
}
constexpr std::size_t nMkv = 7;
struct MkvBase {
    Bytes file;
    std::set<std::uint64_t> unindexed; // attachments which are not found when parsing
};
MkvBase mkvBase(std::size_t i)
{
    static const char *const orders[nMkv] = { "SIVTKK", "SVITHGACKKK", "SIVTHGKKKCA", "SVITAHGKKCA", "SITGAVHKKC", "SIGHKKKTAV", "SITGHVACKK" };
    mkv::File f;
    f.segments.emplace_back();
    auto &s = f.segments[0];
    s.order = orders[i];
    s.voidSize = i == 0 ? 20 : i == 4 ? 2000 : 400;
    for (auto ch : s.order)
        if (ch == 'K') {
            s.clusters.emplace_back();
            s.clusters.back().timecode = s.clusters.size() * 1000;
            s.clusters.back().blocks = { 40 + s.clusters.size(), 25 };
        }
    MkvBase r;
    switch (i) {
    case 0:
        s.trackEntries = { trackEntry(1, 0) };
        break;
    case 1:
        s.trackEntries = { trackEntry(1, 0), trackEntry(2, 2) };
        s.attachedFiles = { { attachedFile(1, 0), attachedFile(2, 1) } };
        break;
    case 2:
        s.trackEntries = { trackEntry(1, 2), trackEntry(2, 1), trackEntry(3, 4) };
        s.attachedFiles = { { attachedFile(1, 4), attachedFile(2, 2) } };
        s.seekOmit = "A";
        r.unindexed = { 601, 602 };
        break;
    case 3:
        s.trackEntries = { trackEntry(1, 1), trackEntry(2, 1), trackEntry(3, 1) };
        s.attachedFiles = { { attachedFile(1, 2) }, { attachedFile(2, 0), attachedFile(3, 3) } };
        break;
    case 4:
        s.trackEntries = { trackEntry(1, 3), trackEntry(2, 3) };
        s.attachedFiles = { { attachedFile(1, 3), attachedFile(2, 4) } };
        s.crcChildren = true;
        break;
    case 5:
        s.trackEntries = { trackEntry(2, 4), trackEntry(1, 5) };
        s.attachedFiles = { { attachedFile(1, 1) } };
        break;
    default:
        s.trackEntries = { trackEntry(1, 5), trackEntry(3, 0) };
        s.attachedFiles = { { attachedFile(1, 5), attachedFile(2, 0) } };
    }
    r.file = mkv::build(f);
    return r;
}
bool undefined(const Bytes &language)
{
    return language.empty() || language == "und";
}
struct MkvEdit {
    Bytes name;
    std::function<void(MFile &)> model;
    std::function<void(Ctx &, Session &, const std::string &)> library; // last argument is a prefix for files
    int external = -1;
};

MatroskaContainer &mkvContainer(Session &s)
{
    return *static_cast<MatroskaContainer *>(s.file.container());
}
AbstractTrack &track(Ctx &c, Session &s, std::uint64_t id)
{
    for (auto *t : s.file.tracks())
        if (t->id() == id)
            return *t;
    c.fail("track", "track %llu is not present", static_cast<unsigned long long>(id));
    throw std::logic_error("unreachable");
}
AbstractAttachment &attachment(Ctx &c, Session &s, std::uint64_t id)
{
    for (auto *a : s.file.attachments())
        if (a->id() == id)
            return *a;
    c.fail("attachment", "attachment %llu is not present", static_cast<unsigned long long>(id));
    throw std::logic_error("unreachable");
}
struct External {
    const char *name;
    Bytes content;
    Bytes mime;
};
const External &external(std::size_t i)
{
    const auto letters = [](std::size_t n, unsigned seed) { // does not resemble any format
        auto r = filler(n, seed);
        for (auto &ch : r)
            ch = static_cast<char>('a' + (static_cast<unsigned char>(ch) & 15));
        return r;
    };
    static const External files[] = { { "plain.xyz", letters(77, 200), Bytes() }, { "big.xyz", letters(16500, 201), Bytes() }, { "audio.flac", flac::blocks({ { flac::StreamInfo, flac::streamInfo() } }) + flac::frames(500), "audio/flac" },
        { "byte.xyz", "x", Bytes() } };
    return files[i];
}
void setTitle(Session &s, const Bytes &title)
{
    s.file.createAppropriateTags();
    s.file.container()->tag(0)->setValue(KnownField::Title, text(title));
}
std::vector<MkvEdit> mkvEdits(const MFile &f, bool all)
{
    std::vector<MkvEdit> r;
    for (std::size_t i = 0; i < f.tracks.size(); ++i) {
        const auto add = [&](const Bytes &name, auto model, auto library) {
            r.push_back({ fmt("track %zu: ", i) + name, [i, model](MFile &m) { model(m.tracks[i]); }, nullptr });
            // the ID before the edit has to be determined when applying it
            r.back().library = [i, library](Ctx &c, Session &s, const std::string &) { library(track(c, s, s.file.tracks().at(i)->id())); };
        };
        for (const auto &name : { Bytes(), Bytes("x"), longName(126), longName(127), Bytes("n\xC3\xA4me \xF0\x9F\x8E\xB5"), longName(600) })
            if (all || name.size() == 0 || name.size() > 100)
                add(fmt("name of %zu bytes", name.size()), [name](MTrack &t) { t.name = name; }, [name](AbstractTrack &t) { t.setName(name); });
        struct L {
            Locales locales;
            const char *language, *ietf;
        };
        const L locales[] = { { {}, "und", "" }, { { { "fre", B } }, "fre", "" }, { { { "pt-BR", IETF } }, "und", "pt-BR" }, { { { "jpn", B }, { "ja-JP", IETF } }, "jpn", "ja-JP" }, { { { "swe", U } }, "swe", "" }, { { { "und", B } }, "und", "" },
            { { { "zh-Hant-TW", IETF }, { "chi", B } }, "chi", "zh-Hant-TW" } };
        for (std::size_t n = 0; n < std::size(locales); ++n)
            if (all || n == 0 || n == 3) {
                auto &l = locales[n];
                add(fmt("locale %zu", n), [language = l.language, ietf = l.ietf](MTrack &t) { t.language = language, t.ietf = ietf; }, [l](AbstractTrack &t) { t.setLocale(locale(l.locales)); });
            }
        for (int flag = 0; flag < 3; ++flag)
            for (bool v : { false, true })
                if (all || v != f.tracks[i].flags[flag])
                    add(fmt("flag %d=%d", flag, v), [flag, v](MTrack &t) { t.flags[flag] = v; },
                        [flag, v](AbstractTrack &t) {
                            switch (flag) {
                            case 0: t.setEnabled(v); break;
                            case 1: t.setDefault(v); break;
                            default: t.setForced(v);
                            }
                        });
        for (std::uint64_t id : { std::uint64_t(1), std::uint64_t(0x80), std::uint64_t(0x1'0000'0000), ~std::uint64_t(15) })
            if (all || id > 1000) {
                const auto v = id + i;
                add(fmt("id %llx", static_cast<unsigned long long>(v)), [v](MTrack &t) { t.uid = v; }, [v](AbstractTrack &t) { t.setId(v); });
            }
    }
    for (std::size_t i = 0; i < f.attachments.size(); ++i) {
        if (!f.attachments[i].known)
            continue;
        const auto add = [&](const Bytes &name, auto model, auto library) {
            r.push_back({ fmt("attachment %zu: ", i) + name, [i, model](MFile &m) { model(m.attachments[i]); }, nullptr });
        r.back().library = [i, library](Ctx &c, Session &s, const std::string &prefix) { library(c, *s.file.attachments().at(i), s, prefix); };
        };
        for (const auto &v : { Bytes("other"), longName(126), longName(300) })
            if (all || v.size() == 300) {
                add(fmt("name of %zu bytes", v.size()), [v](MAttachment &a) { a.name = v; }, [v](Ctx &, AbstractAttachment &a, Session &, const std::string &) { a.setName(v); });
                add(fmt("description of %zu bytes", v.size()), [v](MAttachment &a) { a.description = v; }, [v](Ctx &, AbstractAttachment &a, Session &, const std::string &) { a.setDescription(v); });
            }
        add("no description", [](MAttachment &a) { a.description.clear(); }, [](Ctx &, AbstractAttachment &a, Session &, const std::string &) { a.setDescription(Bytes()); });
        add("MIME-type", [](MAttachment &a) { a.mime = "text/plain"; }, [](Ctx &, AbstractAttachment &a, Session &, const std::string &) { a.setMimeType("text/plain"); });
        for (std::uint64_t id : { std::uint64_t(1), std::uint64_t(0x80), ~std::uint64_t(15) })
            if (all || id > 1000) {
                const auto v = id + i;
                add(fmt("id %llx", static_cast<unsigned long long>(v)), [v](MAttachment &a) { a.uid = v; }, [v](Ctx &, AbstractAttachment &a, Session &, const std::string &) { a.setId(v); });
            }
        add("ignore", [](MAttachment &a) { a.gone = true; }, [](Ctx &, AbstractAttachment &a, Session &, const std::string &) { a.setIgnored(true); });
        add("do not ignore", [](MAttachment &a) { a.gone = false; }, [](Ctx &, AbstractAttachment &a, Session &, const std::string &) { a.setIgnored(false); });
        for (std::size_t n = 0; n < 4; ++n)
            if (all || n == 0)
                add(fmt("content from %s", external(n).name),
                    [n](MAttachment &a) {
                        a.name = external(n).name;
                        if (!external(n).mime.empty())
                            a.mime = external(n).mime;
                        a.data = external(n).content;
                        a.hasData = true;
                    },
                    [n](Ctx &, AbstractAttachment &a, Session &s, const std::string &prefix) { a.setFile(prefix + external(n).name, s.diag, s.progress); }),
                    r.back().external = static_cast<int>(n);
        add("content from missing file", [](MAttachment &) {},
            [](Ctx &c, AbstractAttachment &a, Session &s, const std::string &prefix) {
                auto thrown = false;
                try {
                    a.setFile(prefix + "missing", s.diag, s.progress);
                } catch (const std::ios_base::failure &) {
                    thrown = true;
                }
                c.check(thrown, "missing-file", "no exception when assigning a file which does not exist");
            });
        if (f.attachments.size() > 1 && f.attachments[(i + 1) % f.attachments.size()].known) {
            const auto n = (i + 1) % f.attachments.size();
            r.push_back({ fmt("attachment %zu: stored content of attachment %zu", i, n), [i, n](MFile &m) { m.attachments[i].data = m.attachments[n].stored, m.attachments[i].hasData = true; },
                [i, n](Ctx &c, Session &s, const std::string &) {
                    // the element knows the stream to be used while saving
                    auto *const e = static_cast<MatroskaAttachment *>(s.file.attachments().at(n))->attachedFileElement()->childById(MatroskaIds::FileData, s.diag);
                    c.check(e, "stored-content", "content of attachment %zu is not present", n);
                    s.file.attachments().at(i)->setData(
                        std::make_unique<StreamDataBlock>([e]() -> std::istream & { return e->stream(); }, e->dataOffset(), std::ios_base::beg, e->dataOffset() + e->dataSize(), std::ios_base::beg));
                } });
        }
    }
    if (std::none_of(f.attachments.begin(), f.attachments.end(), [](auto &a) { return !a.known; }))
        for (std::size_t n = 0; n < 3; ++n)
            if (all || n == 0)
                r.push_back({ fmt("new attachment from %s", external(n).name),
                    [n](MFile &m) {
                        m.attachments.emplace_back();
                        auto &a = m.attachments.back();
                        a.uid = 7000 + m.attachments.size();
                        a.name = n == 1 ? "renamed" : external(n).name;
                        a.mime = external(n).mime.empty() ? "application/octet-stream" : external(n).mime;
                        a.description = n == 2 ? "described" : "";
                        a.data = external(n).content;
                    },
                    [n](Ctx &c, Session &s, const std::string &prefix) {
                        const auto before = s.file.attachments();
                        auto *const a = mkvContainer(s).createAttachment();
                        for (auto *b : before)
                            c.check(b->id() != a->id(), "attachment-id", "ID of new attachment is not unique");
                        a->setMimeType("application/octet-stream");
                        a->setFile(prefix + external(n).name, s.diag, s.progress);
                        if (n == 1)
                            a->setName("renamed");
                        if (n == 2)
                            a->setDescription("described");
                        a->setId(7000 + before.size() + 1);
                    },
                    static_cast<int>(n) });
    r.push_back({ "title", [](MFile &m) { m.title = "new"; }, [](Ctx &, Session &s, const std::string &) { setTitle(s, "new"); } });
    r.push_back({ "long title", [](MFile &m) { m.title = Bytes(900, 'n'); }, [](Ctx &, Session &s, const std::string &) { setTitle(s, Bytes(900, 'n')); } });
    return r;
}
std::vector<Bytes> sortedDumps(const std::vector<MAttachment> &v)
{
    std::vector<Bytes> r;
    for (auto &a : v)
        if (!a.gone)
            r.push_back(dump(a));
    std::sort(r.begin(), r.end());
    return r;
}
void compareMkv(Ctx &c, const MFile &want, const MFile &got)
{
    c.check(got.tracks.size() == want.tracks.size(), "track-count", "%zu tracks instead of %zu", got.tracks.size(), want.tracks.size());
    for (std::size_t i = 0; i < want.tracks.size(); ++i) {
        auto w = want.tracks[i];
        auto g = got.tracks[i];
        if (undefined(w.language) && undefined(g.language))
            w.language = g.language;
        c.check(dump(g) == dump(w), "track", "track %zu is \"%s\" instead of \"%s\"", i, dump(g).c_str(), dump(w).c_str());
    }
    const auto w = sortedDumps(want.attachments), g = sortedDumps(got.attachments);
    c.check(g.size() == w.size(), "attachment-count", "%zu attachments instead of %zu", g.size(), w.size());
    for (std::size_t i = 0; i < w.size(); ++i)
        c.check(g[i] == w[i], "attachment-data", "attachment is \"%s\" instead of \"%s\"", g[i].c_str(), w[i].c_str());
    c.check(got.title == want.title, "title", "title is %s instead of %s", quote(got.title).c_str(), quote(want.title).c_str());
    c.check(got.rest.segments.size() == want.rest.segments.size(), "segments", "%zu segments", got.rest.segments.size());
    for (std::size_t i = 0; i < want.rest.segments.size(); ++i) {
        auto &a = got.rest.segments[i];
        auto &b = want.rest.segments[i];
        c.check(a.chapters == b.chapters, "chapters", "chapters changed from %s to %s", b.chapters.c_str(), a.chapters.c_str());
        c.check(a.clusters == b.clusters, "clusters", "clusters changed");
        c.check(a.cues == b.cues, "cues", "cues changed");
        c.check(a.info == b.info && a.infoTitle == b.infoTitle, "info", "segment info changed");
    }
}
// compares what the library reports
void compareMkvReading(Ctx &c, const MFile &want, const std::string &path)
{
    Session s(path);
    s.file.setForceFullParse(true);
    s.parse(true);
    const auto tracks = s.file.tracks();
    c.check(tracks.size() == want.tracks.size(), "read-tracks", "%zu tracks are read instead of %zu", tracks.size(), want.tracks.size());
    for (std::size_t i = 0; i < tracks.size(); ++i) {
        auto &w = want.tracks[i];
        auto &t = *tracks[i];
        c.check(t.id() == w.uid && t.trackNumber() == w.number && t.name() == w.name && t.isEnabled() == w.flags[0] && t.isDefault() == w.flags[1] && t.isForced() == w.flags[2], "read-track", "track %zu is read as %s", i,
            dumpTrack(t).c_str());
        c.check(t.locale().abbreviatedName(B) == (undefined(w.language) ? Bytes() : w.language) && t.locale().abbreviatedName(IETF) == (undefined(w.ietf) ? Bytes() : w.ietf), "read-locale", "locale of track %zu is read as %s instead of %s/%s", i,
            str(t.locale()).c_str(), w.language.c_str(), w.ietf.c_str());
    }
    std::vector<MAttachment> read;
    for (auto *a : s.file.attachments()) {
        MAttachment m;
        m.uid = a->id();
        m.name = a->name();
        m.mime = a->mimeType();
        m.description = a->description();
        m.hasData = true;
        if (a->data()) {
            std::ostringstream o;
            a->data()->copyTo(o);
            m.data = o.str();
        }
        read.push_back(std::move(m));
    }
    auto model = want.attachments;
    for (auto &a : model)
        a.rest.clear(), a.hasData = true;
    c.check(sortedDumps(read) == sortedDumps(model), "read-attachments", "attachments are read differently than they have been stored");
}
struct Tmp {
    std::string path, prefix;
};
void writeExternal(const std::string &prefix, int i)
{
    if (i >= 0)
        vt::writeFile(prefix + external(static_cast<std::size_t>(i)).name, external(static_cast<std::size_t>(i)).content);
}
void remember(MFile &m)
{
    for (auto &a : m.attachments)
        a.stored = a.data;
}
struct PFile;
inline void remember(PFile &)
{
}
template <class Model, class EditType>
std::string saveEdits(Ctx &c, const std::string &path, const std::string &prefix, const std::vector<const EditType *> &edits, const Layout &layout, Model &model)
{
    std::string at = path;
    Session s(path);
    s.parse();
    c.check(s.file.tracksParsingStatus() == ParsingStatus::Ok && !hasLevel(s.diag, DiagLevel::Critical), "parse", "the file cannot be parsed: %s", diagText(s.diag).c_str());
    remember(model);
    for (auto *e : edits) {
        e->library(c, s, prefix);
        e->model(model);
    }
    applyLayout(s.file, layout);
    if (layout.saveAs) {
        at = path + ".new";
        s.file.setSaveFilePath(at);
    }
    std::string what;
    c.check(save(c, s, &what), "save", "saving fails: %s %s", what.c_str(), diagText(s.diag).c_str());
    c.check(!hasLevel(s.diag, DiagLevel::Critical), "messages", "critical message: %s", diagText(s.diag).c_str());
    return at;
}
VT_SUITE(mkv, nMkv * nLayouts)
{
    const auto base = mkvBase(c.top % nMkv);
    const auto &layout = layouts[c.top / nMkv];
    MFile model = readMkv(c, base.file);
    std::uint64_t unindexed = 0;
    for (auto &a : model.attachments)
        if (base.unindexed.count(a.uid))
            a.known = false, ++unindexed;
    const auto firsts = mkvEdits(model, true);
    const auto seconds = mkvEdits(model, vt::thorough());
    // in the quick tier pairs are limited to a reduced set of edits and one layout per file
    const auto i = c.choose(firsts.size(), "first edit");
    const auto *const first = &firsts[i];
    const auto pairs = vt::thorough() || (c.top / nMkv == c.top % nMkv % 4 && std::any_of(seconds.begin(), seconds.end(), [first](auto &e) { return e.name == first->name; }));
    const auto n = pairs ? c.choose(seconds.size() + 1, "second edit") : 0;
    const auto separate = n && (vt::thorough() || c.top % nMkv % 4 == 1) && c.flip("separate");
    std::string path = c.file("a.mkv");
    const auto prefix = path.substr(0, path.rfind('/') + 1);
    writeExternal(prefix, first->external);
    if (n)
        writeExternal(prefix, seconds[n - 1].external);
    vt::writeFile(path, base.file);
    std::vector<const MkvEdit *> edits{ first };
    c.log("base %zu, %s, first: %s", c.top % nMkv, str(layout).c_str(), first->name.c_str());
    if (n) {
        c.log("%s: %s", separate ? "second, saved separately" : "second", seconds[n - 1].name.c_str());
        if (!separate)
            edits.push_back(&seconds[n - 1]);
    }
    path = saveEdits(c, path, prefix, edits, layout, model);
    if (separate) {
        compareMkv(c, model, readMkv(c, vt::readFile(path)));
        if (std::any_of(model.attachments.begin(), model.attachments.end(), [](auto &a) { return a.gone; }))
            c.skip(); // the indexes would not match
        path = saveEdits(c, path, prefix, std::vector{ &seconds[n - 1] }, layout, model);
    }
    const auto result = vt::readFile(path);
    compareMkv(c, model, readMkv(c, result));
    compareMkvReading(c, model, path);
    c.state(vt::hashStr(result, 21));
}

// MP4
struct PTrack {
    mp4::TrackSummary summary;
    std::uint32_t flags = 0; // of the track header
    bool gone = false;
};
struct PFile {
    std::vector<PTrack> tracks; // in the order of the file
    mp4::Summary rest;
    Bytes title;
};
Bytes withoutId(const Bytes &header) // "flags … times creation modification ID …"
{
    std::size_t p = 0;
    for (int i = 0; i < 5; ++i)
        p = header.find(' ', p) + 1;
    return header.substr(13, p - 13) + header.substr(header.find(' ', p) + 1);
}
PFile readMp4(Ctx &c, const Bytes &b)
{
    PFile r;
    try {
        r.rest = mp4::summarise(b);
    } catch (const mp4::Error &e) {
        c.fail("structure", "%s", e.what());
    }
    for (auto &t : r.rest.tracks) {
        r.tracks.emplace_back();
        r.tracks.back().summary = t;
        unsigned flags = 0;
        std::sscanf(t.header.c_str(), "flags %X", &flags);
        r.tracks.back().flags = flags;
        // the flags and the ID are compared on their own
        r.tracks.back().summary.header = withoutId(t.header);
    }
    r.title = r.rest.title;
    return r;
}
mp4::TrackSpec mp4Track(std::size_t chunks, std::size_t salt = 0)
{
    mp4::TrackSpec t;
    for (std::size_t i = 0; i < chunks; ++i)
        t.chunks.push_back(i % 3 == 2 ? std::vector<std::size_t>{ 9 } : std::vector<std::size_t>{ 10 + i + salt, 7 + salt });
    return t;
}
constexpr std::size_t nMp4 = 8;
Bytes mp4Base(std::size_t i)
{
    static const char *const orders[nMp4] = { "fmd", "fmFd", "fdm", "fFmd", "fmdd", "fmFud", "fmiodod", "fdFmd" };
    mp4::File f;
    f.order = orders[i];
    const std::size_t counts[nMp4] = { 1, 2, 3, 3, 2, 3, 2, 3 };
    for (std::size_t t = 0; t < counts[i]; ++t)
        f.tracks.push_back(mp4Track(4 + t, t));
    f.freeSize = i == 5 ? 3000 : 100;
    switch (i) {
    case 2:
        f.tracks[1].co64 = true;
        f.tracks[0].sampleTable = 2;
        f.tracks[2].sampleTable = 3;
        f.tracks[0].flags = 0x7;
        f.tracks[1].flags = 0x2;
        break;
    case 3:
        f.tracks[0].extras = 0x7F;
        f.tracks[1].extras = 0x180;
        f.tracks[2].extras = 0x200;
        f.tracks[0].language = 0;
        f.tracks[1].language = 0x55C4;
        break;
    case 4:
        f.mdatOfChunk = 1;
        for (auto &c : f.tracks[0].chunks)
            c = { 12, 12 };
        f.tracks[0].sampleTable = 1;
        f.tracks[1].sampleTable = 0;
        f.mdatLarge = 2;
        break;
    case 5:
        f.tracks[0].hdlr = 1;
        f.tracks[1].hdlr = 4;
        f.tracks[2].hdlr = 2;
        f.tracks[1].version = 1;
        f.udta = 2;
        break;
    case 6:
        for (auto &t : f.tracks)
            t.chunks.clear();
        f.fragments.resize(2);
        break;
    case 7:
        f.udta = 0;
        f.tracks[0].chunks.resize(1);
        f.tracks[1].chunks.resize(9, { 5, 6, 7 });
        for (auto &c : f.tracks[2].chunks)
            for (auto &x : c)
                x = x % 16;
        f.tracks[2].sampleTable = 4;
        break;
    default:;
    }
    return mp4::build(f);
}
const Bytes &otherMp4()
{
    static const auto b = [] {
        mp4::File f;
        f.order = "fmd";
        f.salt = 50;
        f.tracks = { mp4Track(3, 5), mp4Track(6, 6) };
        f.tracks[1].co64 = true;
        f.tracks[1].language = 0x10B3;
        return mp4::build(f);
    }();
    return b;
}
struct Mp4Edit {
    Bytes name;
    bool structural = false;
    std::function<void(PFile &)> model;
    std::function<void(Ctx &, Session &, const std::string &)> library;
    bool other = false; // whether the other file is needed
};
Mp4Container &mp4Container(Session &s)
{
    return *static_cast<Mp4Container *>(s.file.container());
}
unsigned coded(const Bytes &l)
{
    return l.empty() ? 0 : static_cast<unsigned>(((l[0] - 0x60) << 10) | ((l[1] - 0x60) << 5) | (l[2] - 0x60));
}
// sessions of files tracks have been taken from have to live until the file has been saved
std::vector<std::unique_ptr<Session>> &others()
{
    static std::vector<std::unique_ptr<Session>> v;
    return v;
}
// makes the ID unique like it is specified for adding tracks
std::uint32_t uniqueId(const PFile &m, std::uint32_t id)
{
    for (auto &t : m.tracks)
        if (!t.gone && t.summary.id == id)
            return uniqueId(m, id + 1);
    return id;
}
std::vector<Mp4Edit> mp4Edits(const PFile &f, bool all)
{
    std::vector<Mp4Edit> r;
    for (std::size_t i = 0; i < f.tracks.size(); ++i) {
        const auto add = [&](const Bytes &name, auto model, auto library) {
            r.push_back({ fmt("track %zu: ", i) + name, false, [i, model](PFile &m) {
                             if (i < m.tracks.size())
                                 model(m.tracks[i]);
                         },
                [i, library](Ctx &, Session &s, const std::string &) {
                    if (i < s.file.trackCount())
                        library(*s.file.tracks()[i]);
                } });
        };
        for (const auto &name : { Bytes(), Bytes("x"), longName(12), longName(255), longName(256), Bytes("n\xC3\xA4me \xF0\x9F\x8E\xB5"), longName(700) })
            if (all || name.size() == 0 || name.size() > 600)
                add(fmt("name of %zu bytes", name.size()), [name](PTrack &t) { t.summary.name = name; }, [name](AbstractTrack &t) { t.setName(name); });
        struct L {
            Locales locales;
            const char *language;
        };
        const L locales[] = { { {}, "" }, { { { "deu", T } }, "deu" }, { { { "fra", U } }, "fra" }, { { { "und", T } }, "und" }, { { { "pt-BR", IETF }, { "por", T } }, "por" }, { { { "aaz", T } }, "aaz" } };
        for (std::size_t n = 0; n < std::size(locales); ++n)
            if (all || n == 0 || n == 1) {
                auto &l = locales[n];
                add(fmt("locale %zu", n), [l](PTrack &t) { t.summary.language = coded(l.language); }, [l](AbstractTrack &t) { t.setLocale(locale(l.locales)); });
            }
        for (bool v : { false, true })
            add(fmt("enabled=%d", v), [v](PTrack &t) { t.flags = (t.flags & ~1u) | v; }, [v](AbstractTrack &t) { t.setEnabled(v); });
        if (f.rest.runs.empty())
            for (std::uint32_t id : { 77u, 0x10000u, 0xFFFFFF00u })
                if (all || id == 77) {
                    const auto v = id + static_cast<std::uint32_t>(i);
                    add(fmt("id %x", v), [v](PTrack &t) { t.summary.id = v; }, [v](AbstractTrack &t) { t.setId(v); });
                }
        if (!f.rest.runs.empty())
            continue;
        r.push_back({ fmt("remove track %zu", i), true, [i](PFile &m) {
                         if (i < m.tracks.size())
                             m.tracks.erase(m.tracks.begin() + static_cast<std::ptrdiff_t>(i));
                     },
            [i](Ctx &c, Session &s, const std::string &) {
                if (i >= s.file.trackCount())
                    return;
                auto *const t = s.file.tracks()[i];
                c.check(s.file.container()->removeTrack(t), "remove", "track %zu cannot be removed", i);
                c.check(!s.file.container()->removeTrack(t), "remove-again", "track %zu can be removed twice", i);
                delete static_cast<Mp4Track *>(t);
            } });
        r.push_back({ fmt("move track %zu to the end", i), true, [i](PFile &m) {
                         if (i >= m.tracks.size())
                             return;
                         auto t = m.tracks[i];
                         m.tracks.erase(m.tracks.begin() + static_cast<std::ptrdiff_t>(i));
                         m.tracks.push_back(std::move(t));
                     },
            [i](Ctx &c, Session &s, const std::string &) {
                if (i >= s.file.trackCount())
                    return;
                auto *const t = s.file.tracks()[i];
                c.check(s.file.container()->removeTrack(t), "remove", "track %zu cannot be removed", i);
                c.check(mp4Container(s).addTrack(static_cast<Mp4Track *>(t)), "add", "track %zu cannot be added again", i);
            } });
    }
    if (f.rest.runs.empty()) {
        r.push_back({ "remove all tracks", true, [](PFile &m) { m.tracks.clear(); }, [](Ctx &, Session &s, const std::string &) { s.file.container()->removeAllTracks(); } });
        for (std::size_t n = 0; n < 2; ++n)
            r.push_back({ fmt("add track %zu of another file", n), true,
                [n](PFile &m) {
                    PFile o;
                    o.rest = mp4::summarise(otherMp4());
                    PTrack t;
                    t.summary = o.rest.tracks[n];
                    unsigned flags = 0;
                    std::sscanf(t.summary.header.c_str(), "flags %X", &flags);
                    t.flags = flags;
                    t.summary.header = withoutId(t.summary.header);
                    t.summary.id = uniqueId(m, t.summary.id);
                    m.tracks.push_back(std::move(t));
                },
                [n](Ctx &c, Session &s, const std::string &prefix) {
                    others().push_back(std::make_unique<Session>(prefix + "other.mp4"));
                    auto &o = *others().back();
                    o.parse(true);
                    auto *const t = static_cast<Mp4Track *>(o.file.tracks().at(n));
                    c.check(o.file.container()->removeTrack(t), "remove", "track cannot be removed from other file");
                    c.check(mp4Container(s).addTrack(t), "add", "track of other file cannot be added");
                },
                true });
    }
    r.push_back({ "title", false, [](PFile &m) { m.title = "new"; }, [](Ctx &, Session &s, const std::string &) { setTitle(s, "new"); } });
    r.push_back({ "long title", false, [](PFile &m) { m.title = Bytes(900, 'n'); }, [](Ctx &, Session &s, const std::string &) { setTitle(s, Bytes(900, 'n')); } });
    return r;
}
void compareMp4(Ctx &c, const PFile &want, const PFile &got, bool structural)
{
    c.check(got.tracks.size() == want.tracks.size(), "track-count", "%zu tracks instead of %zu", got.tracks.size(), want.tracks.size());
    for (std::size_t i = 0; i < want.tracks.size(); ++i) {
        auto &w = want.tracks[i].summary;
        auto &g = got.tracks[i].summary;
        c.check(got.tracks[i].flags == want.tracks[i].flags, "track-flags", "flags of track %zu are %X instead of %X", i, got.tracks[i].flags, want.tracks[i].flags);
        c.check(g.id == w.id, "track-id", "ID of track %zu is %u instead of %u", i, g.id, w.id);
        c.check(g.header == w.header, "track-header", "header of track %zu changed from %s to %s", i, w.header.c_str(), g.header.c_str());
        c.check(g.media == w.media, "media-header", "media header of track %zu changed from %s to %s", i, w.media.c_str(), g.media.c_str());
        c.check(g.handler == w.handler, "handler", "handler of track %zu changed from %s to %s", i, w.handler.c_str(), g.handler.c_str());
        c.check(g.name == w.name, "track-name", "name of track %zu is %s instead of %s", i, quote(g.name).c_str(), quote(w.name).c_str());
        c.check(g.language == w.language, "track-language", "language of track %zu is %04X instead of %04X", i, g.language, w.language);
        c.check(g.tables == w.tables, "sample-table", "sample table of track %zu changed from %s to %s", i, w.tables.c_str(), g.tables.c_str());
        c.check(g.chunks.size() == w.chunks.size(), "chunks", "track %zu has %zu chunks instead of %zu", i, g.chunks.size(), w.chunks.size());
        for (std::size_t k = 0; k < w.chunks.size(); ++k)
            c.check(g.chunks[k] == w.chunks[k], "chunk", "chunk %zu of track %zu leads to other data", k, i);
    }
    auto sorted = [](std::vector<Bytes> v) {
        std::sort(v.begin(), v.end());
        return v;
    };
    c.check(sorted(got.rest.top) == sorted(want.rest.top), "top-level", "content of top-level atoms changed");
    c.check(got.rest.movie == want.rest.movie, "movie", "children of moov atom changed from %s to %s", want.rest.movie.c_str(), got.rest.movie.c_str());
    c.check(got.rest.userData == want.rest.userData, "user-data", "children of udta atom changed");
    c.check(got.rest.runs == want.rest.runs, "fragments", "fragments changed");
    c.check(got.title == want.title, "title", "title is %s instead of %s", quote(got.title).c_str(), quote(want.title).c_str());
    if (!structural)
        c.check(got.rest.mediaData == want.rest.mediaData, "media-data", "media data changed");
}
void compareMp4Reading(Ctx &c, const PFile &want, const std::string &path)
{
    Session s(path);
    s.parse(true);
    const auto tracks = s.file.tracks();
    c.check(tracks.size() == want.tracks.size(), "read-tracks", "%zu tracks are read instead of %zu", tracks.size(), want.tracks.size());
    for (std::size_t i = 0; i < tracks.size(); ++i) {
        auto &w = want.tracks[i];
        auto &t = *tracks[i];
        c.check(t.id() == w.summary.id && t.name() == w.summary.name && t.isEnabled() == (w.flags & 1), "read-track", "track %zu is read as %s", i, dumpTrack(t).c_str());
        const Bytes language = t.locale().empty() ? Bytes() : Bytes(t.locale().front());
        c.check(coded(language) == w.summary.language, "read-locale", "locale of track %zu is read as %s instead of %04X", i, str(t.locale()).c_str(), w.summary.language);
    }
}
VT_SUITE(mp4, nMp4 * nLayouts)
{
    others().clear();
    const auto file = mp4Base(c.top % nMp4);
    const auto &layout = layouts[c.top / nMp4];
    PFile model = readMp4(c, file);
    const auto firsts = mp4Edits(model, true);
    const auto seconds = mp4Edits(model, vt::thorough());
    // in the quick tier pairs are limited to a reduced set of edits and one layout per file
    const auto i = c.choose(firsts.size(), "first edit");
    const auto *const first = &firsts[i];
    const auto pairs = vt::thorough() || (c.top / nMp4 == c.top % nMp4 % 4 && std::any_of(seconds.begin(), seconds.end(), [first](auto &e) { return e.name == first->name; }));
    const auto n = pairs ? c.choose(seconds.size() + 1, "second edit") : 0;
    const auto separate = n && (vt::thorough() || c.top % nMp4 % 4 == 1) && c.flip("separate");
    std::string path = c.file("a.mp4");
    const auto prefix = path.substr(0, path.rfind('/') + 1);
    if (first->other || (n && seconds[n - 1].other))
        vt::writeFile(prefix + "other.mp4", otherMp4());
    vt::writeFile(path, file);
    std::vector<const Mp4Edit *> edits{ first };
    bool structural = first->structural;
    c.log("base %zu, %s, first: %s", c.top % nMp4, str(layout).c_str(), first->name.c_str());
    if (n) {
        c.log("%s: %s", separate ? "second, saved separately" : "second", seconds[n - 1].name.c_str());
        structural = structural || seconds[n - 1].structural;
        if (!separate)
            edits.push_back(&seconds[n - 1]);
    }
    path = saveEdits(c, path, prefix, edits, layout, model);
    if (separate) {
        compareMp4(c, model, readMp4(c, vt::readFile(path)), structural);
        path = saveEdits(c, path, prefix, std::vector{ &seconds[n - 1] }, layout, model);
    }
    others().clear();
    const auto result = vt::readFile(path);
    compareMp4(c, model, readMp4(c, result), structural);
    compareMp4Reading(c, model, path);
    c.state(vt::hashStr(result, 22));
}
} // namespace
