// P19: Tag creation and conversion settings produce exactly the requested tags.
#include "content.h"

#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/tagtarget.h>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P19";
const char *vt::rule = "id3: kind of file (MPEG audio, ADTS, unknown) x existing ID3v1 tag x existing ID3v2 tags (versions, fields, encodings, one or two tags) x all settings (usages, version, flags), saved and decoded "
                       "independently and compared with a reference model; conversion: the conversion methods and sequences of creation/removal; targets: Matroska, Ogg (two streams), MP4 and FLAC files x "
                       "existing targets x required targets; states = distinct (file, settings, result)";
const char *vt::assumptions = "an empty target means no particular target is required|which of several ID3v2 tags a newly created ID3v1 tag is initialised from is not specified";

namespace {
enum F { Title, Artist, Genre, Track, Fields };
constexpr KnownField known[] = { KnownField::Title, KnownField::Artist, KnownField::Genre, KnownField::TrackPosition };
struct T {
    int version = 1;
    std::array<std::set<Bytes>, Fields> v; // alternatives
};
struct Model {
    std::vector<T> v1, v2; // v1: none or one
};
std::set<Bytes> only(const Bytes &b)
{
    return b.empty() ? std::set<Bytes>() : std::set<Bytes>{ b };
}
Bytes str(const T &t)
{
    auto r = fmt("[%d:", t.version);
    for (auto &v : t.v) {
        for (auto &a : v)
            r += " '" + a + "'";
        r += ";";
    }
    return r + "]";
}
Bytes str(const Model &m)
{
    Bytes r;
    for (auto &t : m.v1)
        r += str(t);
    for (auto &t : m.v2)
        r += str(t);
    return r;
}
void fill(T &to, const T &from) // missing values
{
    for (int i = 0; i < Fields; ++i)
        if (to.v[i].empty())
            to.v[i] = from.v[i];
}
// reference model of MediaFileInfo::createAppropriateTags()
bool create(Model &m, const TagCreationSettings &s, bool mp3)
{
    const auto has = [&](TagCreationFlags f) { return (static_cast<std::uint64_t>(s.flags) & static_cast<std::uint64_t>(f)) != 0; };
    if (!mp3 && m.v1.empty() && m.v2.empty() && !has(TagCreationFlags::TreatUnknownFilesAsMp3Files))
        return false;
    if (s.id3v1usage == TagUsage::Always && m.v1.empty()) {
        m.v1.emplace_back();
        if (has(TagCreationFlags::Id3InitOnCreate))
            for (auto &t : m.v2)
                for (int i = 0; i < Fields; ++i)
                    m.v1[0].v[i].insert(t.v[i].begin(), t.v[i].end());
    }
    if (s.id3v2usage == TagUsage::Always && m.v2.empty()) {
        m.v2.emplace_back();
        m.v2[0].version = s.id3v2MajorVersion;
        if (has(TagCreationFlags::Id3InitOnCreate) && !m.v1.empty())
            fill(m.v2[0], m.v1[0]);
    }
    if (has(TagCreationFlags::MergeMultipleSuccessiveId3v2Tags) && !m.v2.empty()) {
        for (auto &t : m.v2)
            fill(m.v2[0], t);
        m.v2.resize(1);
    }
    if (s.id3v1usage == TagUsage::Never && !m.v1.empty()) {
        if (has(TagCreationFlags::Id3TransferValuesOnRemoval) && !m.v2.empty())
            fill(m.v2[0], m.v1[0]);
        m.v1.clear();
    }
    if (s.id3v2usage == TagUsage::Never) {
        if (has(TagCreationFlags::Id3TransferValuesOnRemoval) && !m.v1.empty())
            for (auto &t : m.v2)
                fill(m.v1[0], t);
        m.v2.clear();
    } else if (!has(TagCreationFlags::KeepExistingId3v2Version))
        for (auto &t : m.v2)
            t.version = s.id3v2MajorVersion;
    return true;
}
// normalises the denotation of a value
Bytes normalise(int field, Bytes v)
{
    if (field == Genre) {
        if (v.size() > 2 && v.front() == '(' && v.back() == ')')
            v = v.substr(1, v.size() - 2);
        if (v == "17")
            v = "Rock";
        if (v == "9")
            v = "Metal";
    } else if (field == Track)
        v = v.substr(0, v.find('/'));
    return v;
}
Bytes latin1(const Bytes &raw) // content of a field of an ID3v1 tag
{
    auto b = raw;
    const auto end = b.find_last_not_of(Bytes(" \0", 2));
    b = end == Bytes::npos ? Bytes() : b.substr(0, end + 1);
    return b.compare(0, 3, "\xEF\xBB\xBF") == 0 ? b.substr(3) : decode(b, TagTextEncoding::Latin1);
}
Model decodeFile(Ctx &c, const Bytes &b, const Bytes &audio, const Bytes &what)
{
    Model m;
    std::vector<mp3::V2> v2;
    const auto at = mp3::parse(c, b, v2);
    c.check(b.size() >= at + audio.size() && b.compare(at, audio.size(), audio) == 0, "audio", "%s: audio data has changed", what.c_str());
    const auto tail = b.substr(at + audio.size());
    c.check(tail.empty() || (tail.size() == 128 && tail.compare(0, 3, "TAG") == 0), "tail", "%s: %zu byte after the audio data: %s", what.c_str(), tail.size(), hex(tail, 40).c_str());
    if (!tail.empty()) {
        T t;
        t.v[Title] = only(latin1(tail.substr(3, 30)));
        t.v[Artist] = only(latin1(tail.substr(33, 30)));
        t.v[Track] = !tail[125] && tail[126] ? only(fmt("%d", static_cast<unsigned char>(tail[126]))) : only("");
        const auto genre = static_cast<unsigned char>(tail[127]);
        t.v[Genre] = genre == 255 ? only("") : only(normalise(Genre, fmt("%d", genre)));
        m.v1.push_back(t);
    }
    for (auto &tag : v2) {
        T t;
        t.version = tag.version;
        t.v[Title] = only(tag.title());
        t.v[Artist] = only(tag.artist());
        t.v[Genre] = only(normalise(Genre, tag.text("TCO", "TCON")));
        t.v[Track] = only(normalise(Track, tag.text("TRK", "TRCK")));
        auto n = std::size_t();
        for (auto &v : t.v)
            n += v.size();
        c.check(tag.frames.size() == n, "frames", "%s: ID3v2 tag has %zu frames and not %zu", what.c_str(), tag.frames.size(), n);
        m.v2.push_back(t);
    }
    return m;
}
Model decodeParsed(MediaFileInfo &f)
{
    Model m;
    const auto read = [](const Tag &tag, int version) {
        T t;
        t.version = version;
        for (int i = 0; i < Fields; ++i) {
            const auto &v = tag.value(known[i]);
            Bytes s;
            if (!v.isEmpty())
                try {
                    s = i == Genre && tag.type() == TagType::Id3v1Tag ? fmt("%d", v.toStandardGenreIndex()) : v.type() == TagDataType::Text ? valueUtf8(v) : v.toString(TagTextEncoding::Utf8);
                } catch (const std::exception &e) {
                    s = e.what();
                }
            t.v[i] = only(normalise(i, s));
        }
        return t;
    };
    if (f.hasId3v1Tag())
        m.v1.push_back(read(*f.id3v1Tag(), 1));
    for (auto &t : f.id3v2Tags())
        m.v2.push_back(read(*t, t->majorVersion()));
    return m;
}
void compare(Ctx &c, const Model &got, const Model &want, const char *when, const Bytes &what)
{
    const auto fail = [&](const char *key) { c.fail(key, "%s: %s: tags are %s and not %s", what.c_str(), when, str(got).c_str(), str(want).c_str()); };
    if (got.v1.size() != want.v1.size())
        fail("id3v1");
    if (got.v2.size() != want.v2.size())
        fail("id3v2");
    const auto tag = [&](const T &g, const T &w) {
        if (g.version != w.version)
            fail("version");
        for (int i = 0; i < Fields; ++i)
            if (g.v[i] != w.v[i] && (g.v[i].empty() || w.v[i].find(*g.v[i].begin()) == w.v[i].end()))
                fail("values");
    };
    for (std::size_t i = 0; i < got.v1.size(); ++i)
        tag(got.v1[i], want.v1[i]);
    for (std::size_t i = 0; i < got.v2.size(); ++i)
        tag(got.v2[i], want.v2[i]);
}
// initial files
struct Init {
    Bytes head, audio, tail;
    Model model;
    bool mp3 = true;
};
void addV2(Init &r, int version, unsigned fields, int encoding, const char *prefix)
{
    Bytes frames;
    T t;
    t.version = version;
    static const char *const ids[][2] = { { "TT2", "TIT2" }, { "TP1", "TPE1" }, { "TCO", "TCON" }, { "TRK", "TRCK" } };
    for (int i = 0; i < Fields; ++i) {
        if (!(fields & (1u << i)))
            continue;
        const bool second = *prefix == 's';
        Bytes v = i == Genre ? (version == 4 ? (second ? "9" : "17") : (second ? "(9)" : "(17)")) : i == Track ? (second ? "7/8" : "5/9") : fmt("%s %s", prefix, i == Title ? "title" : "artist");
        if (i < Genre && encoding)
            v += "\xC3\xBC";
        Bytes data = Bytes(1, '\0') + v;
        if (encoding == 1)
            data = Bytes("\1\xFF\xFE") + encode(v, TagTextEncoding::Utf16LittleEndian);
        else if (encoding == 2)
            data = Bytes("\3") + v;
        frames += mp3::frame(version, ids[i][0], ids[i][1], data);
        t.v[i] = only(normalise(i, v));
    }
    r.head += mp3::tag(version, frames, 0);
    r.model.v2.push_back(t);
}
void addV1(Init &r, const Bytes &title, const Bytes &artist, int genre, int track)
{
    r.tail = mp3::v1(encode(title, TagTextEncoding::Latin1), artist, genre);
    r.tail[126] = static_cast<char>(track);
    r.model.v1.emplace_back();
    auto &t = r.model.v1[0];
    t.v[Title] = only(title);
    t.v[Artist] = only(artist);
    t.v[Genre] = genre == 255 ? only("") : only(normalise(Genre, fmt("%d", genre)));
    t.v[Track] = track ? only(fmt("%d", track)) : only("");
}
enum { V1Kinds = 4, V2Kinds = 17 };
void addTags(Init &r, std::size_t v1, std::size_t v2)
{
    switch (v1) {
    case 1: addV1(r, "one title", "", 255, 0); break;
    case 2: addV1(r, "one \xC3\xA4", "one artist", 9, 3); break;
    case 3: addV1(r, "", "one artist", 255, 200); break;
    }
    switch (v2) {
    case 0: break;
    case 1: case 2: case 3: addV2(r, static_cast<int>(v2) + 1, 15, 0, "first"); break;
    case 4: addV2(r, 3, 1, 1, "first"); break;
    case 5: addV2(r, 4, 6, 2, "first"); break;
    case 6: addV2(r, 2, 3, 1, "first"); break;
    case 7: addV2(r, 4, 9, 1, "first"); break;
    default: {
        const auto pair = static_cast<int>(v2) - 8; // two tags with all combinations of versions
        addV2(r, pair / 3 + 2, 5, pair == 8 ? 2 : 0, "first");
        addV2(r, pair % 3 + 2, 11, pair % 3 == 0 ? 0 : 1, "second");
    }
    }
}
constexpr TagUsage usages[] = { TagUsage::Always, TagUsage::KeepExisting, TagUsage::Never };
Bytes str(const TagCreationSettings &s)
{
    return fmt("ID3v1 usage %d, ID3v2 usage %d, version %d, flags %d", static_cast<int>(s.id3v1usage), static_cast<int>(s.id3v2usage), s.id3v2MajorVersion, static_cast<int>(s.flags));
}
void saveAndCompare(Ctx &c, Session &s, const Bytes &path, const Init &init, const Model &m, const Bytes &what)
{
    Layout l;
    l.max = 0x10000;
    applyLayout(s.file, l);
    if (what.size() % 2) // must not make a difference
        s.file.close();
    Bytes error;
    if (!save(c, s, &error))
        c.fail("save", "%s: unable to save: %s %s", what.c_str(), error.c_str(), diagText(s.diag).c_str());
    s.file.close();
    const auto b = vt::readFile(path);
    const auto got = decodeFile(c, b, init.audio, what);
    c.state(vt::hashStr(what + str(got)));
    compare(c, got, m, "saved file", what);
    s.diag.clear();
    s.parse(true);
    compare(c, decodeParsed(s.file), m, "parsed again", what);
}
Init initial(std::size_t kind, std::size_t v1, std::size_t v2)
{
    Init init;
    init.audio = kind == 0 ? mp3::audio(900) : kind == 1 ? mp3::adts(800) : Bytes("This is not supposed to be any known format. It is just text.");
    init.mp3 = kind < 2;
    addTags(init, v1, v2);
    return init;
}
const char *const kinds[] = { "MPEG audio", "ADTS", "unknown" };
} // namespace

VT_SUITE(id3, 3 * V1Kinds * V2Kinds)
{
    const auto kind = c.top % 3, v1 = c.top / 3 % V1Kinds, v2 = c.top / 3 / V1Kinds;
    const auto init = initial(kind, v1, v2);
    const auto path = c.file("a.mp3");
    vt::removeAllIn(c.scratch());
    vt::writeFile(path, init.head + init.audio + init.tail);
    TagCreationSettings s;
    s.id3v1usage = c.pick(usages, "ID3v1 usage");
    s.id3v2usage = c.pick(usages, "ID3v2 usage");
    s.flags = static_cast<TagCreationFlags>(c.choose(kind == 2 ? 32 : 16, "flags") << (kind == 2 ? 0 : 1));
    s.id3v2MajorVersion = static_cast<std::uint8_t>(2 + c.choose(3, "version"));
    if (!vt::thorough() && kind == 1 && v2 > 4)
        c.skip();
    const auto what = fmt("%s with %s; %s", kinds[kind], str(init.model).c_str(), str(s).c_str());
    Session session(path);
    auto &f = session.file;
    f.open();
    f.parseContainerFormat(session.diag, session.progress);
    c.check(!f.createAppropriateTags(s) && f.tags().empty(), "not-parsed", "%s: tags created before parsing tags", what.c_str());
    session.parse();
    auto m = init.model;
    compare(c, decodeParsed(f), m, "initially", what);
    bool expected = false;
    for (int i = 0; i < 2; ++i) { // second time is supposed to do nothing
        expected = create(m, s, init.mp3);
        c.check(f.createAppropriateTags(s) == expected, "result", "%s: result is not %d", what.c_str(), expected);
        compare(c, decodeParsed(f), m, i ? "created twice" : "created", what);
    }
    if (init.mp3 || str(m) != str(init.model))
        saveAndCompare(c, session, path, init, m, what);
}

VT_SUITE(conversion, 2 * V1Kinds * V2Kinds)
{
    const std::size_t kind = c.top % 2 ? 2 : 0, v1 = c.top / 2 % V1Kinds, v2 = c.top / 2 / V1Kinds;
    const auto init = initial(kind, v1, v2);
    const auto path = c.file("a.mp3");
    vt::removeAllIn(c.scratch());
    vt::writeFile(path, init.head + init.audio + init.tail);
    auto what = fmt("%s with %s", kinds[kind], str(init.model).c_str());
    Session s(path);
    auto &f = s.file;
    s.parse();
    auto m = init.model;
    const auto depth = vt::thorough() ? 3 : 2;
    for (int i = 0; i < depth; ++i) {
        const auto tagged = !m.v1.empty() || !m.v2.empty();
        switch (c.choose(i ? 9 : 8, "operation")) {
        case 0:
            what += ", ID3v1 to ID3v2";
            c.check(f.id3v1ToId3v2() == !m.v1.empty(), "result", "%s: unexpected result", what.c_str());
            if (!m.v1.empty()) {
                if (m.v2.empty()) {
                    m.v2.emplace_back();
                    m.v2[0].version = 3;
                }
                for (auto &t : m.v2)
                    fill(m.v2[0], t);
                m.v2.resize(1);
                fill(m.v2[0], m.v1[0]);
                m.v1.clear();
            }
            break;
        case 1:
            what += ", ID3v2 to ID3v1";
            c.check(f.id3v2ToId3v1() == !m.v2.empty(), "result", "%s: unexpected result", what.c_str());
            if (!m.v2.empty()) {
                for (auto &t : m.v2)
                    fill(m.v2[0], t);
                if (m.v1.empty())
                    m.v1.emplace_back();
                fill(m.v1[0], m.v2[0]);
                m.v2.clear();
            }
            break;
        case 2:
            what += ", merge";
            f.mergeId3v2Tags();
            if (!m.v2.empty()) {
                for (auto &t : m.v2)
                    fill(m.v2[0], t);
                m.v2.resize(1);
            }
            break;
        case 3:
            what += ", remove ID3v1";
            c.check(f.removeId3v1Tag() == !m.v1.empty(), "result", "%s: unexpected result", what.c_str());
            m.v1.clear();
            break;
        case 4:
            if (m.v2.empty())
                c.skip();
            {
                const auto index = m.v2.size() > 1 ? c.choose(static_cast<std::uint32_t>(m.v2.size()), "index") : 0;
                const auto generic = c.flip("via removeTag()");
                what += fmt(", remove ID3v2 tag %u%s", index, generic ? " via removeTag()" : "");
                auto *const tag = f.id3v2Tags()[index].get();
                std::vector<const void *> others;
                for (auto &t : f.id3v2Tags())
                    if (t.get() != tag)
                        others.emplace_back(t.get());
                Id3v2Tag foreign;
                c.check(!f.removeId3v2Tag(&foreign) && !f.removeTag(&foreign) && !f.removeId3v2Tag(nullptr) && !f.removeTag(nullptr), "result", "%s: foreign tag removed", what.c_str());
                c.check(generic ? f.removeTag(tag) : f.removeId3v2Tag(tag), "result", "%s: unexpected result", what.c_str());
                c.check(f.id3v2Tags().size() == others.size(), "remaining", "%s: %zu ID3v2 tags left", what.c_str(), f.id3v2Tags().size());
                for (std::size_t j = 0; j < others.size(); ++j)
                    c.check(f.id3v2Tags()[j].get() == others[j], "remaining", "%s: different tags left", what.c_str());
                m.v2.erase(m.v2.begin() + index);
            }
            break;
        case 5:
            what += ", remove all ID3v2";
            c.check(f.removeAllId3v2Tags() == !m.v2.empty(), "result", "%s: unexpected result", what.c_str());
            m.v2.clear();
            break;
        case 6:
            what += ", remove all";
            f.removeAllTags();
            m = Model();
            break;
        case 7: {
            what += ", create with default settings";
            TagCreationSettings settings;
            const auto expected = create(m, settings, init.mp3);
            c.check(f.createAppropriateTags(settings) == expected, "result", "%s: unexpected result", what.c_str());
            break;
        }
        default:
            what += ", save";
            saveAndCompare(c, s, path, init, m, what);
            s.parse();
        }
        compare(c, decodeParsed(f), m, "after", what);
        c.check(f.hasId3v1Tag() == !m.v1.empty() && f.hasId3v2Tag() == !m.v2.empty() && f.hasAnyTag() == (!m.v1.empty() || !m.v2.empty()), "queries", "%s: queries are wrong", what.c_str());
        (void)tagged;
    }
    saveAndCompare(c, s, path, init, m, what);
}

namespace {
// targets (levels and tracks only)
struct Target {
    std::uint64_t level = 0;
    std::vector<std::uint64_t> tracks, attachments;
    bool empty() const
    {
        return !level && tracks.empty() && attachments.empty();
    }
    bool operator==(const Target &o) const
    {
        return (level ? level : 50) == (o.level ? o.level : 50) && tracks == o.tracks && attachments == o.attachments;
    }
};
Bytes str(const std::vector<Target> &ts)
{
    Bytes r;
    for (auto &t : ts) {
        r += fmt("[%llu", static_cast<unsigned long long>(t.level));
        for (auto i : t.tracks)
            r += fmt(" track %llu", static_cast<unsigned long long>(i));
        for (auto i : t.attachments)
            r += fmt(" attachment %llu", static_cast<unsigned long long>(i));
        r += "]";
    }
    return r;
}
TagTarget lib(const Target &t)
{
    return TagTarget(t.level, t.tracks, {}, {}, t.attachments);
}
TagCreationSettings require(const std::vector<Target> &ts)
{
    TagCreationSettings s;
    for (auto &t : ts)
        s.requiredTargets.push_back(lib(t));
    return s;
}
std::vector<Target> current(MediaFileInfo &f)
{
    std::vector<Target> r;
    for (auto *t : f.tags())
        r.push_back({ t->target().level(), t->target().tracks(), t->target().attachments() });
    return r;
}
bool same(std::vector<Target> a, std::vector<Target> b)
{
    for (auto &t : a) {
        const auto i = std::find(b.begin(), b.end(), t);
        if (i == b.end())
            return false;
        b.erase(i);
    }
    return b.empty();
}
Bytes titleOf(const Target &t)
{
    return "for " + str({ t });
}
} // namespace

VT_SUITE(matroskaTargets, 12 * 2)
{
    static const std::vector<Target> lists[] = { {}, { {} }, { { 50, {}, {} } }, { { 30, {}, {} } }, { { 0, { 1001 }, {} } }, { { 30, { 1001 }, {} }, { 30, { 1002 }, {} } },
        { { 70, {}, {} }, { 50, {}, {} }, { 30, {}, {} } }, { { 30, {}, {} }, { 30, {}, {} } }, { { 0, {}, { 7 } }, { 0, { 1001, 1002 }, {} } }, { {}, { 30, {}, {} } }, { { 30, {}, {} }, {} },
        { { 50, { 1001 }, {} }, { 0, { 1001 }, {} } } };
    const auto id = c.top % 2 ? fmts::MkvBack : fmts::Mkv;
    const auto path = c.file("a.mkv");
    vt::removeAllIn(c.scratch());
    vt::writeFile(path, fmts::formats[id].make(600, "title", 0));
    std::vector<Target> model{ { 50, {}, {} } };
    Bytes what = fmts::formats[id].name;
    Session s(path);
    const auto apply = [&](const std::vector<Target> &required) {
        what += ", require " + str(required);
        const auto any = !required.empty() && (required.size() != 1 || !required[0].empty());
        c.check(s.file.createAppropriateTags(require(required)), "result", "%s: tags not created", what.c_str());
        if (model.empty())
            model.push_back(any ? required.front() : Target());
        if (any)
            for (auto &t : required)
                if (!t.empty() && std::find(model.begin(), model.end(), t) == model.end())
                    model.push_back(t);
    };
    const auto verify = [&] {
        c.check(same(current(s.file), model), "targets", "%s: targets are %s and not %s", what.c_str(), str(current(s.file)).c_str(), str(model).c_str());
    };
    for (int i = 0; i < (vt::thorough() ? 3 : 2); ++i) {
        s.parse();
        verify();
        if (c.flip("remove all")) {
            what += ", remove all";
            s.file.removeAllTags();
            model.clear();
            verify();
        } else if (model.size() > 1 && c.flip("remove last")) {
            what += ", remove last";
            const auto last = current(s.file).back();
            c.check(s.file.removeTag(s.file.tags().back()), "result", "%s: tag not removed", what.c_str());
            model.erase(std::find(model.begin(), model.end(), last));
            verify();
        }
        const auto &required = i ? c.pick(lists, "required targets") : lists[c.top / 2];
        apply(required);
        verify();
        apply(required); // does nothing
        verify();
        for (auto *t : s.file.tags())
            t->setValue(KnownField::Title, text(titleOf({ t->target().level(), t->target().tracks(), t->target().attachments() }), TagTextEncoding::Utf8));
        Layout l;
        l.max = 0x10000;
        applyLayout(s.file, l);
        Bytes error;
        if (!save(c, s, &error))
            c.fail("save", "%s: unable to save: %s %s", what.c_str(), error.c_str(), diagText(s.diag).c_str());
        s.file.close();
        // decode
        std::vector<Target> saved;
        for (auto &seg : ebml::decode(c, vt::readFile(path)))
            for (auto &tags : seg.kids)
                for (auto &tag : tags.kids)
                    if (tags.id == ebml::Tags && tag.id == ebml::Tag) {
                        saved.emplace_back();
                        for (auto &k : tag.kids)
                            if (k.id == ebml::Targets)
                                for (auto &v : k.kids) {
                                    if (v.id == ebml::TargetTypeValue)
                                        saved.back().level = v.u();
                                    else if (v.id == ebml::TagTrackUID)
                                        saved.back().tracks.push_back(v.u());
                                    else if (v.id == ebml::TagAttachmentUID)
                                        saved.back().attachments.push_back(v.u());
                                }
                        auto t = saved.back();
                        t.level = t.level ? t.level : 50;
                        bool titled = false;
                        for (auto &k : tag.kids)
                            titled = titled || (k.id == ebml::SimpleTag && k.s(ebml::TagName) == "TITLE" && k.s(ebml::TagString) == titleOf(t));
                        c.check(titled, "values", "%s: tag for %s has not the value of this target", what.c_str(), str({ t }).c_str());
                    }
        c.check(same(saved, model), "saved-targets", "%s: targets within the file are %s and not %s", what.c_str(), str(saved).c_str(), str(model).c_str());
        c.state(vt::hashStr(what));
        what += ", save";
    }
    s.parse();
    verify();
}

VT_SUITE(oggTargets, 4)
{
    // two streams, each with a comment
    const auto kindA = c.top & 1 ? ogg::Opus : ogg::Vorbis, kindB = c.top & 2 ? ogg::Opus : ogg::Vorbis;
    ogg::Paging paging;
    paging.perPage = 8;
    const auto a = ogg::paginate(fmts::oggStream(kindA, 11, 3000, "a"), paging), b = ogg::paginate(fmts::oggStream(kindB, 22, 3000, "b"), paging);
    Bytes file = ogg::str(a[0]) + ogg::str(b[0]);
    for (std::size_t i = 1; i < a.size() || i < b.size(); ++i)
        file += (i < a.size() ? ogg::str(a[i]) : "") + (i < b.size() ? ogg::str(b[i]) : "");
    const auto path = c.file("a.ogg");
    vt::removeAllIn(c.scratch());
    vt::writeFile(path, file);
    std::set<std::uint64_t> model{ 11, 22 };
    Bytes what = "Ogg file with two streams";
    Session s(path);
    const auto verify = [&] {
        std::set<std::uint64_t> now;
        for (auto *t : s.file.tags()) {
            c.check(t->target().tracks().size() == 1, "target", "%s: tag has no track", what.c_str());
            c.check(now.insert(t->target().tracks().front()).second, "target", "%s: several tags for one track", what.c_str());
        }
        c.check(now == model, "targets", "%s: there are %zu tags and not %zu (first: %llu)", what.c_str(), now.size(), model.size(), now.empty() ? 0ull : static_cast<unsigned long long>(*now.begin()));
    };
    static const std::vector<Target> lists[] = { {}, { { 0, { 11 }, {} } }, { { 0, { 22 }, {} } }, { { 0, { 22 }, {} }, { 0, { 11 }, {} } }, { { 30, {}, {} } } };
    for (int i = 0; i < (vt::thorough() ? 3 : 2); ++i) {
        s.parse();
        verify();
        switch (c.choose(4, "removal")) {
        case 1: what += ", remove all"; s.file.removeAllTags(); model.clear(); break;
        case 2: case 3:
            if (model.size() < 2)
                c.skip();
            for (auto *t : s.file.tags())
                if (t->target().tracks().front() == (c.top / 4 || i ? 11u : 22u)) {
                    c.check(s.file.removeTag(t), "result", "%s: tag not removed", what.c_str());
                    model.erase(t->target().tracks().front());
                    what += ", remove one";
                    break;
                }
        }
        verify();
        const auto list = c.choose(std::size(lists) + 1, "required targets");
        if (list < std::size(lists)) {
            const auto &required = lists[list];
            what += ", require " + str(required);
            c.check(s.file.createAppropriateTags(require(required)), "result", "%s: tags not created", what.c_str());
            for (auto &t : required)
                if (!t.tracks.empty())
                    model.insert(t.tracks[0]);
            if (model.empty()) { // any stream may be used
                const auto now = current(s.file);
                c.check(now.size() == 1 && now[0].tracks.size() == 1, "target", "%s: there are %zu tags", what.c_str(), now.size());
                model.insert(now[0].tracks[0] == 22 ? 22 : 11);
            }
            verify();
        }
        for (auto *t : s.file.tags())
            t->setValue(KnownField::Title, text(fmt("for %llu", static_cast<unsigned long long>(t->target().tracks().front())), TagTextEncoding::Utf8));
        Bytes error;
        if (!save(c, s, &error))
            c.fail("save", "%s: unable to save: %s %s", what.c_str(), error.c_str(), diagText(s.diag).c_str());
        s.file.close();
        for (auto &l : ogg::logical(c, ogg::pages(c, vt::readFile(path)))) {
            const auto kind = l.serial == 11 ? kindA : kindB;
            const Bytes magic = kind == ogg::Vorbis ? "\x03vorbis" : "OpusTags";
            const auto &p = l.packets.at(1).data;
            const auto tagged = p.compare(0, magic.size(), magic) == 0;
            c.check(tagged == (model.find(l.serial) != model.end()), "saved-targets", "%s: stream %u is %s", what.c_str(), l.serial, tagged ? "tagged" : "not tagged");
            c.check(!tagged || p.find(fmt("TITLE=for %u", l.serial)) != Bytes::npos, "values", "%s: tag of stream %u has not the value of this stream", what.c_str(), l.serial);
        }
        c.state(vt::hashStr(what));
        what += ", save";
    }
    s.parse();
    verify();
}

VT_SUITE(containers, fmts::Count)
{
    // formats with a single tag: creation and removal
    const auto id = static_cast<fmts::Id>(c.top);
    if (id == fmts::Mp3)
        c.skip();
    const auto path = c.file((Bytes("a") + fmts::formats[id].ext).c_str());
    vt::removeAllIn(c.scratch());
    vt::writeFile(path, fmts::formats[id].make(600, "title", 100));
    Bytes what = fmts::formats[id].name;
    Session s(path);
    s.parse();
    bool tagged = true;
    Bytes title = "title";
    for (int i = 0; i < (vt::thorough() ? 4 : 3); ++i) {
        switch (c.choose(5, "operation")) {
        case 0:
            what += ", remove all";
            s.file.removeAllTags();
            tagged = false;
            break;
        case 1:
            if (!tagged)
                c.skip();
            what += ", remove tag";
            c.check(s.file.removeTag(s.file.tags().front()), "result", "%s: not removed", what.c_str());
            tagged = false;
            break;
        case 2:
        case 3: {
            TagCreationSettings settings; // ID3-related settings have no effect
            settings.id3v1usage = c.pick(usages, "ID3v1 usage");
            settings.id3v2usage = c.pick(usages, "ID3v2 usage");
            settings.flags = c.flip("no flags") ? TagCreationFlags::None : settings.flags;
            what += ", create with " + str(settings);
            c.check(s.file.createAppropriateTags(settings), "result", "%s: not created", what.c_str());
            if (!tagged) {
                title = fmt("title %d", i);
                for (auto *t : s.file.tags()) {
                    c.check(t->value(KnownField::Title).isEmpty(), "values", "%s: title is still present", what.c_str());
                    t->setValue(KnownField::Title, text(title, TagTextEncoding::Utf8));
                }
            }
            tagged = true;
            break;
        }
        default: {
            what += ", save";
            Bytes error;
            if (!save(c, s, &error))
                c.fail("save", "%s: unable to save: %s %s", what.c_str(), error.c_str(), diagText(s.diag).c_str());
            s.file.close();
            const auto content = fmts::content(c, id, vt::readFile(path));
            c.check(content.titles == (tagged ? std::vector<Bytes>{ title } : std::vector<Bytes>()), "saved", "%s: %zu titles within the file", what.c_str(), content.titles.size());
            s.parse();
        }
        }
        c.check(s.file.tags().size() == (tagged ? 1 : 0) && s.file.hasAnyTag() == tagged && !s.file.hasId3v1Tag() && !s.file.hasId3v2Tag(), "tags", "%s: there are %zu tags", what.c_str(), s.file.tags().size());
        if (tagged)
            c.check(valueUtf8(s.file.tags().front()->value(KnownField::Title)) == title, "values", "%s: title is not %s", what.c_str(), title.c_str());
        c.state(vt::hashStr(what));
    }
}
