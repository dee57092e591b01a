// P04: MP4/iTunes tags survive being written and read back.
#include "common.h"

#include <tagparser/id3/id3genres.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/mp4/mp4tagfield.h>
#include <tagparser/progressfeedback.h>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P04";
const char *vt::rule = "every field id x stored value type x encoding (single, replaced after parsing, up to three fields of the same/other id, up to two additional data atoms, "
                       "extended mean/name combinations, all lengths around size steps); the bytes are decoded by an independent ilst decoder and parsed back from a file; "
                       "an independent encoder produces every data type indicator x payload width x id, missing/short/duplicate children, which are parsed, rewritten and decoded; "
                       "states = distinct written tags";
const char *vt::assumptions = "a value which can not be represented in the target field (text in an integer field, binary data in a text field) is dropped with a critical message|"
                              "signed integers of 8 bytes below the int range are outside the bound";

namespace {
using Ids = std::uint32_t;
constexpr Ids FourCC(const char (&s)[5])
{
    return Ids(static_cast<unsigned char>(s[0])) << 24 | Ids(static_cast<unsigned char>(s[1])) << 16 | Ids(static_cast<unsigned char>(s[2])) << 8 | static_cast<unsigned char>(s[3]);
}
constexpr Ids idTrkn = FourCC("trkn"), idDisk = FourCC("disk"), idGnre = FourCC("gnre"), idTmpo = FourCC("tmpo"), idStik = FourCC("stik"), idRtng = FourCC("rtng"),
              idCovr = FourCC("covr"), idExt = FourCC("----"), idNam = FourCC("\xA9nam"), idGen = FourCC("\xA9gen"), idFoo = FourCC("foo ");
enum { tReserved = 0, tUtf8 = 1, tUtf16 = 2, tGif = 12, tJpeg = 13, tPng = 14, tInt = 21, tUint = 22, tBmp = 27 };

struct Data {
    Ids type = 1;
    unsigned country = 0, lang = 0;
    Bytes payload;
    bool operator==(const Data &o) const
    {
        return type == o.type && country == o.country && lang == o.lang && payload == o.payload;
    }
};
struct Field {
    Ids id = 0;
    Bytes mean, name;
    std::vector<Data> data;
};
Bytes atom(Ids id, const Bytes &content)
{
    return BE(content.size() + 8, 4) + BE(id, 4) + content;
}
Bytes encData(const Data &d)
{
    return atom(FourCC("data"), BE(d.type, 4) + BE(d.country, 2) + BE(d.lang, 2) + d.payload);
}
Bytes encField(const Field &f)
{
    Bytes b;
    if (!f.mean.empty())
        b += atom(FourCC("mean"), BE(0, 4) + f.mean);
    if (!f.name.empty())
        b += atom(FourCC("name"), BE(0, 4) + f.name);
    for (auto &d : f.data)
        b += encData(d);
    return atom(f.id, b);
}
Bytes hdlr()
{
    return atom(FourCC("hdlr"), BE(0, 4) + BE(0, 4) + "mdirappl" + BE(0, 8) + BE(0, 1));
}
Bytes encMeta(const Bytes &ilstContent)
{
    return atom(FourCC("meta"), BE(0, 4) + hdlr() + atom(FourCC("ilst"), ilstContent));
}
Bytes encFile(const Bytes &meta)
{
    return atom(FourCC("ftyp"), "M4A " + BE(0, 4) + "M4A ") + atom(FourCC("moov"), atom(FourCC("udta"), meta));
}
using Atoms = std::vector<std::pair<Ids, std::string_view>>;
Atoms children(Ctx &c, std::string_view b, const char *what)
{
    Atoms r;
    for (std::size_t p = 0; p < b.size();) {
        c.check(b.size() - p >= 8, "size", "%s: %zu stray bytes", what, b.size() - p);
        const auto s = rdBE(b, p, 4);
        c.check(s >= 8 && s <= b.size() - p, "size", "%s: child declares %llu of %zu bytes", what, (unsigned long long)s, b.size() - p);
        r.emplace_back(static_cast<Ids>(rdBE(b, p + 4, 4)), b.substr(p + 8, s - 8));
        p += s;
    }
    return r;
}
std::vector<Field> decodeMeta(Ctx &c, const Bytes &b)
{
    const auto top = children(c, b, "meta");
    c.check(top.size() == 1 && top[0].first == FourCC("meta"), "structure", "not a single meta atom");
    c.check(top[0].second.size() >= 4 && rdBE(top[0].second, 0, 4) == 0, "structure", "version/flags of meta atom");
    const auto kids = children(c, top[0].second.substr(4), "meta children");
    c.check(kids.size() >= 1 && kids[0].first == FourCC("hdlr"), "structure", "hdlr atom missing");
    c.check(kids[0].second.size() >= 24 && kids[0].second.substr(8, 8) == "mdirappl", "structure", "hdlr type");
    std::vector<Field> r;
    c.check(kids.size() <= 2, "structure", "further children in meta");
    if (kids.size() < 2)
        return r;
    c.check(kids[1].first == FourCC("ilst"), "structure", "ilst atom missing");
    for (auto &[id, content] : children(c, kids[1].second, "ilst")) {
        Field f;
        f.id = id;
        for (auto &[kid, d] : children(c, content, "field")) {
            if (kid == FourCC("data")) {
                c.check(d.size() >= 8, "size", "short data atom");
                c.check(d[0] == 0, "structure", "version of data atom");
                f.data.push_back(Data{ static_cast<Ids>(rdBE(d, 0, 4)), static_cast<unsigned>(rdBE(d, 4, 2)), static_cast<unsigned>(rdBE(d, 6, 2)), Bytes(d.substr(8)) });
            } else if (kid == FourCC("mean") || kid == FourCC("name")) {
                c.check(d.size() >= 4 && rdBE(d, 0, 4) == 0, "structure", "mean/name version");
                auto &s = kid == FourCC("mean") ? f.mean : f.name;
                c.check(s.empty(), "structure", "mean/name repeated");
                s = d.substr(4);
            } else
                c.fail("structure", "unknown child of field");
        }
        r.push_back(std::move(f));
    }
    return r;
}
// meaning of a data atom as any conforming reader would see it
const std::pair<int, const char *> mediaTypes[] = { { 0, "Movie" }, { 1, "Music" }, { 2, "Audiobook" }, { 5, "Whacked Bookmark" }, { 6, "Music Video" }, { 9, "Short Film" },
    { 10, "TV Show" }, { 11, "Booklet" }, { 14, "Ringtone" }, { 21, "Podcast" } };
const std::pair<int, const char *> ratings[] = { { 0, "None" }, { 2, "Clean" }, { 4, "Explicit" } };
Bytes intMeaning(Ids id, long long v)
{
    if (id == idGnre && v <= 0x7fffffff)
        return fmt("genre:%lld", v - 1);
    if (id == idStik)
        for (auto &m : mediaTypes)
            if (m.first == v)
                return fmt("text:%s", m.second);
    if (id == idRtng)
        for (auto &m : ratings)
            if (m.first == v)
                return fmt("text:%s", m.second);
    if (id == idRtng && v >= 0 && v <= 255)
        return "text:Explicit"; // documented: any other value means explicit
    return fmt("int:%lld", v);
}
Bytes meaning(Ids id, const Data &d)
{
    const auto &p = d.payload;
    switch (d.type) {
    case tUtf8:
        return "text:" + p;
    case tUtf16:
        return "text:" + decode(p, TagTextEncoding::Utf16BigEndian);
    case tInt: {
        if (p.size() < 1 || (p.size() > 4 && p.size() != 8))
            return "bad";
        long long v = 0;
        for (unsigned char ch : p)
            v = v << 8 | ch;
        if (p.size() < 8 && (static_cast<unsigned char>(p[0]) & 0x80))
            v -= 1ll << (8 * p.size());
        return intMeaning(id, v);
    }
    case tUint: {
        if (p.size() < 1 || (p.size() > 4 && p.size() != 8))
            return "bad";
        const auto v = rdBE(p, 0, static_cast<int>(p.size()));
        return v > 0x7fffffff ? fmt("int:%llu", (unsigned long long)v) : intMeaning(id, static_cast<long long>(v));
    }
    case tGif:
        return "pic:image/gif:" + p;
    case tJpeg:
        return "pic:image/jpeg:" + p;
    case tPng:
        return "pic:image/png:" + p;
    case tBmp:
        return "pic:image/bmp:" + p;
    default:
        if (id == idTrkn || id == idDisk)
            return p.size() < 6 ? Bytes("bad") : fmt("pos:%llu/%llu", (unsigned long long)rdBE(p, 2, 2), (unsigned long long)rdBE(p, 4, 2));
        if (id == idGnre)
            return p.size() < 2 ? Bytes("bad") : fmt("genre:%d", static_cast<int>(rdBE(p, 0, 2)) - 1);
        return (id == idCovr ? "pic::" : fmt("raw%u:", d.type)) + p;
    }
}
// meaning of a value returned by the library
Bytes meaning(const TagValue &v)
{
    switch (v.type()) {
    case TagDataType::Text:
        return "text:" + valueUtf8(v);
    case TagDataType::Integer:
        return fmt("int:%d", v.toInteger());
    case TagDataType::UnsignedInteger:
        return fmt("int:%llu", (unsigned long long)v.toUnsignedInteger());
    case TagDataType::PositionInSet:
        return v.isEmpty() ? Bytes("pos:0/0") : fmt("pos:%d/%d", v.toPositionInSet().position(), v.toPositionInSet().total());
    case TagDataType::StandardGenreIndex:
        return fmt("genre:%d", v.toInteger());
    case TagDataType::Picture:
        return "pic:" + v.mimeType() + ":" + Bytes(v.dataSize() ? v.dataPointer() : "", v.dataSize());
    default:
        return "raw:" + Bytes(v.dataSize() ? v.dataPointer() : "", v.dataSize());
    }
}
bool sameMeaning(const Bytes &decoded, const Bytes &lib)
{
    if (decoded == lib)
        return true;
    if (decoded.rfind("raw", 0) == 0 && lib.rfind("raw", 0) == 0)
        return decoded.substr(decoded.find(':')) == lib.substr(lib.find(':'));
    return false;
}

struct Parsed {
    std::unique_ptr<MediaFileInfo> file;
    Diagnostics diag;
    Mp4Tag *tag = nullptr;
};
Parsed parseFile(Ctx &c, const Bytes &meta)
{
    const auto path = c.file("t.m4a");
    vt::writeFile(path, encFile(meta));
    Parsed r;
    r.file = std::make_unique<MediaFileInfo>(path);
    AbortableProgressFeedback progress;
    r.file->open(true);
    r.file->parseContainerFormat(r.diag, progress);
    r.file->parseTags(r.diag, progress);
    c.check(r.file->container() && r.file->containerFormat() == ContainerFormat::Mp4, "container", "file not recognised as MP4");
    r.tag = r.file->mp4Tag();
    c.step();
    return r;
}
Bytes make(Ctx &c, Mp4Tag &tag, Diagnostics &diag)
{
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    s.exceptions(std::ios::failbit | std::ios::badbit);
    try {
        auto maker = tag.prepareMaking(diag);
        const auto want = maker.requiredSize();
        maker.make(s, diag);
        const auto b = s.str();
        c.check(b.size() == want, "required-size", "announced %llu bytes but wrote %zu", (unsigned long long)want, b.size());
        c.step();
        c.state(vt::hashStr(b));
        return b;
    } catch (const std::exception &e) {
        c.fail("exception", "making the tag failed: %s", e.what());
    }
}
// the values offered for every field
struct Val {
    const char *what;
    TagValue v;
};
TagValue picture(const char *mime, std::size_t n)
{
    const auto b = filler(n, 5);
    TagValue v(b.data(), b.size(), TagDataType::Picture);
    v.setMimeType(mime);
    return v;
}
TagValue genre(int i)
{
    TagValue v;
    v.assignStandardGenreIndex(i);
    return v;
}
const std::vector<TagValue> &values()
{
    static const auto vals = [] {
        std::vector<TagValue> r;
        for (auto *t : { "a", "\xC3\xA9!", "\xE6\x97\xA5x", "\xF0\x9F\x98\x80", "5", "5/10", "17", "70000", "-3", "Music", "Clean", "Rock", "2011-12" })
            for (auto e : allEncodings)
                if (e != TagTextEncoding::Latin1 || isLatin1(t))
                    r.push_back(text(t, e));
        for (int n : { 0, 1, 9, -1, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647 })
            r.push_back(TagValue(n));
        for (std::uint64_t n : { 0ull, 1ull, 65535ull, 65536ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull })
            r.push_back(TagValue(n));
        for (auto p : { PositionInSet(1), PositionInSet(1, 2), PositionInSet(0, 5), PositionInSet(255, 256), PositionInSet(32767, 32768), PositionInSet(65535, 65535),
                 PositionInSet(65536, 1), PositionInSet(1, 65536), PositionInSet(-1, 3) })
            r.push_back(TagValue(p));
        for (int g : { 0, 1, 17, 125, 191 })
            r.push_back(genre(g));
        for (auto *m : { "image/jpeg", "image/jpg", "image/png", "image/bmp", "image/gif", "" })
            r.push_back(picture(m, 33));
        r.push_back(TagValue("\0\1\2\3", 4, TagDataType::Binary));
        r.push_back(TagValue("\0\1\2", 3, TagDataType::Undefined));
        r.push_back(TagValue(CppUtilities::DateTime::fromDateAndTime(2011, 12, 1, 13, 4, 5)));
        r.push_back(TagValue(CppUtilities::DateTimeExpression::fromIsoString("2011-12")));
        return r;
    }();
    return vals;
}
bool isRaw(const TagValue &v)
{
    return v.type() == TagDataType::Picture || v.type() == TagDataType::Binary || v.type() == TagDataType::Undefined;
}
Bytes asText(const TagValue &v) // the text a value stands for (reference conversion)
{
    switch (v.type()) {
    case TagDataType::Text:
        return valueUtf8(v);
    case TagDataType::PositionInSet: {
        const auto p = v.toPositionInSet();
        return p.position() && p.total() ? fmt("%d/%d", p.position(), p.total()) : p.position() ? fmt("%d", p.position()) : fmt("/%d", p.total());
    }
    case TagDataType::Integer:
        return fmt("%d", v.toInteger());
    case TagDataType::UnsignedInteger:
        return fmt("%llu", (unsigned long long)v.toUnsignedInteger());
    case TagDataType::StandardGenreIndex:
        return Bytes(Id3Genres::stringFromIndex(v.toStandardGenreIndex()));
    case TagDataType::DateTime:
        return "2011-12-01T13:04:05";
    case TagDataType::DateTimeExpression:
        return "2011-12";
    default:
        return "?";
    }
}
enum class Verdict { Exact, Dropped, Any };
// what must end up in the file for the value in a field; Any: conversion questionable, only structure and signalling are judged
std::pair<Verdict, Bytes> expectation(Ids id, const TagValue &v, bool replaced)
{
    const auto asNumber = [&]() -> std::optional<long long> {
        if (v.type() == TagDataType::Integer)
            return v.toInteger();
        if (v.type() == TagDataType::UnsignedInteger)
            return v.toUnsignedInteger();
        if (v.type() == TagDataType::Text) {
            const auto t = valueUtf8(v);
            if (t.empty() || t.find_first_not_of("0123456789-") != t.npos || t.find('-', 1) != t.npos)
                return std::nullopt;
            return std::atoll(t.c_str());
        }
        return std::nullopt;
    };
    if (id == idTrkn || id == idDisk) {
        if (v.type() == TagDataType::PositionInSet) {
            const auto p = v.toPositionInSet();
            if (p.position() < 0 || p.position() > 65535 || p.total() < 0 || p.total() > 65535)
                return { Verdict::Dropped, {} };
            return { Verdict::Exact, fmt("pos:%d/%d", p.position(), p.total()) };
        }
        if (const auto n = asNumber()) {
            if (*n < 0 || *n > 65535)
                return { Verdict::Dropped, {} };
            return { Verdict::Exact, fmt("pos:%lld/0", *n) };
        }
        if (v.type() == TagDataType::Text && valueUtf8(v) == "5/10")
            return { Verdict::Exact, "pos:5/10" };
        if (v.type() == TagDataType::Text || isRaw(v))
            return { valueUtf8(v) == "2011-12" ? Verdict::Any : Verdict::Dropped, {} };
        return { Verdict::Any, {} };
    }
    if (id == idGnre) {
        if (v.type() == TagDataType::StandardGenreIndex)
            return { Verdict::Exact, fmt("genre:%d", v.toStandardGenreIndex()) };
        if (v.type() == TagDataType::Text && valueUtf8(v) == "Rock")
            return { Verdict::Exact, "genre:17" };
        if (v.type() == TagDataType::Text && valueUtf8(v) == "17")
            return { Verdict::Exact, "genre:17" };
        if (isRaw(v))
            return { Verdict::Dropped, {} };
        return { Verdict::Any, {} };
    }
    if (id == idTmpo || id == idStik || id == idRtng) {
        if (v.type() == TagDataType::Text && id == idStik && valueUtf8(v) == "Music")
            return { Verdict::Exact, "text:Music" };
        if (v.type() == TagDataType::Text && id == idRtng && valueUtf8(v) == "Clean")
            return { Verdict::Exact, "text:Clean" };
        if (const auto n = asNumber()) {
            if (*n < -2147483648ll || *n > 2147483647ll)
                return { Verdict::Dropped, {} };
            return { Verdict::Exact, intMeaning(id, *n) };
        }
        if (v.type() == TagDataType::Text || isRaw(v))
            return { valueUtf8(v) == "2011-12" ? Verdict::Any : Verdict::Dropped, {} };
        return { Verdict::Any, {} };
    }
    if (id == idCovr) {
        if (v.type() != TagDataType::Picture)
            return { Verdict::Any, {} };
        if (v.mimeType().empty() && replaced)
            return { Verdict::Any, {} }; // may keep the type of the previous picture
        const auto mime = v.mimeType() == "image/jpg" || v.mimeType().empty() ? Bytes("image/jpeg") : v.mimeType();
        return { Verdict::Exact, "pic:" + mime + ":" + Bytes(v.dataPointer(), v.dataSize()) };
    }
    if (isRaw(v))
        return { Verdict::Exact, "raw0:" + Bytes(v.dataPointer(), v.dataSize()) };
    return { Verdict::Exact, "text:" + asText(v) };
}
void judge(Ctx &c, Ids id, const TagValue &v, const std::vector<Field> &fields, const Parsed &back, const Diagnostics &diag, Mp4Tag &backTag, bool replaced = false)
{
    const auto [verdict, want] = expectation(id, v, replaced);
    c.check(fields.size() <= 1, "count", "%zu fields written for one value", fields.size());
    if (fields.empty()) {
        c.check(verdict != Verdict::Exact, "dropped", "value %s for field %08X not written; diag: %s", describe(v).c_str(), id, diagText(diag).c_str());
        c.check(hasLevel(diag, DiagLevel::Critical), "silent-drop", "value %s dropped silently", describe(v).c_str());
        return;
    }
    c.check(verdict != Verdict::Dropped, "not-dropped", "value %s can not be represented in %08X but something was written: %s", describe(v).c_str(), id,
        fields[0].data.empty() ? "no data" : quote(meaning(id, fields[0].data[0])).c_str());
    c.check(fields[0].id == id && fields[0].data.size() == 1, "field", "unexpected field %08X with %zu data atoms", fields[0].id, fields[0].data.size());
    const auto got = meaning(id, fields[0].data[0]);
    if (verdict == Verdict::Exact) {
        c.check(sameMeaning(got, want) || got == want, "written-value", "%s in %08X written as %s (type %u %s)", describe(v).c_str(), id, quote(got).c_str(),
            fields[0].data[0].type, hex(fields[0].data[0].payload).c_str());
    }
    // read back
    const auto &r = backTag.value(id);
    c.check(backTag.fields().size() == 1, "read-count", "%zu fields read", backTag.fields().size());
    c.check(sameMeaning(got, meaning(r)), "read-value", "%s in %08X written as %s but read as %s", describe(v).c_str(), id, quote(got).c_str(), describe(r).c_str());
    c.check(!hasLevel(back.diag, DiagLevel::Critical), "diag", "%s", diagText(back.diag).c_str());
}

const std::vector<Ids> &allIds()
{
    static const auto ids = [] {
        std::vector<Ids> r;
        Mp4Tag t;
        for (auto f = static_cast<int>(firstKnownField); f <= static_cast<int>(lastKnownField); ++f)
            if (const auto id = t.fieldId(static_cast<KnownField>(f)))
                r.push_back(id);
        r.push_back(idGnre);
        r.push_back(idFoo);
        return r;
    }();
    return ids;
}
} // namespace

// one value in one field; then replaced by any other value after it has been parsed
VT_SUITE(single, allIds().size())
{
    const auto id = allIds()[c.top];
    const auto &v1 = values()[c.choose(values().size(), "value")];
    Mp4Tag tag;
    Diagnostics diag;
    c.check(tag.setValue(id, v1), "refused", "value refused");
    const auto b = make(c, tag, diag);
    const auto fields = decodeMeta(c, b);
    if (fields.empty()) {
        Parsed none;
        judge(c, id, v1, fields, none, diag, tag);
        return;
    }
    auto back = parseFile(c, b);
    c.check(back.tag, "no-tag", "tag not found; %s", diagText(back.diag).c_str());
    judge(c, id, v1, fields, back, diag, *back.tag);
    if (meaning(id, fields[0].data[0]) == "pos:0/0")
        return; // equivalent to no value at all
    // written again: the very same bytes
    Diagnostics d2;
    const auto b2 = make(c, *back.tag, d2);
    const auto again = decodeMeta(c, b2);
    const bool numeric = id == idStik || id == idRtng; // numbers may be stored with another width
    c.check(b2 == b || (numeric && again.size() == 1 && meaning(id, again[0].data.at(0)) == meaning(id, fields[0].data[0])), "stable", "value %s of %08X changes when written again: %s / %s", describe(v1).c_str(), id, quote(b).c_str(), quote(b2).c_str());
    if (!vt::thorough() && c.top % 3 && id != idTrkn && id != idGnre && id != idTmpo && id != idCovr && id != idStik && id != idFoo)
        return;
    // replace
    static const std::size_t step = vt::thorough() ? 1 : 3;
    const auto &v2 = values()[(c.choose((values().size() + step - 1) / step, "replacement")) * step];
    c.check(back.tag->setValue(id, v2), "refused", "replacement refused");
    Diagnostics d3;
    const auto b3 = make(c, *back.tag, d3);
    const auto f3 = decodeMeta(c, b3);
    Parsed back3;
    if (!f3.empty())
        back3 = parseFile(c, b3);
    auto &t3 = back3.tag ? *back3.tag : tag;
    judge(c, id, v2, f3, back3, d3, t3, true);
}

// several fields: order, multiple fields with the same ID, additional data atoms, other fields not affected by one which can not be written
VT_SUITE(several, 7)
{
    static const Ids ids[] = { idNam, idTrkn, idCovr, idTmpo, idFoo };
    struct Item {
        Ids id;
        std::vector<TagValue> values;
    };
    static const TagValue good[] = { text("a"), text("b\xC3\xA9", TagTextEncoding::Utf16LittleEndian), TagValue(PositionInSet(3, 4)), TagValue(7), picture("image/png", 9) };
    const auto n = 1 + (c.top + 1) % (vt::thorough() ? 4 : 3);
    std::vector<Item> items;
    for (std::size_t i = 0; i < n; ++i) {
        Item it;
        it.id = i == 0 ? ids[c.top % 5] : c.pick(ids, "id");
        const auto nv = 1 + c.choose(3, "data atoms");
        for (std::size_t k = 0; k < nv; ++k) {
            if (it.id == idTrkn)
                it.values.push_back(TagValue(PositionInSet(static_cast<int>(i + 1), static_cast<int>(k + 5))));
            else if (it.id == idCovr)
                it.values.push_back(picture(k % 2 ? "image/png" : "image/bmp", 5 + i * 7 + k));
            else if (it.id == idTmpo)
                it.values.push_back(TagValue(static_cast<int>(i * 40000 + k)));
            else
                it.values.push_back(text(std::string(1 + k, static_cast<char>('a' + i)), k == 1 ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8));
        }
        if (c.top >= 5 && i + 1 == n)
            it.values[c.choose(nv, "empty one")] = TagValue();
        items.push_back(std::move(it));
    }
    Mp4Tag tag;
    for (auto &it : items) {
        Mp4TagField f(it.id, it.values[0]);
        for (std::size_t k = 1; k < it.values.size(); ++k)
            f.additionalData().emplace_back().value = it.values[k];
        tag.fields().emplace(it.id, std::move(f));
    }
    std::stable_sort(items.begin(), items.end(), [](auto &a, auto &b) { return a.id < b.id; });
    Diagnostics diag;
    const auto b = make(c, tag, diag);
    const auto fields = decodeMeta(c, b);
    std::vector<std::pair<Ids, std::vector<Bytes>>> want, got, lib;
    for (auto &it : items) {
        std::vector<Bytes> m;
        for (auto &v : it.values)
            if (!v.isEmpty())
                m.push_back(meaning(v));
        if (!m.empty())
            want.emplace_back(it.id, m);
    }
    for (auto &f : fields) {
        std::vector<Bytes> m;
        for (auto &d : f.data)
            m.push_back(meaning(f.id, d));
        got.emplace_back(f.id, m);
    }
    c.check(want == got, "several", "written fields differ: %s; %s", hex(b, 400).c_str(), diagText(diag).c_str());
    if (want.empty())
        return;
    auto back = parseFile(c, b);
    c.check(back.tag, "no-tag", "no tag");
    for (auto &[id, f] : back.tag->fields()) {
        std::vector<Bytes> m{ meaning(f.value()) };
        for (auto &a : f.additionalData())
            m.push_back(meaning(a.value));
        lib.emplace_back(id, m);
    }
    c.check(lib == want, "several-read", "read fields differ for %s", hex(b, 400).c_str());
    Diagnostics d2;
    c.check(make(c, *back.tag, d2) == b, "stable", "not byte stable");
}

// a field which can not be written does not affect others
VT_SUITE(partial, 4)
{
    static const Ids ids[] = { idTrkn, idTmpo, idNam, idStik };
    const auto id = ids[c.top];
    Mp4Tag tag;
    const auto pos = c.choose(3, "position");
    const auto id2 = pos == 0 ? idFoo : FourCC("zzzz"), id1 = pos == 0 ? FourCC("aaaa") : idFoo;
    tag.setValue(id1, text("one"));
    tag.setValue(id2, text("two"));
    const TagValue bad = id == idNam ? TagValue("\0\1", 2, TagDataType::Binary) : id == idTrkn ? TagValue(PositionInSet(70000, 1)) : text("no number");
    const auto twice = c.flip();
    tag.fields().emplace(id, Mp4TagField(id, bad));
    if (twice)
        tag.fields().emplace(id, Mp4TagField(id, id == idTrkn ? TagValue(PositionInSet(1, 1)) : id == idNam ? text("ok") : TagValue(3)));
    Diagnostics diag;
    const auto b = make(c, tag, diag);
    const auto fields = decodeMeta(c, b);
    std::size_t n = 2 + twice + (id == idNam);
    c.check(fields.size() == n, "partial", "%zu instead of %zu fields written", fields.size(), n);
    c.check(id == idNam || hasLevel(diag, DiagLevel::Critical), "silent-drop", "dropped silently");
    auto back = parseFile(c, b);
    c.check(back.tag && valueUtf8(back.tag->value(id1)) == "one" && valueUtf8(back.tag->value(id2)) == "two", "partial", "other fields affected");
}

// lengths of text and of pictures
VT_SUITE(lengths, 5)
{
    static const std::size_t lens[] = { 1, 2, 3, 7, 8, 9, 15, 16, 127, 128, 255, 256, 257, 65515, 65519, 65535, 65536, 70001, (1 << 20) + 1 };
    const auto len = c.pick(lens);
    const auto tail = c.flip("another field follows");
    TagValue v;
    auto raw = filler(len, 3);
    for (auto &ch : raw)
        ch = 'A' + static_cast<unsigned char>(ch) % 26;
    const Ids id = c.top == 4 ? idCovr : c.top == 3 ? idFoo : idNam;
    if (c.top == 4)
        v = picture("image/png", len);
    else if (c.top == 3)
        v = TagValue(raw.data(), raw.size(), TagDataType::Binary);
    else
        v = text(raw, allEncodings[c.top + 1]);
    Mp4Tag tag;
    tag.setValue(id, v);
    if (tail)
        tag.setValue(FourCC("zzzz"), text("last"));
    Diagnostics diag;
    const auto b = make(c, tag, diag);
    const auto fields = decodeMeta(c, b);
    c.check(fields.size() == 1 + tail, "count", "%zu fields", fields.size());
    std::size_t index = 0;
    for (; index < fields.size() && fields[index].id != id; ++index)
        ;
    c.check(index < fields.size() && sameMeaning(meaning(id, fields[index].data.at(0)), meaning(v)), "written-value", "length %zu: value differs", len);
    auto back = parseFile(c, b);
    c.check(back.tag && sameMeaning(meaning(back.tag->value(id)), meaning(v)), "read-value", "length %zu: value differs after reading", len);
    c.check(!tail || valueUtf8(back.tag->value(FourCC("zzzz"))) == "last", "read-value", "following field lost");
}

// extended fields
VT_SUITE(extended, 8)
{
    static const char *const strs[] = { "", "a", "abc", "com.apple.iTunes", "LABEL", "cdec", "iTunNORM", "\xC3\xA9t\xC3\xA9" };
    const Bytes mean = strs[c.top], name = c.pick(strs, "name");
    struct E {
        Bytes mean, name;
        TagValue v;
    };
    static const TagValue vals[] = { text("x"), text("\xC3\xA9", TagTextEncoding::Latin1), text("\xE6\x97\xA5", TagTextEncoding::Utf16LittleEndian),
        text("\xE6\x97\xA5", TagTextEncoding::Utf16BigEndian), TagValue(5), TagValue("\0\1\2", 3, TagDataType::Binary), TagValue(PositionInSet(1, 2)) };
    std::vector<E> es{ { mean, name, c.pick(vals, "value") } };
    switch (c.choose(4, "second")) {
    case 1:
        es.push_back({ mean, name, text("second") });
        break;
    case 2:
        es.push_back({ mean, name + "2", text("other name") });
        break;
    case 3:
        es.push_back({ mean + "2", name, text("other mean") });
        break;
    default:;
    }
    Mp4Tag tag;
    for (auto &e : es)
        tag.fields().emplace(Mp4TagAtomIds::Extended, Mp4TagField(e.mean, e.name, e.v));
    Diagnostics diag;
    const auto b = make(c, tag, diag);
    const auto fields = decodeMeta(c, b);
    c.check(fields.size() == es.size(), "count", "%zu instead of %zu extended fields; %s", fields.size(), es.size(), diagText(diag).c_str());
    auto back = parseFile(c, b);
    c.check(back.tag && back.tag->fields().size() == es.size(), "read-count", "number of fields read");
    auto it = back.tag->fields().begin();
    for (std::size_t i = 0; i < es.size(); ++i, ++it) {
        const auto &f = fields[i];
        c.check(f.id == idExt && f.mean == es[i].mean && f.name == es[i].name && f.data.size() == 1, "extended", "mean/name written as %s/%s", f.mean.c_str(), f.name.c_str());
        const auto want = isRaw(es[i].v) ? "raw0:" + Bytes(es[i].v.dataPointer(), es[i].v.dataSize()) : "text:" + asText(es[i].v);
        c.check(sameMeaning(meaning(idExt, f.data[0]), want), "written-value", "extended value %s written as %s", describe(es[i].v).c_str(),
            quote(meaning(idExt, f.data[0])).c_str());
        c.check(it->second.mean() == es[i].mean && it->second.name() == es[i].name, "extended", "mean/name read as %s/%s", it->second.mean().c_str(), it->second.name().c_str());
        c.check(sameMeaning(want, meaning(it->second.value())), "read-value", "extended value read as %s", describe(it->second.value()).c_str());
    }
    // access by mean and name: first one wins
    c.check(sameMeaning(meaning(idExt, fields[0].data[0]), meaning(back.tag->value(es[0].mean, es[0].name))), "by-name", "value(mean, name)");
    if (es.size() == 2 && c.flip("replace by name")) {
        back.tag->setValue(es[1].mean, es[1].name, text("replaced"));
        const bool first = es[0].mean == es[1].mean && es[0].name == es[1].name;
        Diagnostics d2;
        const auto f2 = decodeMeta(c, make(c, *back.tag, d2));
        c.check(f2.size() == 2, "count", "count after replacing");
        c.check(meaning(idExt, f2[!first].data.at(0)) == "text:replaced", "by-name", "replaced value");
        c.check(f2[first].data == fields[first].data, "by-name", "other field affected by replacing");
    }
}

// data of other writers: all data types, widths and IDs
VT_SUITE(foreign, 10)
{
    static const Ids ids[] = { idNam, idTrkn, idDisk, idGnre, idTmpo, idStik, idRtng, idCovr, idFoo, idExt };
    const auto id = ids[c.top];
    static const Ids types[] = { 0, 1, 2, 12, 13, 14, 21, 22, 27, 18, 255 };
    Data d;
    d.type = c.pick(types, "type");
    d.country = c.choose(2) * 0x1234;
    d.lang = c.choose(2) * 0x0A0B;
    switch (d.type) {
    case 1: {
        static const char *const t[] = { "", "x", "abc", "\xE6\x97\xA5\xF0\x9F\x98\x80", "7", "very long text which is longer than a few bytes" };
        d.payload = c.pick(t);
        break;
    }
    case 2: {
        static const char *const t[] = { "", "x", "abc", "\xE6\x97\xA5\xF0\x9F\x98\x80", "Q\xC4\x80" };
        d.payload = encode(c.pick(t), TagTextEncoding::Utf16BigEndian);
        break;
    }
    case 21:
    case 22: {
        static const int widths[] = { 1, 2, 3, 4, 8 };
        const auto w = c.pick(widths, "width");
        static const long long nums[] = { 0, 1, 2, 4, 21, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000ll,
            0xffffffffll, 0x100000000ll, 0x7fffffffffffffffll, -1, -128, -129, -32768, -8388608, -2147483648ll };
        const auto v = c.pick(nums, "number");
        const bool sign = d.type == 21;
        const auto lo = sign ? -(w == 8 ? 2147483648ll : 1ll << (8 * w - 1)) : 0, hi = w == 8 ? 0x7fffffffffffffffll : (1ll << (8 * w - sign)) - 1;
        if (v < lo || v > hi || (id == idGnre && v == -2147483648ll))
            c.skip();
        d.payload = BE(static_cast<std::uint64_t>(v), w);
        break;
    }
    default: {
        static const std::size_t n[] = { 0, 1, 2, 4, 6, 8, 9, 100 };
        const auto len = c.pick(n, "length");
        if ((id == idTrkn || id == idDisk) && d.type != 12 && d.type != 13 && d.type != 14 && d.type != 27) {
            d.payload = (BE(0, 2) + BE(300, 2) + BE(65535, 2) + BE(0, 2)).substr(0, std::min<std::size_t>(len, 8));
        } else if (id == idGnre && d.type != 12 && d.type != 13 && d.type != 14 && d.type != 27) {
            d.payload = BE(18, 2).substr(0, len);
        } else
            d.payload = filler(len, 7);
        if (len > 8 && (id == idTrkn || id == idDisk || id == idGnre))
            c.skip();
    }
    }
    Field f{ id, id == idExt ? "com.apple.iTunes" : "", id == idExt ? "name" : "", { d } };
    const auto second = c.choose(3, "second data atom");
    if (second == 1)
        f.data.push_back(Data{ tUtf8, 1, 2, "second" });
    else if (second == 2)
        f.data.push_back(Data{ tInt, 1, 2, BE(3, 2) });
    const auto after = Field{ FourCC("zzzz"), "", "", { Data{ 1, 0, 0, "after" } } };
    auto back = parseFile(c, encMeta(encField(f) + encField(after)));
    c.check(back.tag, "no-tag", "no tag; %s", diagText(back.diag).c_str());
    c.check(back.tag->fields().size() == 2, "read-count", "%zu fields read", back.tag->fields().size());
    c.check(valueUtf8(back.tag->value(FourCC("zzzz"))) == "after", "read-value", "following field lost");
    const auto it = back.tag->fields().find(id);
    c.check(it != back.tag->fields().end(), "read-count", "field lost");
    const auto &lf = it->second;
    const auto want = meaning(id, d);
    const bool truncated = want == "bad" || d.payload.empty();
    if (!truncated)
        c.check(sameMeaning(want, meaning(lf.value())), "read-value", "%08X type %u %s read as %s instead of %s", id, d.type, hex(d.payload).c_str(),
            describe(lf.value()).c_str(), quote(want).c_str());
    c.check(lf.countryIndicator() == d.country && lf.languageIndicator() == d.lang, "locale", "country/language indicator");
    c.check(lf.parsedRawDataType() == d.type, "raw-type", "raw data type %u", lf.parsedRawDataType());
    c.check(lf.additionalData().size() == (second != 0), "additional", "%zu additional values", lf.additionalData().size());
    if (second) {
        const auto &a = lf.additionalData()[0];
        c.check(sameMeaning(meaning(id, f.data[1]), meaning(a.value)), "additional", "additional value read as %s", describe(a.value).c_str());
        c.check(a.countryIndicator == 1 && a.languageIndicator == 2 && a.rawDataType == f.data[1].type, "additional", "indicators of additional value");
    }
    if (truncated)
        return;
    // written again: the same meaning and indicators
    Diagnostics d2;
    auto fields = decodeMeta(c, make(c, *back.tag, d2));
    std::stable_sort(fields.begin(), fields.end(), [&](auto &a, auto &b) { return (a.id == id) > (b.id == id); });
    if (fields.size() == 1 && hasLevel(d2, DiagLevel::Critical))
        return; // not representable; signalled
    c.check(fields.size() == 2 && fields[0].id == id && fields[0].data.size() == f.data.size(), "rewrite", "%zu fields written again; %s", fields.size(), diagText(d2).c_str());
    for (std::size_t i = 0; i < f.data.size(); ++i) {
        const auto &a = f.data[i], &b = fields[0].data[i];
        const auto ma = meaning(id, a), mb = meaning(id, b);
        c.check(sameMeaning(ma, mb), "rewrite", "%08X %s (type %u) becomes %s (type %u) when written again", id, quote(ma).c_str(), a.type, quote(mb).c_str(), b.type);
        c.check(a.country == b.country && a.lang == b.lang, "rewrite", "country/language lost");
    }
}

// unusual structure: order of children, unknown/truncated/duplicate children, free atoms
VT_SUITE(structure, 12)
{
    const Bytes mean = atom(FourCC("mean"), BE(0, 4) + "m"), name = atom(FourCC("name"), BE(0, 4) + "n"), data = encData(Data{ 1, 0, 0, "val" });
    Bytes content;
    bool warn = true, keepsNames = true;
    switch (c.top) {
    case 0: content = name + mean + data; warn = false; break;
    case 1: content = data + mean + name; warn = false; break;
    case 2: content = mean + data + name; warn = false; break;
    case 3: content = mean + name + atom(FourCC("data"), BE(1, 4)) + data; break;
    case 4: content = mean + name + atom(FourCC("data"), "") + data; break;
    case 5: content = mean + mean + name + data; break;
    case 6: content = mean + name + name + data; break;
    case 7: content = mean + name + atom(FourCC("junk"), "abcdef") + data; break;
    case 8: content = mean + name + data + atom(FourCC("junk"), ""); break;
    case 9: content = atom(FourCC("mean"), BE(0, 3)) + mean + name + data; break;
    case 10: content = mean + atom(FourCC("name"), "") + name + data; break;
    case 11: content = mean + name + BE(1, 4) + "data" + BE(16 + 8 + 3, 8) + BE(1, 4) + BE(0, 4) + "val"; warn = false; break; // 64-bit size
    }
    const auto before = c.flip("field before"), after = c.flip("field after"), free = c.flip("free atom in meta");
    const auto f = [](const char *v) { return encField(Field{ idNam, "", "", { Data{ 1, 0, 0, v } } }); };
    Bytes meta = encMeta((before ? f("before") : "") + atom(idExt, content) + (after ? f("after") : ""));
    if (free) {
        meta = BE(meta.size() + 20, 4) + meta.substr(4) + atom(FourCC("free"), Bytes(12, 0));
    }
    auto back = parseFile(c, meta);
    c.check(back.tag, "no-tag", "no tag");
    c.check(back.tag->fields().size() == 1u + before + after, "read-count", "%zu fields", back.tag->fields().size());
    const auto &v = back.tag->value("m", "n");
    c.check(keepsNames && meaning(v) == "text:val", "structure", "value not found via mean and name: %s; %s", describe(v).c_str(), diagText(back.diag).c_str());
    c.check(hasLevel(back.diag, DiagLevel::Warning) == warn, "structure-warning", "unexpected diagnostics: %s", diagText(back.diag).c_str());
    std::vector<Bytes> got, want;
    for (auto *x : back.tag->values(idNam))
        got.push_back(valueUtf8(*x));
    if (before)
        want.push_back("before");
    if (after)
        want.push_back("after");
    c.check(got == want, "structure", "other fields");
    if (c.top == 11)
        return;
    Diagnostics d2;
    const auto fields = decodeMeta(c, make(c, *back.tag, d2));
    c.check(fields.size() == 1u + before + after && fields[0].id == idExt && fields[0].mean == "m" && fields[0].name == "n" && fields[0].data.size() == 1
            && fields[0].data[0].payload == "val",
        "rewrite", "rewritten field");
}

// genre: text and index
VT_SUITE(genres, 3)
{
    const auto n = c.choose(192, "genre");
    Mp4Tag tag;
    TagValue v = c.top == 1 ? text(Bytes(Id3Genres::stringFromIndex(static_cast<int>(n)))) : genre(static_cast<int>(n));
    if (c.top == 2)
        tag.setValue(KnownField::Genre, text("other"));
    c.check(tag.setValue(KnownField::Genre, v), "refused", "genre refused");
    Diagnostics diag;
    const auto b = make(c, tag, diag);
    const auto fields = decodeMeta(c, b);
    c.check(fields.size() == 1, "genre", "%zu genre fields", fields.size());
    c.check(meaning(fields[0].id, fields[0].data.at(0)) == meaning(v), "genre", "genre %zu written as %s", n, quote(meaning(fields[0].id, fields[0].data[0])).c_str());
    c.check(fields[0].id == (c.top == 1 ? idGen : idGnre), "genre", "genre field %08X", fields[0].id);
    auto back = parseFile(c, b);
    c.check(back.tag && meaning(back.tag->value(KnownField::Genre)) == meaning(v), "genre", "genre %zu read as %s", n, describe(back.tag->value(KnownField::Genre)).c_str());
    c.check(back.tag->hasField(KnownField::Genre) && back.tag->values(KnownField::Genre).size() == 1, "genre", "genre not found");
}
