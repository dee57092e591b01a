// P01: ID3v2 tags survive being written and read back.
#include "common.h"

#include <tagparser/id3/id3genres.h>
#include <tagparser/id3/id3v2frameids.h>
#include <tagparser/id3/id3v2tag.h>

#include <zlib.h>

using namespace ref;
using namespace TagParser;
using namespace TagParser::Id3v2FrameIds;
using CppUtilities::DateTime;
using CppUtilities::DateTimeExpression;
using CppUtilities::DateTimeParts;
using CppUtilities::TimeSpan;

const char *vt::property = "P01";
const char *vt::rule = "all combinations of version x frame kind x encoding x value count x value alphabet (boundary lengths around the syncsafe/size steps) are "
                       "written by the library and decoded by an independent ID3v2 decoder, then parsed back by the library; tags made by an independent "
                       "encoder (with/without BOM and termination, compression, data length indicator, group byte) are parsed; states = distinct written byte "
                       "sequences/parsed results";
const char *vt::assumptions = "texts contain no NUL characters|unsynchronisation and encryption are not used|values outside the listed alphabets behave like their class representative";

namespace {

struct RawFrame {
    std::uint32_t id = 0;
    std::uint16_t flags = 0;
    Bytes data; // after removal of format-specific header extras, decompressed
    std::uint8_t group = 0;
};

// independent decoder of a complete tag; fails if anything declared does not match the bytes
std::vector<RawFrame> decodeTag(Ctx &c, std::string_view b, unsigned version, std::size_t padding)
{
    c.check(b.size() >= 10 && b.substr(0, 3) == "ID3", "header", "no ID3 header: %s", hex(b, 20).c_str());
    c.check(static_cast<unsigned char>(b[3]) == version, "header", "major version byte %d instead of %u", b[3], version);
    c.check(!(b[5] & 0x4F), "header", "header flags %02x announce extended header/footer/unknown", b[5]);
    for (int i = 6; i < 10; ++i)
        c.check(!(b[i] & 0x80), "header", "size is not syncsafe");
    const auto size = rdSyncsafe(b, 6);
    c.check(size + 10 == b.size(), "header-size", "header declares %u bytes, %zu written", size, b.size() - 10);
    std::vector<RawFrame> r;
    std::size_t p = 10;
    const std::size_t end = b.size() - padding;
    c.check(b.size() >= padding + 10, "padding", "less bytes than padding");
    while (p < end) {
        const std::size_t hdr = version < 3 ? 6 : 10;
        c.check(p + hdr <= end, "frame-size", "frame header at %zu crosses the end of the frames", p);
        RawFrame f;
        f.id = rdBE(b, p, version < 3 ? 3 : 4);
        std::size_t n = version < 3 ? rdBE(b, p + 3, 3) : version == 3 ? rdBE(b, p + 4, 4) : rdSyncsafe(b, p + 4);
        if (version == 4)
            for (int i = 4; i < 8; ++i)
                c.check(!(b[p + i] & 0x80), "frame-size", "frame size is not syncsafe");
        for (int i = 0; i < (version < 3 ? 3 : 4); ++i) {
            const unsigned char ch = b[p + i];
            c.check((ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9'), "frame-id", "invalid frame id at %zu: %s", p, hex(b.substr(p, 10)).c_str());
        }
        if (version >= 3)
            f.flags = rdBE(b, p + 8, 2);
        p += hdr;
        c.check(p + n <= end, "frame-size", "frame declares %zu bytes but only %zu are left", n, end - p);
        Bytes d(b.substr(p, n));
        p += n;
        if (version == 3) {
            std::size_t dec = 0;
            if (f.flags & 0x80) {
                dec = rdBE(d, 0, 4);
                d.erase(0, 4);
            }
            if (f.flags & 0x20) {
                f.group = d[0];
                d.erase(0, 1);
            }
            if (f.flags & 0x80) {
                Bytes o(dec, 0);
                uLongf l = dec;
                c.check(uncompress((Bytef *)o.data(), &l, (const Bytef *)d.data(), d.size()) == Z_OK && l == dec, "compression", "compressed data invalid");
                d = o;
            }
        } else if (version == 4) {
            std::size_t dec = 0;
            if (f.flags & 0x40) {
                f.group = d[0];
                d.erase(0, 1);
            }
            if (f.flags & 0x01) {
                dec = rdSyncsafe(d, 0);
                d.erase(0, 4);
            }
            if (f.flags & 0x08) {
                c.check(f.flags & 0x01, "compression", "compressed ID3v2.4 frame without data length indicator");
                Bytes o(dec, 0);
                uLongf l = dec;
                c.check(uncompress((Bytef *)o.data(), &l, (const Bytef *)d.data(), d.size()) == Z_OK && l == dec, "compression", "compressed data invalid");
                d = o;
            }
        }
        f.data = d;
        r.push_back(f);
    }
    for (; p < b.size(); ++p)
        c.check(!b[p], "padding", "padding is not zero at %zu", p);
    return r;
}
std::uint32_t toVer(std::uint32_t id, unsigned version)
{
    return version < 3 ? (isLongId(id) ? convertToShortId(id) : id) : (isShortId(id) ? convertToLongId(id) : id);
}

Bytes makeTag(Ctx &c, Id3v2Tag &tag, std::uint32_t padding, Diagnostics &diag)
{
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    auto maker = tag.prepareMaking(diag);
    const auto required = maker.requiredSize();
    maker.make(s, padding, diag);
    auto b = s.str();
    c.check(b.size() == required + padding, "required-size", "required size %llu + padding %u announced, %zu bytes written", (unsigned long long)required,
        padding, b.size());
    c.step();
    c.state(vt::hashStr(b));
    return b;
}
void parseTag(Ctx &c, Id3v2Tag &tag, const Bytes &b, Diagnostics &diag, std::size_t trailer = 5)
{
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    s << Bytes("\x11\x22\x33", 3) << b << filler(trailer, 7);
    s.seekg(3);
    tag.parse(s, b.size() + trailer, diag);
    c.step();
    c.check(tag.size() == b.size(), "tag-size", "parsed tag claims %llu bytes, it has %zu", (unsigned long long)tag.size(), b.size());
}
std::string hexOrHash(std::string_view s)
{
    return s.size() <= 64 ? hex(s, 64) : hex(s, 16) + fmt("#%zu:%llx", s.size(), (unsigned long long)vt::hashStr(s));
}
// canonical text of a value
std::string canon(const TagValue &v)
{
    switch (v.type()) {
    case TagDataType::Text:
        return "T:" + valueUtf8(v);
    case TagDataType::PositionInSet:
        return fmt("P:%d/%d", v.toPositionInSet().position(), v.toPositionInSet().total());
    case TagDataType::StandardGenreIndex:
        return fmt("G:%d", v.toStandardGenreIndex());
    case TagDataType::TimeSpan:
        return fmt("L:%lld", (long long)v.toTimeSpan().totalTicks());
    case TagDataType::UnsignedInteger:
        return fmt("U:%llu", (unsigned long long)v.toUnsignedInteger());
    case TagDataType::Popularity: {
        const auto p = v.toPopularity();
        return fmt("R:%s|%g|%llu|%d", p.user.c_str(), p.rating, (unsigned long long)p.playCounter, (int)p.scale);
    }
    case TagDataType::DateTimeExpression: {
        const auto e = v.toDateTimeExpression();
        return fmt("D:%llu|%x", (unsigned long long)e.value.totalTicks(), (unsigned)e.parts);
    }
    default:
        return "B:" + hexOrHash(v.data());
    }
}
std::string canonFull(const TagValue &v)
{
    std::string lang;
    for (auto &l : v.locale())
        lang += l;
    return canon(v) + "|desc=" + descUtf8(v) + "|mime=" + v.mimeType() + "|lang=" + lang;
}
std::vector<std::string> canonAll(const Id3v2Tag &t, std::uint32_t id, bool full = false)
{
    std::vector<std::string> r;
    for (auto *v : t.values(id))
        r.push_back(full ? canonFull(*v) : canon(*v));
    return r;
}
std::string join(const std::vector<std::string> &v)
{
    std::string r;
    for (auto &s : v)
        r += quote(s, 200) + ",";
    return r;
}
// decode content of text frame
std::vector<std::string> decodeTextFrame(Ctx &c, const Bytes &d, unsigned version, bool url)
{
    std::vector<std::string> r;
    TagTextEncoding e = TagTextEncoding::Latin1;
    std::string_view s = d;
    if (!url) {
        c.check(!d.empty(), "text-frame", "empty text frame");
        const unsigned char eb = d[0];
        c.check(eb <= (version >= 4 ? 3 : 1), "text-encoding-byte", "encoding byte %u not allowed in ID3v2.%u", eb, version);
        e = eb == 0 ? TagTextEncoding::Latin1 : eb == 3 ? TagTextEncoding::Utf8 : eb == 2 ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf16LittleEndian;
        s.remove_prefix(1);
        const bool wide = eb == 1 || eb == 2;
        std::size_t w = wide ? 2 : 1, p = 0;
        while (p < s.size()) {
            std::size_t q = p;
            if (wide)
                while (q + 1 < s.size() && (s[q] || s[q + 1]))
                    q += 2;
            else
                while (q < s.size() && s[q])
                    ++q;
            auto part = s.substr(p, q - p);
            auto pe = e;
            if (eb == 1) {
                c.check(part.size() >= 2 && ((part[0] == '\xFF' && part[1] == '\xFE') || (part[0] == '\xFE' && part[1] == '\xFF')), "bom",
                    "UTF-16 string without byte order mark: %s", hex(part).c_str());
                pe = part[0] == '\xFF' ? TagTextEncoding::Utf16LittleEndian : TagTextEncoding::Utf16BigEndian;
                part.remove_prefix(2);
            }
            r.push_back(decode(part, pe));
            p = q + w;
        }
        return r;
    }
    auto z = s.find('\0');
    if (z != std::string_view::npos)
        c.check(z + 1 == s.size(), "url-frame", "data after termination of URL");
    r.push_back(decode(s.substr(0, z), TagTextEncoding::Latin1));
    return r;
}

const unsigned versions[] = { 4, 3, 2 };
const KnownField textFields[] = { KnownField::Title, KnownField::Album, KnownField::Artist, KnownField::Encoder, KnownField::Bpm, KnownField::Lyricist,
    KnownField::Language, KnownField::EncoderSettings, KnownField::Grouping, KnownField::Publisher, KnownField::Composer, KnownField::AlbumArtist,
    KnownField::RemixedBy, KnownField::Copyright, KnownField::OriginalMediaType, KnownField::Mood, KnownField::InitialKey, KnownField::Subtitle,
    KnownField::Synopsis, KnownField::ReleaseDate, KnownField::TaggingDate, KnownField::EncodingDate, KnownField::OriginalReleaseDate, KnownField::Genre };
const KnownField urlFields[] = { KnownField::PublisherWebpage, KnownField::PerformerWebpage, KnownField::PurchaseItem };
const char *texts[] = { "a", "AB c", "12", "\xC3\xA9\xC3\xBF", "x\xC3\x80y", "\xE6\x97\xA5\xE6\x9C\xAC", "\xF0\x9D\x84\x9Ez", "\xC4\x80" /* U+0100: low byte zero */,
    "\xEF\xBC\xA1" /* U+FF21 */ };

} // namespace

// every text field x version x encodings x up to three values
VT_SUITE(text_fields, 3 * (std::size(textFields) + std::size(urlFields)))
{
    const unsigned version = versions[c.top % 3];
    const std::size_t fi = c.top / 3;
    const bool url = fi >= std::size(textFields);
    const auto field = url ? urlFields[fi - std::size(textFields)] : textFields[fi];
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    const auto id = tag.fieldId(field);
    if (!id || (version < 3 && isLongId(id)))
        c.skip();
    // the first few fields get up to three values with all texts, the others a smaller alphabet
    const bool rich = fi < 3 || field == KnownField::Genre;
    const std::size_t count = url ? 1 : 1 + c.choose(rich && !vt::thorough() ? 2 : 3, "extra values");
    std::vector<TagValue> vals;
    std::vector<std::string> expect;
    bool needsWide = false;
    for (std::size_t i = 0; i < count; ++i) {
        const auto enc = url ? TagTextEncoding::Latin1 : allEncodings[c.choose(4, "encoding")];
        const auto *t = texts[c.choose(rich ? std::size(texts) : i == 0 ? 7 : 2, "text")];
        if ((enc == TagTextEncoding::Latin1) && !isLatin1(t))
            c.skip();
        vals.push_back(text(t, enc));
        needsWide = needsWide || enc != TagTextEncoding::Latin1;
        expect.push_back(field == KnownField::Genre && std::string(t) == "12" ? "G:12" : std::string("T:") + t);
        c.log("value %zu: %s %s", i, encName(enc), quote(t).c_str());
    }
    Diagnostics diag;
    c.check(tag.setValues(field, vals), "set", "setting values refused");
    c.check(tag.values(field).size() == count, "set", "%zu of %zu values present after setting", tag.values(field).size(), count);
    const std::uint32_t padding = c.choose(2) ? 11 : 0;
    const auto b = makeTag(c, tag, padding, diag);
    const auto frames = decodeTag(c, b, version, padding);
    c.check(frames.size() == 1 && frames[0].id == toVer(id, version), "frames", "%zu frames written, first id %08x", frames.size(), frames.empty() ? 0 : frames[0].id);
    auto decoded = decodeTextFrame(c, frames[0].data, version, url);
    for (auto &s : decoded)
        s = (field == KnownField::Genre && s == "12" ? "G:" : "T:") + s;
    c.check(decoded == expect, "written-text", "written %s, expected %s", join(decoded).c_str(), join(expect).c_str());
    Id3v2Tag back;
    Diagnostics diag2;
    parseTag(c, back, b, diag2);
    c.check(back.majorVersion() == version, "version", "parsed version %u", back.majorVersion());
    c.check(back.paddingSize() == padding, "padding", "parsed padding %llu instead of %u", (unsigned long long)back.paddingSize(), padding);
    const auto got = canonAll(back, back.fieldId(field));
    c.check(got == expect, "read-text", "read %s, expected %s", join(got).c_str(), join(expect).c_str());
    c.check(back.fieldCount() == 1, "read-text", "%zu fields after reading", back.fieldCount());
    if (version < 4 && count > 1)
        c.check(hasLevel(diag, DiagLevel::Warning) && hasLevel(diag2, DiagLevel::Warning), "message", "no warning about multiple values in ID3v2.%u", version);
    if (count == 1)
        c.check(!hasLevel(diag2, DiagLevel::Critical), "message", "critical message when reading own tag: %s", diagText(diag2).c_str());
}

// track/disk positions, durations, genre indices, numbers, play counters and popularity
VT_SUITE(typed_fields, 3 * 7)
{
    const unsigned version = versions[c.top % 3];
    const auto kind = c.top / 3;
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    KnownField field = KnownField::Invalid;
    TagValue v;
    std::string expect, raw;
    static const int nums[] = { 1, 0, 2, 9, 10, 99, 255, 256, 65535, 65536, 2147483647 };
    Bytes expectData;
    bool textual = true;
    switch (kind) {
    case 0:
    case 1: {
        field = kind ? KnownField::DiskPosition : KnownField::TrackPosition;
        const int a = c.pick(nums, "position"), t = c.pick(nums, "total");
        if (!a && !t)
            c.skip();
        const int as = c.choose(5, "stored as");
        const auto s = t ? (a ? fmt("%d/%d", a, t) : fmt("/%d", t)) : fmt("%d", a);
        if (as == 0)
            v.assignPosition(PositionInSet(a, t));
        else
            v = text(s, allEncodings[as - 1]);
        expect = fmt("P:%d/%d", a, t);
        raw = s;
        break;
    }
    case 2: {
        field = KnownField::Length;
        static const std::int64_t ms[] = { 1, 0, 999, 1000, 60000, 3599999, 86400000, 4294967295ll, 4294967296ll, 99999999999ll };
        const auto m = c.pick(ms, "milliseconds");
        const std::int64_t sub = c.choose(2, "sub-ms ticks") ? 9999 : 0;
        v.assignTimeSpan(TimeSpan(m * 10000 + sub));
        expect = fmt("L:%lld", (long long)m * 10000);
        raw = fmt("%lld", (long long)m);
        break;
    }
    case 3: {
        field = KnownField::Genre;
        const int i = c.choose(Id3Genres::genreCount(), "genre");
        if (c.flip("stored as name text")) {
            v = text(Id3Genres::stringFromIndex(i), TagTextEncoding::Latin1);
            expect = "T:" + std::string(Id3Genres::stringFromIndex(i));
            raw = std::string(Id3Genres::stringFromIndex(i));
        } else {
            v.assignStandardGenreIndex(i);
            expect = fmt("G:%d", i);
            raw = fmt("%d", i);
        }
        break;
    }
    case 4: {
        field = KnownField::Bpm;
        const int n = c.pick(nums);
        if (c.flip())
            v.assignInteger(n);
        else
            v.assignUnsignedInteger(n);
        expect = fmt("T:%d", n);
        raw = fmt("%d", n);
        break;
    }
    case 5: {
        field = KnownField::PlayCounter;
        textual = false;
        const unsigned bit = c.choose(65, "bit");
        const std::uint64_t base = bit == 64 ? ~0ull : 1ull << bit;
        const std::uint64_t n = base + (c.choose(3, "delta") - 1);
        v.assignUnsignedInteger(n);
        expect = fmt("U:%llu", (unsigned long long)n);
        int len = 4;
        while (len < 8 && (n >> (8 * len)))
            ++len;
        expectData = BE(n, len);
        break;
    }
    default: {
        field = KnownField::Rating;
        textual = false;
        static const char *users[] = { "a@b.c", "", "x", "no@email.example.org" };
        const auto *u = c.pick(users);
        const int rating = c.choose(256, "rating");
        static const std::uint64_t counters[] = { 0, 1, 0xFFFFFFFFull, 0x100000000ull, 0xFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFFull };
        const auto n = c.pick(counters);
        if (!*u && !rating && !n)
            c.skip();
        v.assignPopularity(Popularity{ .user = u, .rating = double(rating), .playCounter = n, .scale = TagType::Id3v2Tag });
        expect = fmt("R:%s|%d|%llu|%d", u, rating, (unsigned long long)n, (int)TagType::Id3v2Tag);
        int len = 4;
        while (len < 8 && (n >> (8 * len)))
            ++len;
        expectData = Bytes(u) + '\0' + char(rating) + BE(n, len);
    }
    }
    const auto id = tag.fieldId(field);
    c.check(id, "set", "field not supported");
    tag.setValue(field, v);
    c.log("v2.%u field %d value %s", version, (int)field, describe(v).c_str());
    Diagnostics diag;
    const auto b = makeTag(c, tag, 0, diag);
    const auto frames = decodeTag(c, b, version, 0);
    c.check(frames.size() == 1 && frames[0].id == toVer(id, version), "frames", "%zu frames written", frames.size());
    if (textual) {
        const auto d = decodeTextFrame(c, frames[0].data, version, false);
        c.check(d.size() == 1 && d[0] == raw, "written-typed", "written %s, expected %s", join(d).c_str(), raw.c_str());
    } else
        c.check(frames[0].data == expectData, "written-typed", "written %s, expected %s", hex(frames[0].data).c_str(), hex(expectData).c_str());
    Id3v2Tag back;
    Diagnostics diag2;
    parseTag(c, back, b, diag2);
    const auto got = canonAll(back, back.fieldId(field));
    c.check(got.size() == 1 && got[0] == expect, "read-typed", "read %s, expected %s", join(got).c_str(), expect.c_str());
}

// record dates and their conversion between ID3v2 versions
VT_SUITE(record_date, 9)
{
    const unsigned version = versions[c.top % 3], version2 = versions[c.top / 3];
    static const int years[] = { 2020, 1, 999, 1999, 9999 };
    static const DateTimeParts partSets[] = { DateTimeParts::Year, DateTimeParts::Year | DateTimeParts::Month | DateTimeParts::Day,
        DateTimeParts::Year | DateTimeParts::Month | DateTimeParts::Day | DateTimeParts::Hour | DateTimeParts::Minute };
    const int year = c.pick(years);
    const auto parts = c.pick(partSets);
    int month = 1, day = 1, hour = 0, minute = 0;
    if (parts & DateTimeParts::Day) {
        static const int md[][2] = { { 1, 1 }, { 12, 31 }, { 2, 28 }, { 10, 9 } };
        const auto &x = c.pick(md);
        month = x[0];
        day = x[1];
    }
    if (parts & DateTimeParts::Minute) {
        static const int hm[][2] = { { 0, 0 }, { 23, 59 }, { 9, 10 } };
        const auto &x = c.pick(hm);
        hour = x[0];
        minute = x[1];
    }
    DateTimeExpression e;
    e.value = DateTime::fromDateAndTime(year, month, day, hour, minute, 0, 0);
    e.parts = parts;
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    std::string iso = fmt("%04d", year);
    if (parts & DateTimeParts::Day)
        iso += fmt("-%02d-%02d", month, day);
    if (parts & DateTimeParts::Minute)
        iso += fmt("T%02d:%02d", hour, minute);
    const bool asText = c.flip("as text");
    c.log("v2.%u -> v2.%u, %s as %s", version, version2, iso.c_str(), asText ? "text" : "expression");
    c.check(tag.setValue(KnownField::RecordDate, asText ? text(iso, c.flip() ? TagTextEncoding::Utf8 : TagTextEncoding::Latin1) : TagValue(e)), "set", "refused");
    tag.setValue(KnownField::Title, text("t"));
    auto check = [&](Id3v2Tag &t, unsigned ver) {
        Diagnostics diag;
        const auto b = makeTag(c, t, 0, diag);
        const auto frames = decodeTag(c, b, ver, 0);
        std::map<std::uint32_t, std::string> m;
        for (auto &f : frames) {
            const auto d = decodeTextFrame(c, f.data, ver, false);
            c.check(d.size() == 1 && !m.count(f.id), "date-frames", "frame %08x occurs more than once or has %zu strings", f.id, d.size());
            m[f.id] = d[0];
        }
        m.erase(toVer(lTitle, ver));
        std::map<std::uint32_t, std::string> want;
        if (ver >= 4)
            want[lRecordingTime] = iso;
        else {
            want[toVer(lYear, ver)] = fmt("%04d", year);
            if (parts & DateTimeParts::Day)
                want[toVer(lDate, ver)] = fmt("%02d%02d", day, month);
            if (parts & DateTimeParts::Minute)
                want[toVer(lTime, ver)] = fmt("%02d%02d", hour, minute);
        }
        std::string ms, ws;
        for (auto &x : m)
            ms += fmt("%08x=%s ", x.first, x.second.c_str());
        for (auto &x : want)
            ws += fmt("%08x=%s ", x.first, x.second.c_str());
        // an ISO string may be written with more precision as long as it denotes the same time
        if (ver >= 4 && m.size() == 1 && m.count(lRecordingTime) && m[lRecordingTime] != iso) {
            const auto x = DateTimeExpression::fromIsoString(m[lRecordingTime].data());
            c.check(x.value == e.value, "date-frames", "written %s, expected %s", ms.c_str(), ws.c_str());
        } else
            c.check(m == want, "date-frames", "written %s, expected %s", ms.c_str(), ws.c_str());
        Id3v2Tag back;
        Diagnostics diag2;
        parseTag(c, back, b, diag2);
        const auto &v = back.value(KnownField::RecordDate);
        c.check(!v.isEmpty(), "date-read", "record date missing after reading v2.%u", ver);
        const auto x = v.toDateTimeExpression();
        c.check(x.value == e.value && x.parts == parts, "date-read", "read %s (parts %x), expected %s (parts %x)", x.toIsoString().c_str(), (unsigned)x.parts,
            iso.c_str(), (unsigned)parts);
        return b;
    };
    const auto b = check(tag, version);
    Id3v2Tag conv;
    Diagnostics d;
    parseTag(c, conv, b, d);
    conv.setVersion(version2, 0);
    check(conv, version2);
}

// comments, lyrics (language, description, text) and pictures; up to two frames of each kind
VT_SUITE(structured, 3 * 3 * 4)
{
    const unsigned version = versions[c.top % 3];
    const auto kind = c.top / 3 % 3;
    const auto enc = allEncodings[c.top / 9];
    if (enc == TagTextEncoding::Utf8 && version < 4) { /* converted to UTF-16 when writing */
    }
    const auto field = kind == 0 ? KnownField::Comment : kind == 1 ? KnownField::Lyrics : KnownField::Cover;
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    const auto id = tag.fieldId(field);
    static const char *descs[] = { "", "d", "De sc", "\xC3\xA9", "\xE6\x97\xA5", "\xF0\x9D\x84\x9E", "\xC4\x80",
        "a\xE4\x84\x80z" /* U+4100 after a: zero bytes of adjacent code units touch */, "\xC4\x80\xC3\xA9" };
    static const char *contents[] = { "t", "line 1\nline 2", "\xC3\xBC", "\xE6\x97\xA5x", "\xC4\x80\xC4\x80" };
    static const char *langs[] = { "", "eng", "ger" };
    static const char *mimes[] = { "image/jpeg", "image/png", "image/gif", "image/x-foo", "-->", "" };
    const std::size_t count = 1 + c.choose(2, "second frame");
    std::vector<TagValue> vals;
    std::vector<std::string> expect;
    std::vector<Bytes> expectData;
    std::vector<int> types;
    for (std::size_t i = 0; i < count; ++i) {
        const auto *d = i ? descs[1 + c.choose(2)] : c.pick(descs, "description");
        TagValue v;
        std::string lang, mime, content;
        int type = 0;
        if (kind < 2) {
            const auto *t = i ? contents[c.choose(2)] : c.pick(contents, "content");
            lang = i ? "fre" : c.pick(langs, "language");
            if (enc == TagTextEncoding::Latin1 && (!isLatin1(d) || !isLatin1(t)))
                c.skip();
            v = text(t, enc);
            if (!lang.empty())
                v.setLocale(Locale(lang, LocaleFormat::ISO_639_2_B));
            content = std::string("T:") + t;
        } else {
            static const std::size_t sizes[] = { 1, 2, 127, 128, 300 };
            const auto n = i ? 5 : c.pick(sizes, "picture size");
            auto data = filler(n, 3 + i);
            if (c.flip("leading zero bytes")) {
                data[0] = 0;
                data[n / 2] = 0;
            }
            mime = i ? "image/png" : c.pick(mimes, "mime");
            static const int t[] = { 0, 3, 20, 255 };
            type = i ? 4 : c.pick(t, "picture type");
            if (enc == TagTextEncoding::Latin1 && !isLatin1(d))
                c.skip();
            v = TagValue(data.data(), data.size(), TagDataType::Picture, enc);
            v.setMimeType(mime);
            content = "B:" + hexOrHash(data);
        }
        v.setDescription(encode(d, enc), enc);
        vals.push_back(v);
        types.push_back(type);
        // ID3v2.2 only knows three letter image formats
        if (version < 3 && (mime == "image/x-foo"))
            mime.clear();
        expect.push_back(content + "|desc=" + d + "|mime=" + mime + "|lang=" + lang);
        tag.fields().emplace(id, Id3v2Frame(id, v));
        auto last = std::prev(tag.fields().equal_range(id).second);
        if (kind == 2)
            last->second.setTypeInfo(type);
        c.log("frame %zu: %s type %d", i, describe(v).c_str(), type);
    }
    Diagnostics diag;
    const std::uint32_t padding = c.choose(2) ? 7 : 0;
    const auto b = makeTag(c, tag, padding, diag);
    const auto frames = decodeTag(c, b, version, padding);
    c.check(frames.size() == count, "frames", "%zu frames written: %s", frames.size(), diagText(diag).c_str());
    // independent decoding of the frame contents
    for (std::size_t i = 0; i < count; ++i) {
        const auto &f = frames[i];
        c.check(f.id == toVer(id, version), "frames", "wrong id");
        std::string_view d = f.data;
        const unsigned char eb = d[0];
        c.check(eb <= (version >= 4 ? 3 : 1), "text-encoding-byte", "encoding byte %u not allowed in ID3v2.%u", eb, version);
        const bool wide = eb == 1 || eb == 2;
        std::string lang, mime, content;
        int type = 0;
        d.remove_prefix(1);
        if (kind < 2) {
            lang = d.substr(0, 3);
            if (lang == Bytes(3, '\0'))
                lang.clear();
            d.remove_prefix(3);
        } else if (version < 3) {
            const std::string f3(d.substr(0, 3));
            const auto &m = vals[i].mimeType();
            const std::string want = m == "image/jpeg" ? "JPG" : m == "image/png" ? "PNG" : m == "-->" ? "-->" : m == "image/gif" ? "GIF" : "UND";
            c.check(f3 == want, "picture-format", "format %s for MIME type %s", f3.c_str(), m.c_str());
            mime = m == "image/x-foo" ? std::string() : m;
            d.remove_prefix(3);
            type = static_cast<unsigned char>(d[0]);
            d.remove_prefix(1);
        } else {
            mime = d.substr(0, d.find('\0'));
            d.remove_prefix(mime.size() + 1);
            type = static_cast<unsigned char>(d[0]);
            d.remove_prefix(1);
        }
        auto readStr = [&](bool terminated) {
            std::size_t q = 0;
            if (wide)
                while (q + 1 < d.size() && (d[q] || d[q + 1]))
                    q += 2;
            else
                while (q < d.size() && d[q])
                    ++q;
            auto s = d.substr(0, q);
            c.check(!terminated || q + (wide ? 2 : 1) <= d.size(), "termination", "string not terminated");
            d.remove_prefix(std::min(d.size(), q + (wide ? 2 : 1)));
            auto e = eb == 0 ? TagTextEncoding::Latin1 : eb == 3 ? TagTextEncoding::Utf8 : TagTextEncoding::Utf16BigEndian;
            if (eb == 1) {
                c.check(s.size() >= 2 && ((s[0] == '\xFF' && s[1] == '\xFE') || (s[0] == '\xFE' && s[1] == '\xFF')), "bom", "no byte order mark");
                e = s[0] == '\xFF' ? TagTextEncoding::Utf16LittleEndian : TagTextEncoding::Utf16BigEndian;
                s.remove_prefix(2);
            }
            return decode(s, e);
        };
        const auto desc = readStr(true);
        if (kind < 2) {
            content = "T:" + readStr(false);
            c.check(d.empty(), "trailing", "%zu superfluous bytes after the text", d.size());
        } else
            content = "B:" + hexOrHash(d);
        const auto got = content + "|desc=" + desc + "|mime=" + mime + "|lang=" + lang;
        c.check(got == expect[i], "written-structured", "written %s, expected %s", quote(got, 300).c_str(), quote(expect[i], 300).c_str());
        c.check(type == types[i], "picture-type", "picture type %d written instead of %d", type, types[i]);
    }
    Id3v2Tag back;
    Diagnostics diag2;
    parseTag(c, back, b, diag2);
    const auto got = canonAll(back, back.fieldId(field), true);
    c.check(got == expect, "read-structured", "read %s, expected %s; %s", join(got).c_str(), join(expect).c_str(), diagText(diag2).c_str());
    c.check(!hasLevel(diag2, DiagLevel::Warning), "message", "problem reported for own tag: %s", diagText(diag2).c_str());
    std::size_t i = 0;
    if (kind == 2)
        for (auto r = back.fields().equal_range(back.fieldId(field)); r.first != r.second; ++r.first, ++i)
            c.check(r.first->second.isTypeInfoAssigned() && r.first->second.typeInfo() == types[i], "picture-type", "read picture type %d", r.first->second.typeInfo());
    // making the parsed tag again yields the same bytes
    Diagnostics diag3;
    const auto b2 = makeTag(c, back, padding, diag3);
    if (version >= 3)
        c.check(b2 == b, "stable", "making the parsed tag again yields %zu bytes differing at %zu", b2.size(), firstDiff(b, b2));
}

// unknown frames with any content, sizes crossing the syncsafe steps, flags, group and compression
VT_SUITE(unknown_frames, 3 * 5)
{
    const unsigned version = versions[c.top % 3];
    const auto mode = c.top / 3; // 0 plain, 1 preserve flags, 2 group, 3 compression, 4 group + compression
    if (version < 3 && mode)
        c.skip();
    static const std::size_t sizes[] = { 1, 2, 9, 10, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152 };
    const std::size_t n = sizes[c.choose(vt::thorough() || mode == 0 ? std::size(sizes) : 14, "size")];
    const auto content = c.choose(3, "content");
    Bytes data = content == 0 ? filler(n, 5) : content == 1 ? Bytes(n, '\0') : Bytes(n, '\xFF');
    static const std::uint32_t longIds[] = { 0x50524956 /* PRIV */, lUniqueFileId, lUserDefinedText, lUserDefinedURL, 0x5A5A5A39 /* ZZZ9 */, 0x47454F42 /* GEOB */ };
    static const std::uint32_t shortIds[] = { 0x5A5A39 /* ZZ9 */, sUniqueFileId, sUserDefinedText, sUserDefinedURL, 0x47454F /* GEO */, 0x42554F /* BUF */ };
    const auto id = version < 3 ? c.pick(shortIds) : c.pick(longIds);
    std::uint16_t flags = 0;
    std::uint8_t group = 0;
    if (mode == 1)
        flags = version == 3 ? 0xE000 & (c.choose(8) << 13) : 0x7000 & (c.choose(8) << 12);
    const std::uint16_t grpFlag = version == 3 ? 0x20 : 0x40, cmpFlag = version == 3 ? 0x80 : 0x09;
    if (mode == 2 || mode == 4) {
        flags |= grpFlag;
        group = c.choose(2) ? 0x81 : 0x00;
    }
    if (mode >= 3)
        flags |= cmpFlag;
    c.log("v2.%u id %08x size %zu content %zu flags %04x group %u", version, id, n, content, flags, group);
    // made by another writer following the specification
    Bytes body = data;
    if (mode >= 3) {
        Bytes z(compressBound(n), 0);
        uLongf l = z.size();
        compress((Bytef *)z.data(), &l, (const Bytef *)data.data(), n);
        z.resize(l);
        body = version == 3 ? BE(n, 4) : Bytes();
        if (version == 3 && group + (flags & grpFlag))
            body += char(group);
        if (version == 4) {
            if (flags & grpFlag)
                body += char(group);
            body += syncsafe(n);
        }
        body += z;
    } else if (flags & grpFlag)
        body = char(group) + data;
    Bytes foreign = "ID3";
    foreign += char(version);
    foreign += '\0';
    foreign += '\0';
    auto addFrame = [&](std::uint32_t fid, const Bytes &d, std::uint16_t fl) {
        Bytes f;
        be(f, fid, version < 3 ? 3 : 4);
        if (version < 3)
            be(f, d.size(), 3);
        else if (version == 3)
            be(f, d.size(), 4);
        else
            f += syncsafe(d.size());
        if (version >= 3)
            be(f, fl, 2);
        return f + d;
    };
    const auto titleId = toVer(lTitle, version);
    const auto frames1 = addFrame(id, body, flags) + addFrame(titleId, Bytes("\0title", 6), 0);
    foreign += syncsafe(frames1.size()) + frames1;
    Id3v2Tag tag;
    Diagnostics diag;
    parseTag(c, tag, foreign, diag);
    auto check = [&](Id3v2Tag &t, const char *when) {
        const auto got = canonAll(t, id);
        c.check(got.size() == 1 && got[0] == "B:" + hexOrHash(data), "unknown-frame", "%s: %zu frames, content %s instead of %s; %s", when, got.size(),
            got.empty() ? "" : got[0].substr(0, 60).c_str(), hex(data, 24).c_str(), diagText(diag).c_str());
        c.check(canonAll(t, titleId) == std::vector<std::string>{ "T:title" }, "unknown-frame-next", "%s: frame after it not read: %s", when,
            diagText(diag).c_str());
    };
    check(tag, "parsing foreign tag");
    Diagnostics diag2;
    const auto b = makeTag(c, tag, 3, diag2);
    const auto frames = decodeTag(c, b, version, 3);
    c.check(frames.size() == 2, "frames", "%zu frames written", frames.size());
    bool seen = false;
    for (auto &f : frames)
        if (f.id == id) {
            seen = true;
            c.check(f.data == data, "unknown-frame", "content written differs");
            c.check(f.flags == flags && f.group == group, "frame-flags", "flags %04x group %u written instead of %04x/%u", f.flags, f.group, flags, group);
        }
    c.check(seen, "unknown-frame", "not written");
    Id3v2Tag back;
    Diagnostics diag3;
    parseTag(c, back, b, diag3);
    check(back, "re-reading own tag");
}

// text frames as written by other software
VT_SUITE(foreign_text, 3 * 8)
{
    const unsigned version = versions[c.top % 3];
    const auto style = c.top / 3; // 0 latin1, 1 utf16 LE BOM, 2 utf16 BE BOM, 3 utf16 BE without BOM (2.4), 4 utf8 (2.4), 5 utf-16 without BOM on later strings, 6 URL, 7 genre styles
    if (version < 4 && (style == 3 || style == 4))
        c.skip();
    if (style == 7) {
        // (name, stored text, expected)
        static const std::pair<const char *, const char *> g[] = { { "17", "G:17" }, { "(17)", "G:17" }, { "Rock", "T:Rock" }, { "0", "G:0" }, { "(0)", "G:0" },
            { "191", "G:191" }, { "(191)", "G:191" }, { "RX", "T:RX" }, { "Foo (bar)", "T:Foo (bar)" }, { "(Foo)", "T:(Foo)" }, { "80s", "T:80s" },
            { "2000", "T:2000" }, { "255x", "T:255x" } };
        const auto &x = c.pick(g);
        const auto enc = allEncodings[version >= 4 ? c.choose(4) : (c.choose(2) ? 2 : 0)];
        Bytes d;
        d += enc == TagTextEncoding::Latin1 ? '\0' : enc == TagTextEncoding::Utf8 ? '\3' : enc == TagTextEncoding::Utf16LittleEndian ? '\1' : '\2';
        if (enc == TagTextEncoding::Utf16LittleEndian)
            d += "\xFF\xFE";
        d += encode(x.first, enc);
        if (c.flip("terminated"))
            d += Bytes(d[0] == 1 || d[0] == 2 ? 2 : 1, '\0');
        Bytes f;
        be(f, toVer(lGenre, version), version < 3 ? 3 : 4);
        f += version < 3 ? BE(d.size(), 3) : version == 3 ? BE(d.size(), 4) + Bytes(2, '\0') : syncsafe(d.size()) + Bytes(2, '\0');
        f += d;
        const Bytes b = Bytes("ID3") + char(version) + Bytes(2, '\0') + syncsafe(f.size()) + f;
        c.log("v2.%u genre %s encoding %s", version, x.first, encName(enc));
        Id3v2Tag tag;
        Diagnostics diag;
        parseTag(c, tag, b, diag);
        const auto got = canonAll(tag, tag.fieldId(KnownField::Genre));
        c.state(vt::hashStr(join(got)));
        c.check(got == std::vector<std::string>{ x.second }, "foreign-genre", "genre %s read as %s", x.first, join(got).c_str());
        return;
    }
    const bool url = style == 6;
    const std::size_t count = url ? 1 : 1 + c.choose(version >= 4 ? 3 : 1, "more strings");
    const bool terminated = c.flip("terminated");
    const bool wide = style == 1 || style == 2 || style == 3 || style == 5;
    Bytes d;
    if (!url)
        d += style == 0 ? '\0' : style == 3 ? '\2' : style == 4 ? '\3' : '\1';
    std::vector<std::string> expect;
    for (std::size_t i = 0; i < count; ++i) {
        const auto *t = c.pick(texts, "text");
        if ((style == 0 || url) && !isLatin1(t))
            c.skip();
        const auto e = style == 0 || url ? TagTextEncoding::Latin1
            : style == 4                 ? TagTextEncoding::Utf8
            : style == 2 || style == 3   ? TagTextEncoding::Utf16BigEndian
                                         : TagTextEncoding::Utf16LittleEndian;
        if (i)
            d += Bytes(wide ? 2 : 1, '\0');
        if (style == 1 || (style == 5 && !i))
            d += "\xFF\xFE";
        if (style == 2)
            d += "\xFE\xFF";
        d += encode(t, e);
        if (version >= 4 && !url && c.choose(i + 1 < count || i ? 2 : 1, "empty string instead"))
            d.resize(d.size() - encode(t, e).size()); // carries no value
        else
            expect.push_back(std::string("T:") + t);
    }
    if (expect.empty())
        c.skip();
    if (terminated)
        d += Bytes(wide ? 2 : 1, '\0');
    const auto id = toVer(url ? lPublisherWebpage : lArtist, version);
    auto frame = [&](std::uint32_t fid, const Bytes &x) {
        Bytes f;
        be(f, fid, version < 3 ? 3 : 4);
        f += version < 3 ? BE(x.size(), 3) : version == 3 ? BE(x.size(), 4) + Bytes(2, '\0') : syncsafe(x.size()) + Bytes(2, '\0');
        return f + x;
    };
    Bytes f;
    if (c.flip("frame order"))
        f = frame(id, d) + frame(toVer(lTitle, version), Bytes("\0n", 2));
    else
        f = frame(toVer(lTitle, version), Bytes("\0n", 2)) + frame(id, d);
    const std::size_t pad = c.choose(3) * 9;
    const Bytes b = Bytes("ID3") + char(version) + Bytes(2, '\0') + syncsafe(f.size() + pad) + f + Bytes(pad, '\0');
    c.log("v2.%u style %zu strings %s terminated %d", version, style, join(expect).c_str(), terminated);
    Id3v2Tag tag;
    Diagnostics diag;
    parseTag(c, tag, b, diag);
    const auto got = canonAll(tag, id);
    c.state(vt::hashStr(join(got)));
    c.check(got == expect, "foreign-text", "read %s, expected %s; %s", join(got).c_str(), join(expect).c_str(), diagText(diag).c_str());
    c.check(canonAll(tag, toVer(lTitle, version)) == std::vector<std::string>{ "T:n" }, "foreign-text", "other frame lost");
    c.check(tag.paddingSize() == pad, "padding", "padding %llu read instead of %zu", (unsigned long long)tag.paddingSize(), pad);
}

// lengths and positions in all encodings and notations
VT_SUITE(foreign_numbers, 3 * 3)
{
    const unsigned version = versions[c.top % 3];
    static const std::uint32_t ids[] = { 0x544C454E, 0x5452434B, 0x54504F53 }; // TLEN, TRCK, TPOS
    static const std::pair<const char *, const char *> lengths[] = { { "0", "0" }, { "1", "1" }, { "4250", "4250" }, { "360000", "360000" }, { "86400001", "86400001" } };
    static const std::pair<const char *, const char *> positions[] = { { "1", "1/0" }, { "01", "1/0" }, { "3/9", "3/9" }, { "003/009", "3/9" }, { "/4", "0/4" }, { "12345/67890", "12345/67890" } };
    const auto kind = c.top / 3;
    const auto &x = kind ? c.pick(positions, "position") : c.pick(lengths, "length");
    const auto enc = version >= 4 ? c.choose(5, "encoding") : c.choose(3, "encoding"); // Latin-1, UTF-16 with either BOM, UTF-16 BE, UTF-8
    const auto terminators = c.choose(3, "terminators");
    const auto le = enc == 1;
    const auto wide = enc == 1 || enc == 2 || enc == 3;
    Bytes d(1, enc == 0 ? '\0' : enc == 4 ? '\3' : enc == 3 ? '\2' : '\1');
    if (enc == 1 || enc == 2)
        d += le ? "\xFF\xFE" : "\xFE\xFF";
    d += encode(x.first, !wide ? TagTextEncoding::Latin1 : le ? TagTextEncoding::Utf16LittleEndian : TagTextEncoding::Utf16BigEndian);
    d += Bytes(terminators * (wide ? 2 : 1), '\0');
    const auto id = toVer(ids[kind], version);
    Bytes f;
    be(f, id, version < 3 ? 3 : 4);
    f += version < 3 ? BE(d.size(), 3) : version == 3 ? BE(d.size(), 4) + Bytes(2, '\0') : syncsafe(d.size()) + Bytes(2, '\0');
    f += d;
    const Bytes b = Bytes("ID3") + char(version) + Bytes(2, '\0') + syncsafe(f.size()) + f;
    c.log("v2.%u frame %08x %s encoding %zu", version, id, x.first, enc);
    Id3v2Tag tag, back;
    Diagnostics diag;
    parseTag(c, tag, b, diag);
    const auto check = [&](const Id3v2Tag &t, const char *when) {
        const auto values = t.values(id);
        c.check(values.size() == 1, "foreign-number", "%s: %zu values instead of one for %s; %s", when, values.size(), x.first, diagText(diag).c_str());
        std::string got;
        if (kind) {
            const auto pos = values.front()->toPositionInSet();
            got = fmt("%d/%d", pos.position(), pos.total());
        } else
            got = fmt("%.0f", values.front()->toTimeSpan().totalMilliseconds());
        c.state(vt::hashStr(got));
        c.check(got == x.second, "foreign-number", "%s: %s read as %s instead of %s", when, x.first, got.c_str(), x.second);
    };
    check(tag, "parsing foreign tag");
    Diagnostics diag2;
    const auto own = makeTag(c, tag, 0, diag2);
    parseTag(c, back, own, diag2);
    check(back, "re-reading own tag");
}

// extended headers (2.3, 2.4) and footers (2.4) of other writers are skipped properly and not claimed when writing the tag again
VT_SUITE(foreign_header, 2)
{
    const unsigned version = c.top ? 4 : 3;
    const auto kind = c.choose(3, "extended header");
    const bool footer = version == 4 && c.flip("footer");
    Bytes ext;
    if (kind && version == 3)
        ext = BE(kind == 1 ? 6 : 10, 4) + BE(kind == 1 ? 0 : 0x8000, 2) + BE(0, 4) + (kind == 1 ? Bytes() : BE(0x12345678, 4));
    else if (kind)
        ext = syncsafe(kind == 1 ? 6 : 12) + Bytes(1, '\1') + Bytes(1, kind == 1 ? '\0' : '\x20') + (kind == 1 ? Bytes() : Bytes("\5\1\2\3\4\5", 6));
    auto frame = [&](std::uint32_t fid, const Bytes &x) { return BE(fid, 4) + (version == 3 ? BE(x.size(), 4) : syncsafe(x.size())) + Bytes(2, '\0') + x; };
    const Bytes f = frame(lTitle, Bytes("\0title", 6)) + frame(lArtist, Bytes("\0artist", 7));
    const std::size_t pad = footer ? 0 : c.choose(3) * 9;
    const Bytes rest = Bytes(1, char(version)) + Bytes(1, '\0') + Bytes(1, char((kind ? 0x40 : 0) | (footer ? 0x10 : 0))) + syncsafe(ext.size() + f.size() + pad);
    const Bytes b = "ID3" + rest + ext + f + Bytes(pad, '\0') + (footer ? "3DI" + rest : "");
    Id3v2Tag tag;
    Diagnostics diag;
    parseTag(c, tag, b, diag);
    c.check(!hasLevel(diag, DiagLevel::Warning), "foreign-header", "%s", diagText(diag).c_str());
    c.check(tag.fields().size() == 2 && canonAll(tag, lTitle) == std::vector<std::string>{ "T:title" } && canonAll(tag, lArtist) == std::vector<std::string>{ "T:artist" }, "foreign-header",
        "read %s / %s", join(canonAll(tag, lTitle)).c_str(), join(canonAll(tag, lArtist)).c_str());
    c.check(tag.paddingSize() == pad, "padding", "padding %llu read instead of %zu", (unsigned long long)tag.paddingSize(), pad);
    std::stringstream out(std::ios::in | std::ios::out | std::ios::binary);
    tag.make(out, 0, diag);
    const auto w = out.str();
    c.state(vt::hashStr(w));
    c.check(w.substr(3, 3) == rest.substr(0, 2) + Bytes(1, '\0') && rdSyncsafe(w, 6) == w.size() - 10 && w.find("title") != Bytes::npos && w.find("artist") != Bytes::npos, "foreign-header", "written %s", hex(w, 60).c_str());
}

// whole tags: any subset of fields, conversion to any other version, all fields still there
VT_SUITE(whole_tag, 9 * 16)
{
    const unsigned version = versions[c.top % 3], version2 = versions[c.top / 3 % 3];
    const auto low = c.top / 9;
    unsigned mask = low | static_cast<unsigned>(c.choose(64, "subset")) << 4;
    struct F {
        KnownField f;
        TagValue v;
        std::string want;
    };
    std::vector<F> fs;
    fs.push_back({ KnownField::Title, text("tit"), "T:tit" });
    fs.push_back({ KnownField::Artist, text("\xE6\x97\xA5", TagTextEncoding::Utf16LittleEndian), "T:\xE6\x97\xA5" });
    fs.push_back({ KnownField::TrackPosition, TagValue(PositionInSet(3, 12)), "P:3/12" });
    auto cover = TagValue("\0\1PIC", 5, TagDataType::Picture);
    cover.setMimeType("image/png");
    fs.push_back({ KnownField::Cover, cover, "B:0001504943" });
    fs.push_back({ KnownField::Comment, text("com", TagTextEncoding::Latin1), "T:com" });
    TagValue g;
    g.assignStandardGenreIndex(17);
    fs.push_back({ KnownField::Genre, g, "G:17" });
    fs.push_back({ KnownField::Length, TagValue(TimeSpan::fromSeconds(5.0)), "L:50000000" });
    fs.push_back({ KnownField::PlayCounter, TagValue(std::uint64_t(7)), "U:7" });
    fs.push_back({ KnownField::PublisherWebpage, text("http://x", TagTextEncoding::Latin1), "T:http://x" });
    fs.push_back({ KnownField::Album, text("alb", TagTextEncoding::Utf8), "T:alb" });
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    const bool rev = c.flip("reverse order of setting");
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < fs.size(); ++i)
        if (mask >> i & 1)
            order.push_back(i);
    if (rev)
        std::reverse(order.begin(), order.end());
    for (auto i : order)
        c.check(tag.setValue(fs[i].f, fs[i].v), "set", "refused field %d", (int)fs[i].f);
    c.log("v2.%u -> v2.%u, fields %x", version, version2, mask);
    auto check = [&](Id3v2Tag &t, unsigned ver) {
        Diagnostics diag;
        const auto b = makeTag(c, t, 4, diag);
        const auto frames = decodeTag(c, b, ver, 4);
        c.check(frames.size() == order.size(), "frames", "%zu frames written instead of %zu; %s", frames.size(), order.size(), diagText(diag).c_str());
        Id3v2Tag back;
        Diagnostics diag2;
        parseTag(c, back, b, diag2);
        for (std::size_t i = 0; i < fs.size(); ++i) {
            const auto got = canonAll(back, back.fieldId(fs[i].f));
            const bool in = mask >> i & 1;
            c.check(got == (in ? std::vector<std::string>{ fs[i].want } : std::vector<std::string>()), "whole-tag", "field %d read as %s", (int)fs[i].f, join(got).c_str());
            c.check(back.hasField(fs[i].f) == in, "whole-tag", "hasField wrong");
            c.check(!in || back.value(fs[i].f).isEmpty() == false, "whole-tag", "value() empty");
        }
        return b;
    };
    const auto b = check(tag, version);
    Id3v2Tag conv;
    Diagnostics d;
    parseTag(c, conv, b, d);
    conv.setVersion(version2, 0);
    // fields are still found by their generic name and can be replaced after changing the version
    for (std::size_t i = 0; i < fs.size(); ++i)
        if (mask >> i & 1) {
            c.check(conv.hasField(fs[i].f), "version-change", "field %d not found after changing version", (int)fs[i].f);
            if (version != version2)
                conv.setValue(fs[i].f, fs[i].v);
        }
    check(conv, version2);
}

// each field the library maps survives a change of the version if the other version knows it as well
VT_SUITE(version_change, 6 * 104)
{
    static const std::pair<unsigned, unsigned> changes[] = { { 2, 3 }, { 2, 4 }, { 3, 2 }, { 3, 4 }, { 4, 2 }, { 4, 3 } };
    const auto [from, to] = changes[c.top % 6];
    const auto field = static_cast<KnownField>(c.top / 6);
    if (field == KnownField::RecordDate || field == KnownField::SynchronizedLyrics)
        c.skip();
    Id3v2Tag tag;
    tag.setVersion(to, 0);
    const auto toId = tag.fieldId(field);
    tag.setVersion(from, 0);
    const auto id = tag.fieldId(field);
    if (!id)
        c.skip();
    c.check(tag.knownField(id) == field, "field-mapping", "field %d is stored as %08x which is mapped back to %d", (int)field, id, (int)tag.knownField(id));
    if (!toId)
        c.skip();
    TagValue v;
    switch (tag.proposedDataType(field)) {
    case TagDataType::Text:
    case TagDataType::Undefined:
        v = text("12", TagTextEncoding::Latin1);
        break;
    case TagDataType::Integer:
        v = TagValue(12);
        break;
    case TagDataType::TimeSpan:
        v = TagValue(TimeSpan::fromSeconds(12.0));
        break;
    case TagDataType::StandardGenreIndex:
        v.assignStandardGenreIndex(12);
        break;
    case TagDataType::PositionInSet:
        v = TagValue(PositionInSet(12, 13));
        break;
    case TagDataType::Picture:
        v = TagValue("PICTURE", 7, TagDataType::Picture);
        v.setMimeType("image/png");
        break;
    case TagDataType::Popularity:
        v = TagValue(Popularity{ .user = "foo", .rating = 12.0, .playCounter = 3, .scale = TagType::Id3v2Tag });
        break;
    default:
        c.fail("proposed-type", "unexpected proposed data type for field %d", (int)field);
    }
    tag.setValue(field, v);
    Diagnostics diag;
    const auto b = makeTag(c, tag, 0, diag);
    Id3v2Tag read;
    parseTag(c, read, b, diag);
    c.check(read.values(field).size() == 1, "version-change", "not read: field %d", (int)field);
    const auto before = canonFull(read.value(field));
    read.setVersion(to, 0);
    c.check(read.values(field).size() == 1, "version-change", "field %d not found after changing the version", (int)field);
    const bool replace = c.flip("replace value after changing the version");
    if (replace)
        read.setValue(field, v);
    const auto b2 = makeTag(c, read, 0, diag);
    const auto frames = decodeTag(c, b2, to, 0);
    c.check(frames.size() == 1 && frames[0].id == toId, "version-change", "%zu frames written when changing ID3v2.%u to ID3v2.%u for field %d: %s", frames.size(), from,
        to, (int)field, diagText(diag).c_str());
    Id3v2Tag back;
    parseTag(c, back, b2, diag);
    c.check(back.values(field).size() == 1 && canonFull(back.value(field)) == before, "version-change", "field %d read as %s instead of %s", (int)field,
        canonFull(back.value(field)).c_str(), before.c_str());
}

// the order of frames is a strict weak ordering in which equivalent short/long ids are equal
VT_SUITE(frame_order, 1)
{
    static const std::uint32_t ids[] = { lAlbum, sAlbum, lTitle, sTitle, lCover, sCover, lUniqueFileId, sUniqueFileId, lComment, sComment, lUserDefinedText,
        sUserDefinedText, 0x5A5A5A39, 0x5A5A39, 0x41414130, 0x414130, lGenre, sGenre, lRating, sRating, lPublisherWebpage, sPublisherWebpage, lRecordingTime,
        lYear, sYear, lSynchronizedLyrics, sSynchronizedLyrics, 0x57585858, 0x575858, 0x41585858, 0x54414C42, 0x41414C42 };
    FrameComparer less;
    const auto a = c.pick(ids), b = c.pick(ids), d = c.pick(ids);
    c.step();
    c.state(a * 31 + b * 7 + d);
    c.check(!less(a, a), "order", "%08x < itself", a);
    c.check(!(less(a, b) && less(b, a)), "order", "%08x and %08x are both less than each other", a, b);
    c.check(!(less(a, b) && less(b, d)) || less(a, d), "order", "not transitive: %08x %08x %08x", a, b, d);
    const auto eq = [&](std::uint32_t x, std::uint32_t y) { return !less(x, y) && !less(y, x); };
    c.check(!(eq(a, b) && eq(b, d)) || eq(a, d), "order", "equivalence not transitive: %08x %08x %08x", a, b, d);
    c.check(eq(a, b) == (a == b || (isLongId(a) != isLongId(b) && toVer(a, 4) == toVer(b, 4) && toVer(a, 4))), "order", "%08x and %08x equivalent: %d", a, b, eq(a, b));
}

// sizes and paddings: the padding requested is exactly what is written and found
VT_SUITE(padding, 3)
{
    const unsigned version = versions[c.top];
    static const std::uint32_t pads[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 20, 117, 118, 119, 127, 128, 129, 1000, 16383, 16384, 70000 };
    static const std::size_t sizes[] = { 1, 2, 50, 100, 107, 115, 116, 117, 118, 119, 126, 127, 128, 255, 256, 16373, 16384 };
    const std::uint32_t pad = c.pick(pads);
    const std::size_t n = c.pick(sizes);
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    tag.setValue(KnownField::Title, text(Bytes(n, 'x'), TagTextEncoding::Latin1));
    Diagnostics diag;
    const auto b = makeTag(c, tag, pad, diag);
    decodeTag(c, b, version, pad);
    Id3v2Tag back;
    Diagnostics diag2;
    parseTag(c, back, b, diag2);
    c.check(canonAll(back, back.fieldId(KnownField::Title)) == std::vector<std::string>{ "T:" + Bytes(n, 'x') }, "read-text", "title differs");
    c.check(back.paddingSize() == pad, "padding", "padding %llu read instead of %u", (unsigned long long)back.paddingSize(), pad);
}
