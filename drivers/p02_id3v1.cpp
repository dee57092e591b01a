// P02: ID3v1 tags have the exact 128-byte layout and round-trip.
#include "common.h"

#include <tagparser/id3/id3genres.h>
#include <tagparser/id3/id3v1tag.h>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P02";
const char *vt::rule = "every field x encoding x every text length from 0 to 36 x character kinds, every track/genre byte in every stored type, all subsets of "
                       "fields; the 128 bytes are compared with an independently built block and read back; every block with any track/genre byte and "
                       "any text length/padding is read; states = distinct blocks";
const char *vt::assumptions = "texts contain no NUL characters and do not end with spaces (the layout cannot tell these from padding)";

namespace {
const KnownField textFields[] = { KnownField::Title, KnownField::Artist, KnownField::Album, KnownField::RecordDate, KnownField::Comment };
const std::size_t offsets[] = { 3, 33, 63, 93, 97 }, widths[] = { 30, 30, 30, 4, 28 };

Bytes make(Ctx &c, Id3v1Tag &tag, Diagnostics &diag)
{
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    s << "xx";
    tag.make(s, diag);
    auto b = s.str();
    c.check(b.size() == 130 && b.substr(0, 2) == "xx", "size", "%zu bytes written", b.size() - 2);
    c.step();
    b.erase(0, 2);
    c.state(vt::hashStr(b));
    return b;
}
void parse(Ctx &c, Id3v1Tag &tag, const Bytes &b)
{
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    s << b;
    Diagnostics diag;
    tag.parse(s, diag);
    c.step();
    c.check(tag.size() == 128, "size", "size %llu after parsing", (unsigned long long)tag.size());
}
Bytes clipped(const Bytes &s, std::size_t n)
{
    return s.size() > n ? s.substr(0, n) : s;
}
Bytes rtrim(Bytes s)
{
    while (!s.empty() && (s.back() == ' ' || s.back() == '\0'))
        s.pop_back();
    return s;
}
Bytes field(const Bytes &s, std::size_t n)
{
    auto b = clipped(s, n);
    b.resize(n);
    return b;
}
bool warned(const Diagnostics &d)
{
    return hasLevel(d, DiagLevel::Warning);
}
} // namespace

VT_SUITE(write_text, 5 * 4)
{
    const auto fi = c.top % 5;
    const auto enc = allEncodings[c.top / 5];
    const auto len = c.choose(37, "length");
    const auto kind = c.choose(4, "characters"); // ASCII, one special at the beginning, one at the end, all special
    const char *special = c.flip("three-byte character") ? "\xE6\x97\xA5" : "\xC3\xA9";
    Bytes utf8;
    for (std::size_t i = 0; i < len; ++i)
        utf8 += kind == 3 || (kind == 1 && !i) || (kind == 2 && i + 1 == len) ? Bytes(special) : Bytes(1, static_cast<char>('a' + i % 26));
    if (enc == TagTextEncoding::Latin1 && !isLatin1(utf8))
        c.skip();
    Id3v1Tag tag;
    const bool others = c.flip("other fields set");
    Bytes expect[5];
    if (others)
        for (std::size_t i = 0; i < 5; ++i) {
            expect[i] = Bytes(widths[i], static_cast<char>('A' + i));
            tag.setValue(textFields[i], text(expect[i], TagTextEncoding::Latin1));
        }
    tag.setValue(textFields[fi], text(utf8, enc));
    tag.ensureTextValuesAreProperlyEncoded();
    const auto width = widths[fi];
    Bytes stored;
    bool bom = false, warning = false;
    if (enc == TagTextEncoding::Latin1)
        stored = encode(utf8, enc);
    else {
        for (unsigned char ch : utf8)
            bom = bom || ch >= 0x80;
        stored = (bom ? "\xEF\xBB\xBF" : "") + utf8;
    }
    warning = stored.size() > width || bom;
    expect[fi] = clipped(stored, width);
    c.log("field %d %s %s", (int)textFields[fi], encName(enc), quote(utf8).c_str());
    Diagnostics diag;
    const auto b = make(c, tag, diag);
    Bytes want = "TAG";
    for (std::size_t i = 0; i < 5; ++i)
        want += field(expect[i], widths[i]);
    want += Bytes("\0\0\xFF", 3);
    c.check(b == want, "layout", "written %s differs from %s at %zu", hex(b, 130).c_str(), hex(want, 130).c_str(), firstDiff(b, want));
    c.check(warned(diag) == warning, "warning", "warning expected: %d, messages: %s", warning, diagText(diag).c_str());
    Id3v1Tag back;
    parse(c, back, b);
    for (std::size_t i = 0; i < 5; ++i) {
        const auto &v = back.value(textFields[i]);
        auto e = expect[i];
        auto ve = TagTextEncoding::Latin1;
        if (e.substr(0, 3) == "\xEF\xBB\xBF") {
            e.erase(0, 3);
            ve = TagTextEncoding::Utf8;
        }
        c.check(v.isEmpty() == e.empty() && (e.empty() || (v.data() == e && v.dataEncoding() == ve)), "read-text", "field %d read as %s, stored %s",
            (int)textFields[i], describe(v).c_str(), quote(e).c_str());
        c.check(back.hasField(textFields[i]) == !e.empty(), "has-field", "hasField() is wrong for field %d", (int)textFields[i]);
    }
    c.check(back.value(KnownField::TrackPosition).isEmpty() || back.value(KnownField::TrackPosition).toPositionInSet().isNull(), "read-track", "track %s",
        describe(back.value(KnownField::TrackPosition)).c_str());
    c.check(back.value(KnownField::Genre).toStandardGenreIndex() == 255, "read-genre", "genre");
}

// numbers in every stored type
VT_SUITE(write_numbers, 12)
{
    const auto kind = c.top;
    Id3v1Tag tag;
    const auto n = static_cast<int>(c.choose(260)) - 2;
    Diagnostics diag;
    if (kind < 7) {
        TagValue v;
        switch (kind) {
        case 0:
            v = TagValue(PositionInSet(n, c.choose(3) * 300));
            if (v.toPositionInSet().isNull())
                c.skip();
            break;
        case 1:
            v = TagValue(n);
            break;
        case 2:
            if (n < 0)
                c.skip();
            v = TagValue(static_cast<std::uint64_t>(n));
            break;
        default:
            v = text(fmt("%d%s", n, c.flip() ? "/12" : ""), allEncodings[kind - 3]);
        }
        tag.setValue(KnownField::TrackPosition, v);
        const auto b = make(c, tag, diag);
        const bool ok = n >= 0 && n <= 255;
        c.check(b == Bytes("TAG") + Bytes(123, 0) + (ok ? char(n) : '\0') + '\xFF', "track", "track %s written as %s", describe(v).c_str(), hex(b.substr(120)).c_str());
        c.check(warned(diag) == !ok, "warning", "warning expected %d: %s", !ok, diagText(diag).c_str());
        Id3v1Tag back;
        parse(c, back, b);
        c.check(back.value(KnownField::TrackPosition).toPositionInSet() == PositionInSet(ok ? n : 0), "read-track", "track %d read as %s", n,
            describe(back.value(KnownField::TrackPosition)).c_str());
        return;
    }
    TagValue v;
    if (kind == 7)
        v.assignStandardGenreIndex(n);
    else if (kind == 8)
        v = TagValue(n);
    else {
        const auto enc = allEncodings[kind - 9];
        v = text(c.flip("by name") && n >= 0 && n < 192 ? std::string(Id3Genres::stringFromIndex(n)) : fmt("%d", n), enc);
    }
    tag.setValue(KnownField::Genre, v);
    const auto b = make(c, tag, diag);
    const bool ok = (n >= 0 && n < Id3Genres::genreCount()) || n == 255;
    c.check(b.substr(0, 127) == Bytes("TAG") + Bytes(124, 0), "layout", "unexpected bytes %s", hex(b).c_str());
    const int got = static_cast<unsigned char>(b[127]);
    c.check(got == (ok ? n : 255), "genre", "genre %s written as %d", describe(v).c_str(), got);
    c.check(warned(diag) == !ok, "warning", "warning expected %d: %s", !ok, diagText(diag).c_str());
}

// a genre which is no standard genre must not become another one
VT_SUITE(unknown_genre, 4)
{
    static const char *names[] = { "Foo", "rock and", "Blues2", "x", "(17", "99999999" };
    const auto enc = allEncodings[c.top];
    const auto *name = c.pick(names);
    Id3v1Tag tag;
    tag.setValue(KnownField::Genre, text(name, enc));
    Diagnostics diag;
    const auto b = make(c, tag, diag);
    c.check(b[127] == '\xFF' && warned(diag), "genre", "genre %s written as %d; %s", name, static_cast<unsigned char>(b[127]), diagText(diag).c_str());
}

// reading: any track byte, zero byte and genre byte
VT_SUITE(read_bytes, 256)
{
    const auto genre = c.top;
    const auto zero = c.choose(3) * 0x20 + (c.choose(2) ? 0 : 1), track = c.choose(256);
    Bytes b = "TAG";
    for (std::size_t i = 0; i < 4; ++i)
        b += field(Bytes(widths[i], static_cast<char>('a' + i)), widths[i]);
    b += field(Bytes("comment"), 28);
    const bool filled = c.flip("long comment");
    if (filled)
        for (std::size_t i = 97; i < 125; ++i)
            b[i] = 'c';
    b += static_cast<char>(zero);
    b += static_cast<char>(track);
    b += static_cast<char>(genre);
    Id3v1Tag tag;
    parse(c, tag, b);
    c.state(vt::hashStr(b));
    const auto comment = zero ? Bytes(b, 97, 30) : Bytes(b, 97, 28);
    c.check(tag.value(KnownField::Comment).data() == rtrim(comment), "read-text", "comment %s read as %s", hex(comment).c_str(),
        describe(tag.value(KnownField::Comment)).c_str());
    c.check(tag.version() == (zero ? "1.0" : "1.1"), "version", "version");
    const auto &t = tag.value(KnownField::TrackPosition);
    if (zero)
        c.check(t.isEmpty(), "read-track", "track read from ID3v1.0 tag");
    else
        c.check(t.toPositionInSet() == PositionInSet(track, 0), "read-track", "track %zu read as %s", track, describe(t).c_str());
    const auto &g = tag.value(KnownField::Genre);
    if (genre < 192)
        c.check(g.toStandardGenreIndex() == (int)genre && g.toString() == Id3Genres::stringFromIndex(genre), "read-genre", "genre %zu", genre);
    else
        c.check(!(g.type() == TagDataType::StandardGenreIndex && !g.isEmpty() && Id3Genres::isIndexSupported(*reinterpret_cast<const int *>(g.dataPointer()))),
            "read-genre", "genre byte %zu read as %s", genre, describe(g).c_str());
}

// reading: text of any length with any padding
VT_SUITE(read_text, 5)
{
    const auto fi = c.top;
    const auto w = widths[fi];
    const auto len = c.choose(w + 1, "length");
    const auto padKind = c.choose(3, "padding"); // NUL, spaces, NUL followed by spaces
    const auto bom = c.flip("UTF-8 BOM");
    const auto inner = c.choose(3, "characters");
    Bytes t;
    for (std::size_t i = 0; i < len; ++i)
        t += inner == 0 ? static_cast<char>('a' + i % 26) : inner == 1 ? (i % 2 && i + 1 < len ? ' ' : 'b') : '\xE9';
    if (bom) {
        if (len < 3)
            c.skip();
        t.replace(0, 3, "\xEF\xBB\xBF");
    }
    Bytes f = t;
    for (std::size_t i = f.size(); i < w; ++i)
        f += padKind == 1 || (padKind == 2 && i > f.size()) ? ' ' : '\0';
    Bytes b = "TAG";
    for (std::size_t i = 0; i < 5; ++i)
        b += i == fi ? f : Bytes(widths[i], static_cast<char>('A' + i));
    b += Bytes("\0\5\7", 3);
    Id3v1Tag tag;
    parse(c, tag, b);
    c.state(vt::hashStr(b));
    for (std::size_t i = 0; i < 5; ++i) {
        const auto &v = tag.value(textFields[i]);
        const auto e = i != fi ? Bytes(widths[i], static_cast<char>('A' + i)) : bom ? t.substr(3) : t;
        c.check(v.isEmpty() == e.empty() && (e.empty() || v.data() == e), "read-text", "field %d %s read as %s", (int)textFields[i], hex(f).c_str(), describe(v).c_str());
        c.check(e.empty() || v.dataEncoding() == (i == fi && bom ? TagTextEncoding::Utf8 : TagTextEncoding::Latin1), "read-text", "encoding");
        c.check(tag.hasField(textFields[i]) == !e.empty(), "has-field", "field %d", (int)textFields[i]);
    }
    c.check(tag.value(KnownField::TrackPosition).toPositionInSet().position() == 5 && tag.value(KnownField::Genre).toStandardGenreIndex() == 7, "read-numbers", "track or genre");
}

// all subsets of fields, set in either order, with removal and overwriting
VT_SUITE(subsets, 128)
{
    const KnownField fields[] = { KnownField::Title, KnownField::Artist, KnownField::Album, KnownField::RecordDate, KnownField::Comment, KnownField::TrackPosition, KnownField::Genre };
    auto value = [](std::size_t i, std::size_t n) {
        return i < 5 ? text(fmt("%c%zu", char('a' + i), n), TagTextEncoding::Latin1) : i == 5 ? TagValue(PositionInSet(3 + n, 0)) : [&] {
            TagValue g;
            g.assignStandardGenreIndex(9 + n);
            return g;
        }();
    };
    Id3v1Tag tag;
    const bool overwrite = c.flip(), rev = c.flip(), reuse = c.flip();
    if (reuse) { // a tag object that has been used before
        for (std::size_t i = 0; i < 7; ++i)
            tag.setValue(fields[i], value(i, 5));
        tag.removeAllFields();
        c.check(tag.fieldCount() == 0, "remove-all", "fields left");
    }
    for (std::size_t k = 0; k < 7; ++k) {
        const auto i = rev ? 6 - k : k;
        if (c.top >> i & 1) {
            if (overwrite)
                tag.setValue(fields[i], value(i, 8));
            tag.setValue(fields[i], value(i, 1));
        }
    }
    std::size_t n = 0;
    for (std::size_t i = 0; i < 7; ++i)
        n += c.top >> i & 1;
    c.check(tag.fieldCount() == n, "field-count", "%zu fields instead of %zu", tag.fieldCount(), n);
    Diagnostics diag;
    const auto b = make(c, tag, diag);
    Bytes want = "TAG";
    for (std::size_t i = 0; i < 5; ++i)
        want += field(c.top >> i & 1 ? fmt("%c1", char('a' + i)) : std::string(), widths[i]);
    want += '\0';
    want += c.top >> 5 & 1 ? '\4' : '\0';
    want += c.top >> 6 & 1 ? '\12' : '\xFF';
    c.check(b == want, "layout", "written %s differs at %zu", hex(b, 130).c_str(), firstDiff(b, want));
    c.check(!warned(diag), "warning", "%s", diagText(diag).c_str());
    Id3v1Tag back;
    parse(c, back, b);
    for (std::size_t i = 0; i < 7; ++i)
        if (i < 5 || (c.top >> i & 1)) {
            c.check(back.hasField(fields[i]) == bool(c.top >> i & 1), "has-field", "field %d", (int)fields[i]);
            c.check(!(c.top >> i & 1) || back.value(fields[i]) == value(i, 1), "read", "field %d read as %s", (int)fields[i], describe(back.value(fields[i])).c_str());
        }
    // writing what was read gives the same bytes
    const auto b2 = make(c, back, diag);
    c.check(b2 == b, "stable", "re-writing differs at %zu", firstDiff(b, b2));
}
