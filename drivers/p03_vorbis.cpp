// P03: Vorbis comments and FLAC pictures survive writing and re-reading.
#include "common.h"

#include <tagparser/flac/flacmetadata.h>
#include <tagparser/id3/id3genres.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/vorbis/vorbiscommentids.h>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P03";
const char *vt::rule = "all sequences of up to three fields from a name x value alphabet (case variants, '=' and NUL in values, boundary lengths), all stored value types per "
                       "known field, all lists of up to three pictures (type x MIME x description x encoding x size), all flag combinations; written bytes are decoded by an "
                       "independent decoder and parsed back; blocks of an independent encoder incl. every prefix and every position of total fields are parsed; states = "
                       "distinct written blocks/parsed results";
const char *vt::assumptions = "field names are non-empty and contain no '='|the library files YEAR under DATE when there is no DATE (documented)";

namespace {
bool sameKey(std::string_view a, std::string_view b)
{
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](unsigned char x, unsigned char y) {
        auto l = [](unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; };
        return l(x) == l(y);
    });
}
Bytes lowerKey(std::string_view a)
{
    Bytes r;
    for (unsigned char c : a)
        r += c >= 'A' && c <= 'Z' ? c + 32 : c;
    return r;
}
using Entry = std::pair<Bytes, Bytes>;
struct Block {
    Bytes vendor;
    std::vector<Entry> entries;
};
constexpr auto none = VorbisCommentFlags::None;
VorbisCommentFlags flagsFrom(std::size_t n)
{
    auto f = none;
    if (n & 1)
        f += VorbisCommentFlags::NoSignature;
    if (n & 2)
        f += VorbisCommentFlags::NoFramingByte;
    if (n & 4)
        f += VorbisCommentFlags::NoCovers;
    return f;
}
Block decodeBlock(Ctx &c, std::string_view b, VorbisCommentFlags flags)
{
    Block r;
    std::size_t p = 0;
    auto need = [&](std::size_t n, const char *what) { c.check(p + n <= b.size(), "block-size", "%s needs %zu bytes at %zu of %zu", what, n, p, b.size()); };
    if (!(flags & VorbisCommentFlags::NoSignature)) {
        need(7, "signature");
        c.check(b.substr(0, 7) == "\3vorbis", "signature", "wrong signature %s", hex(b.substr(0, 8)).c_str());
        p = 7;
    }
    need(4, "vendor length");
    const auto vl = rdLE(b, p, 4);
    p += 4;
    need(vl, "vendor");
    r.vendor = b.substr(p, vl);
    p += vl;
    need(4, "count");
    const auto n = rdLE(b, p, 4);
    p += 4;
    for (std::size_t i = 0; i < n; ++i) {
        need(4, "length");
        const auto l = rdLE(b, p, 4);
        p += 4;
        need(l, "entry");
        const auto e = b.substr(p, l);
        p += l;
        const auto eq = e.find('=');
        c.check(eq != e.npos && eq, "entry", "entry %s has no name or '='", quote(e).c_str());
        r.entries.emplace_back(e.substr(0, eq), e.substr(eq + 1));
    }
    if (!(flags & VorbisCommentFlags::NoFramingByte)) {
        need(1, "framing byte");
        c.check(b[p] & 1, "framing", "framing bit not set");
        ++p;
    }
    c.check(p == b.size(), "block-size", "%zu superfluous bytes", b.size() - p);
    return r;
}
Bytes encodeBlock(const Block &bl, VorbisCommentFlags flags)
{
    Bytes b;
    if (!(flags & VorbisCommentFlags::NoSignature))
        b = "\3vorbis";
    le(b, bl.vendor.size(), 4);
    b += bl.vendor;
    le(b, bl.entries.size(), 4);
    for (auto &e : bl.entries) {
        le(b, e.first.size() + 1 + e.second.size(), 4);
        b += e.first + '=' + e.second;
    }
    if (!(flags & VorbisCommentFlags::NoFramingByte))
        b += '\1';
    return b;
}
Bytes make(Ctx &c, VorbisComment &tag, VorbisCommentFlags flags, Diagnostics &diag)
{
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    s << "ab";
    tag.make(s, flags, diag);
    c.step();
    auto b = s.str();
    c.check(b.substr(0, 2) == "ab", "position", "bytes before the comment changed");
    c.check(static_cast<std::size_t>(s.tellp()) == b.size(), "position", "write position not at the end");
    b.erase(0, 2);
    c.state(vt::hashStr(b));
    return b;
}
void parse(Ctx &c, VorbisComment &tag, const Bytes &b, VorbisCommentFlags flags, Diagnostics &diag, bool trailing = true)
{
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    s << "abc" << b << (trailing ? "trailing data" : "");
    s.seekg(3);
    tag.parse(s, b.size(), flags, diag);
    c.step();
    c.check(tag.size() == b.size(), "parsed-size", "size is %llu but the block has %zu bytes", (unsigned long long)tag.size(), b.size());
    c.check(static_cast<std::size_t>(s.tellg()) == b.size() + 3, "parsed-position", "read position %lld", (long long)s.tellg());
}
// base64
Bytes unbase64(Ctx &c, std::string_view s)
{
    static const std::string_view al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    c.check(s.size() % 4 == 0, "base64", "length %zu", s.size());
    Bytes r;
    for (std::size_t i = 0; i < s.size(); i += 4) {
        std::uint32_t v = 0;
        int pad = 0;
        for (int k = 0; k < 4; ++k) {
            if (s[i + k] == '=') {
                c.check(i + 4 == s.size() && k >= 2, "base64", "padding inside");
                ++pad;
                v <<= 6;
                continue;
            }
            const auto p = al.find(s[i + k]);
            c.check(p != al.npos && !pad, "base64", "bad character");
            v = v << 6 | p;
        }
        r += static_cast<char>(v >> 16);
        if (pad < 2)
            r += static_cast<char>(v >> 8);
        if (pad < 1)
            r += static_cast<char>(v);
    }
    return r;
}
Bytes base64(std::string_view s)
{
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    Bytes r;
    for (std::size_t i = 0; i < s.size(); i += 3) {
        std::uint32_t v = rdBE(s, i, 3);
        r += al[v >> 18];
        r += al[v >> 12 & 63];
        r += i + 1 < s.size() ? al[v >> 6 & 63] : '=';
        r += i + 2 < s.size() ? al[v & 63] : '=';
    }
    return r;
}
struct Pic {
    std::uint32_t type = 0;
    Bytes mime, desc, data; // desc UTF-8
    bool operator==(const Pic &o) const
    {
        return type == o.type && mime == o.mime && desc == o.desc && data == o.data;
    }
    std::string str() const
    {
        return fmt("type %u mime %s desc %s data %zu:%s", type, quote(mime).c_str(), quote(desc).c_str(), data.size(), hex(data, 12).c_str());
    }
};
Pic decodePic(Ctx &c, std::string_view b)
{
    Pic r;
    std::size_t p = 0;
    auto need = [&](std::size_t n) { c.check(p + n <= b.size(), "picture-size", "picture truncated: %s", hex(b).c_str()); };
    need(8);
    r.type = rdBE(b, 0, 4);
    auto n = rdBE(b, 4, 4);
    p = 8;
    need(n);
    r.mime = b.substr(p, n);
    p += n;
    need(4);
    n = rdBE(b, p, 4);
    p += 4;
    need(n);
    r.desc = b.substr(p, n);
    p += n;
    need(20);
    p += 16;
    n = rdBE(b, p, 4);
    p += 4;
    need(n);
    r.data = b.substr(p, n);
    p += n;
    c.check(p == b.size(), "picture-size", "%zu superfluous bytes", b.size() - p);
    return r;
}
Bytes encodePic(const Pic &x, bool dims = true)
{
    Bytes b;
    be(b, x.type, 4);
    be(b, x.mime.size(), 4);
    b += x.mime;
    be(b, x.desc.size(), 4);
    b += x.desc;
    be(b, dims ? 640 : 0, 4);
    be(b, dims ? 480 : 0, 4);
    be(b, dims ? 24 : 0, 4);
    be(b, 0, 4);
    be(b, x.data.size(), 4);
    b += x.data;
    return b;
}
Pic picFrom(const TagValue &v, std::uint32_t type)
{
    return Pic{ type, v.mimeType(), descUtf8(v), Bytes(v.data()) };
}
// model of what parsing yields: key -> ordered values; YEAR is filed under DATE if there is no DATE
std::map<Bytes, std::vector<Entry>> modelOf(const std::vector<Entry> &entries)
{
    std::map<Bytes, std::vector<Entry>> m;
    for (auto &e : entries)
        m[lowerKey(e.first)].push_back(e);
    if (!m.count("date") && m.count("year")) {
        m["date"] = m["year"];
        m.erase("year");
    }
    return m;
}
void compareParsed(Ctx &c, const VorbisComment &tag, const std::vector<Entry> &entries)
{
    auto model = modelOf(entries);
    std::size_t n = 0;
    for (auto &f : model) {
        auto range = tag.fields().equal_range(f.first);
        for (auto &e : f.second) {
            c.check(range.first != range.second, "field-lost", "field %s=%s not read back", quote(e.first).c_str(), quote(e.second).c_str());
            const auto &field = range.first->second;
            c.check(field.id() == e.first, "field-name", "name %s read as %s", quote(e.first).c_str(), quote(field.id()).c_str());
            const auto &v = field.value();
            if (v.type() == TagDataType::Popularity) {
                // either just the rating or user|rating[|play counter]
                const auto p1 = e.second.find('|'), p2 = p1 == Bytes::npos ? p1 : e.second.find('|', p1 + 1);
                const auto user = p1 == Bytes::npos ? Bytes() : e.second.substr(0, p1);
                const auto rating = p1 == Bytes::npos ? e.second : e.second.substr(p1 + 1, p2 == Bytes::npos ? p2 : p2 - p1 - 1);
                const auto counter = p2 == Bytes::npos ? Bytes("0") : e.second.substr(p2 + 1);
                c.check(v.toPopularity().scale == TagType::VorbisComment && v.toPopularity().rating == atof(rating.c_str()) && v.toPopularity().user == user
                        && v.toPopularity().playCounter == strtoull(counter.c_str(), nullptr, 10),
                    "rating", "rating %s read as %s", quote(e.second).c_str(), v.toPopularity().toString().c_str());
            } else
                c.check(v.isEmpty() == e.second.empty() && (e.second.empty() || (v.type() == TagDataType::Text && v.dataEncoding() == TagTextEncoding::Utf8 && v.data() == e.second)), "field-value",
                    "value %s of %s read as %s", quote(e.second).c_str(), quote(e.first).c_str(), describe(v).c_str());
            ++range.first;
            ++n;
        }
        c.check(range.first == range.second, "field-extra", "more values for %s than written", f.first.c_str());
    }
    c.check(n == tag.fields().size(), "field-extra", "%zu fields read, %zu expected", tag.fields().size(), n);
}

const Bytes longName(300, 'N');
const char *const names[] = { "TITLE", "title", "ARTIST", "DATE", "YEAR", "year", "x", "MY FIELD~}", "RATING", "METADATA_BLOCK_PICTURES" };
} // namespace

// sequences of fields
VT_SUITE(fields, 4 * 10)
{
    const auto flags = flagsFrom(c.top % 4);
    static const Bytes values[] = { "a", "", "a=b=", "\xE6\x97\xA5\xC3\xA9", Bytes("x\0y\n", 4), "5" };
    static const Bytes vendors[] = { "", "vendor \xC3\xA9" };
    const auto n = 1 + c.choose(vt::thorough() ? 4 : 3, "fields");
    const auto &vendor = c.pick(vendors);
    VorbisComment tag;
    if (!vendor.empty())
        tag.setVendor(text(vendor));
    std::vector<Entry> entries;
    for (std::size_t i = 0; i < n; ++i) {
        Entry e{ names[i ? c.choose(i < 2 ? 10 : 6, "name") : c.top / 4], values[c.choose(i < 1 ? 6 : i < 2 ? 4 : 2, "value")] };
        tag.fields().emplace(e.first, VorbisCommentField(e.first, e.second.empty() ? TagValue() : text(e.second)));
        if (!e.second.empty())
            entries.push_back(e);
        c.log("%s=%s", quote(e.first).c_str(), quote(e.second).c_str());
    }
    Diagnostics diag;
    const auto b = make(c, tag, flags, diag);
    const auto bl = decodeBlock(c, b, flags);
    c.check(bl.vendor == vendor, "vendor", "vendor %s", quote(bl.vendor).c_str());
    c.check(bl.entries.size() == entries.size(), "count", "%zu entries instead of %zu", bl.entries.size(), entries.size());
    std::map<Bytes, std::vector<Entry>> a, w;
    for (auto &e : entries)
        a[lowerKey(e.first)].push_back(e);
    for (auto &e : bl.entries)
        w[lowerKey(e.first)].push_back(e);
    c.check(a == w, "written-fields", "written block has other fields or order: %s", quote(b, 300).c_str());
    VorbisComment back;
    Diagnostics d2;
    parse(c, back, b, flags, d2);
    c.check(!hasLevel(d2, DiagLevel::Critical), "diag", "%s", diagText(d2).c_str());
    c.check(valueUtf8(back.vendor()) == vendor, "vendor", "vendor read as %s", describe(back.vendor()).c_str());
    compareParsed(c, back, entries);
}

// value sizes
VT_SUITE(lengths, 4)
{
    static const std::size_t lens[] = { 1, 2, 126, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1 };
    const auto flags = flagsFrom(c.top);
    const auto which = c.choose(3, "vendor, name or value");
    const auto len = c.pick(lens);
    const auto tail = c.flip("another field follows");
    Bytes vendor = "v", name = "NAME", value = "w";
    auto &x = which == 0 ? vendor : which == 1 ? name : value;
    x = filler(len, 3);
    for (auto &ch : x)
        ch = 'A' + static_cast<unsigned char>(ch) % 26;
    VorbisComment tag;
    tag.setVendor(text(vendor));
    std::vector<Entry> entries{ { name, value } };
    tag.fields().emplace(name, VorbisCommentField(name, text(value)));
    if (tail) {
        entries.emplace_back("zz", "last");
        tag.fields().emplace("zz", VorbisCommentField("zz", text("last")));
    }
    Diagnostics diag;
    const auto b = make(c, tag, flags, diag);
    c.check(b == encodeBlock(Block{ vendor, entries }, flags), "lengths", "unexpected bytes");
    VorbisComment back;
    parse(c, back, b, flags, diag);
    compareParsed(c, back, entries);
    c.check(valueUtf8(back.vendor()) == vendor, "vendor", "vendor differs");
}

// all stored types, assigned via the known fields
VT_SUITE(typed, static_cast<std::size_t>(lastKnownField) + 1)
{
    const auto field = static_cast<KnownField>(c.top);
    VorbisComment tag;
    if (!tag.supportsField(field) || field == KnownField::Cover)
        c.skip();
    const auto kind = c.choose(12, "type");
    TagValue v;
    Bytes want;
    bool refused = false;
    switch (kind) {
    case 0: case 1: case 2: case 3: {
        static const char *const t[] = { "abc", "\xC3\xA9", "\xE6\x97\xA5", "\xF0\x9F\x98\x80" };
        want = c.pick(t);
        if (kind == 0 && !isLatin1(want))
            c.skip();
        v = text(want, allEncodings[kind]);
        break;
    }
    case 4: {
        static const int n[] = { 0, 1, -1, 2147483647, -2147483647 };
        const auto x = c.pick(n);
        v = TagValue(x);
        want = fmt("%d", x);
        break;
    }
    case 5: {
        static const std::uint64_t n[] = { 0, 1, 0xFFFFFFFFull, ~0ull };
        const auto x = c.pick(n);
        v = TagValue(x);
        want = fmt("%llu", (unsigned long long)x);
        break;
    }
    case 6: {
        const int p = c.choose(3) * 7, t = c.choose(3) * 9;
        v = TagValue(PositionInSet(p, t));
        want = p && t ? fmt("%d/%d", p, t) : p ? fmt("%d", p) : t ? fmt("/%d", t) : "";
        if (!p && !t)
            c.skip();
        break;
    }
    case 7: {
        const int g = c.choose(4) * 60;
        v.assignStandardGenreIndex(g);
        want = Bytes(Id3Genres::stringFromIndex(g));
        break;
    }
    case 8:
        v = TagValue(CppUtilities::DateTime::fromDateAndTime(2011, 12, 1, 13, 4, 5));
        want = "2011-12-01T13:04:05";
        break;
    case 9: {
        static const double n[] = { 1, 50, 2.5, 100 };
        const auto x = c.pick(n);
        Popularity p;
        p.rating = x;
        p.scale = TagType::VorbisComment;
        v = TagValue(p);
        want = x == 2.5 ? "2.5" : fmt("%d", (int)x);
        break;
    }
    case 10:
        v = TagValue(CppUtilities::DateTimeExpression::fromIsoString("2011-12"));
        want = "2011-12";
        break;
    case 11:
        v = TagValue("\0\1\2", 3, TagDataType::Binary);
        refused = true;
        break;
    }
    c.check(tag.setValue(field, v), "refused", "field %d refused", c.top);
    c.check(tag.value(field).compareTo(v), "set-value", "value differs after setting");
    Diagnostics diag;
    const auto b = make(c, tag, none, diag);
    const auto bl = decodeBlock(c, b, none);
    if (field == KnownField::Vendor) {
        c.check(bl.vendor == want, "vendor", "vendor %s instead of %s", quote(bl.vendor).c_str(), quote(want).c_str());
        c.check(bl.entries.empty(), "count", "unexpected entries");
        return;
    }
    if (refused) {
        c.check(bl.entries.empty() && hasLevel(diag, DiagLevel::Critical), "unrepresentable", "binary value written as %s; %s", quote(b).c_str(), diagText(diag).c_str());
        return;
    }
    if (want.empty()) {
        c.check(bl.entries.empty() || bl.entries[0].second.empty(), "typed-value", "written %s", quote(b).c_str());
        return;
    }
    c.check(bl.entries.size() == 1 && bl.entries[0].first == tag.fieldId(field) && bl.entries[0].second == want, "typed-value", "written %s instead of %s=%s; %s", quote(b).c_str(),
        tag.fieldId(field).c_str(), quote(want).c_str(), diagText(diag).c_str());
    VorbisComment back;
    Diagnostics d2;
    parse(c, back, b, none, d2);
    compareParsed(c, back, bl.entries);
    const auto &r = back.value(field);
    if (kind < 4)
        c.check(r.toString(TagTextEncoding::Utf8) == want, "typed-value", "read back as %s", describe(r).c_str());
    else if (kind == 4 && field != KnownField::Rating)
        c.check(r.toInteger() == v.toInteger(), "typed-value", "read back as %s", describe(r).c_str());
    else if (kind == 6 && field != KnownField::Rating)
        c.check(r.toPositionInSet() == v.toPositionInSet(), "typed-value", "read back as %s", describe(r).c_str());
}

// pictures within the comment
VT_SUITE(pictures, 8 * 3)
{
    const auto flags = flagsFrom(c.top % 8);
    static const char *const mimes[] = { "", "image/png", "-->" };
    static const char *const descs[] = { "", "front", "\xC3\xA9\xC3\xA0", "\xE6\x97\xA5\xF0\x9F\x98\x80" };
    static const std::size_t sizes[] = { 1, 2, 3, 4, 300, 70000 };
    const auto n = 1 + c.top / 8;
    const bool others = c.flip("other fields");
    std::vector<Pic> pics;
    VorbisComment tag;
    const Bytes id = c.flip("lower-case name") ? "metadata_block_picture" : "METADATA_BLOCK_PICTURE";
    if (others) {
        tag.fields().emplace("ARTIST", VorbisCommentField("ARTIST", text("artist")));
        tag.fields().emplace("TITLE", VorbisCommentField("TITLE", text("title")));
    }
    for (std::size_t i = 0; i < n; ++i) {
        Pic p;
        p.type = i ? 3 + i : c.choose(3) * 10;
        p.mime = i > 1 ? "image/jpeg" : c.pick(mimes, "mime");
        p.desc = i > 1 ? Bytes("third") : Bytes(descs[c.choose(i ? 2 : 4, "description")]);
        const auto enc = i ? TagTextEncoding::Utf8 : allEncodings[c.choose(4, "encoding")];
        if (enc == TagTextEncoding::Latin1 && !isLatin1(p.desc))
            c.skip();
        p.data = filler(sizes[c.choose(i ? 2 : n > 1 ? 5 : 6, "size")], i + 1);
        TagValue v(p.data.data(), p.data.size(), TagDataType::Picture);
        v.setMimeType(p.mime);
        v.setDescription(encode(p.desc, enc), enc);
        VorbisCommentField f(id, v);
        f.setTypeInfo(p.type);
        tag.fields().emplace(id, f);
        pics.push_back(p);
        c.log("%s", p.str().c_str());
    }
    Diagnostics diag;
    const auto b = make(c, tag, flags, diag);
    const auto bl = decodeBlock(c, b, flags);
    std::vector<Pic> got;
    std::vector<Entry> rest;
    for (auto &e : bl.entries)
        if (sameKey(e.first, "METADATA_BLOCK_PICTURE")) {
            c.check(e.first == id, "field-name", "name is %s", e.first.c_str());
            got.push_back(decodePic(c, unbase64(c, e.second)));
        } else
            rest.push_back(e);
    c.check(rest == (others ? std::vector<Entry>{ { "ARTIST", "artist" }, { "TITLE", "title" } } : std::vector<Entry>{}), "written-fields", "other fields differ: %s", quote(b).c_str());
    if (flags & VorbisCommentFlags::NoCovers) {
        c.check(got.empty(), "no-covers", "%zu covers written though disabled", got.size());
        return;
    }
    c.check(got.size() == pics.size(), "picture-count", "%zu pictures written instead of %zu", got.size(), pics.size());
    for (std::size_t i = 0; i < n; ++i)
        c.check(got[i] == pics[i], "picture-written", "picture %zu written as %s", i, got[i].str().c_str());
    VorbisComment back;
    Diagnostics d2;
    parse(c, back, b, flags, d2);
    auto range = back.fields().equal_range(id);
    for (std::size_t i = 0; i < n; ++i, ++range.first) {
        c.check(range.first != range.second, "picture-lost", "picture %zu not read back", i);
        const auto &v = range.first->second.value();
        c.check(v.type() == TagDataType::Picture && picFrom(v, range.first->second.typeInfo()) == pics[i], "picture-read", "picture %zu read as %s", i,
            picFrom(v, range.first->second.typeInfo()).str().c_str());
    }
    c.check(range.first == range.second, "picture-extra", "more pictures than written");
    c.check(back.values(KnownField::Cover).size() == n, "picture-count", "values() yields %zu covers", back.values(KnownField::Cover).size());
}

// the FLAC picture structure itself
VT_SUITE(flac_picture, 21)
{
    static const char *const mimes[] = { "", "i", "image/png" };
    static const char *const descs[] = { "", "d", "\xC3\xA9", "\xE6\x97\xA5\xF0\x9F\x98\x80" };
    static const std::size_t sizes[] = { 0, 1, 2, 255, 256, 65535, 65536 };
    Pic p{ static_cast<std::uint32_t>(c.top), c.pick(mimes), c.pick(descs), filler(c.pick(sizes), 2) };
    const auto enc = allEncodings[c.choose(4)];
    if (enc == TagTextEncoding::Latin1 && !isLatin1(p.desc))
        c.skip();
    TagValue v(p.data.data(), p.data.size(), TagDataType::Picture);
    v.setMimeType(p.mime);
    v.setDescription(encode(p.desc, enc), enc);
    FlacMetaDataBlockPicture pic(v);
    pic.setPictureType(p.type);
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    const auto required = pic.requiredSize();
    pic.make(s);
    c.step();
    const auto b = s.str();
    c.state(vt::hashStr(b));
    c.check(b.size() == required, "picture-size", "%u announced, %zu written", required, b.size());
    const auto got = decodePic(c, b);
    c.check(got == p, "picture-written", "written as %s", got.str().c_str());
    // a foreign one with dimensions
    const auto foreign = encodePic(p);
    std::stringstream s2(foreign + "trailing");
    s2.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    TagValue v2;
    if (c.flip("value in use before"))
        v2 = text("old");
    FlacMetaDataBlockPicture pic2(v2);
    const bool truncated = enc == TagTextEncoding::Utf8 && c.flip("truncated");
    if (truncated) {
        bool thrown = false;
        const auto n = p.data.size() > 300 ? foreign.size() - 1 - c.choose(5) : c.choose(foreign.size(), "bytes");
        try {
            pic2.parse(s2, n);
        } catch (const TruncatedDataException &) {
            thrown = true;
        }
        c.check(thrown, "truncated", "%zu of %zu bytes accepted", n, foreign.size());
        c.check(s2.tellg() <= static_cast<std::streamoff>(foreign.size()), "truncated", "read beyond the end");
        return;
    }
    pic2.parse(s2, foreign.size());
    c.step();
    c.check(pic2.pictureType() == p.type && v2.mimeType() == p.mime && descUtf8(v2) == p.desc && v2.isEmpty() == p.data.empty() && (p.data.empty() || v2.data() == p.data), "picture-read", "read as %s",
        picFrom(v2, pic2.pictureType()).str().c_str());
    c.check(static_cast<std::size_t>(s2.tellg()) == foreign.size(), "parsed-position", "position %lld of %zu", (long long)s2.tellg(), foreign.size());
}

// blocks of another writer: any order, empty values, entries without '='; every prefix
VT_SUITE(foreign, 4 * 17)
{
    const auto flags = flagsFrom(c.top % 4);
    static const Bytes entryTexts[] = { "TITLE=a", "Title=b", "ARTIST=\xE6\x97\xA5", "DATE=2011", "YEAR=2012", "X=", "noequals", "=noname", "", "RATING=40", "RATING=x|2|3",
        "METADATA_BLOCK_PICTURE=" + base64(encodePic(Pic{ 3, "image/png", "d", "PNG" })), "metadata_block_picture=" + base64(encodePic(Pic{ 4, "image/gif", "\xC3\xA9", "GIFF" })),
        "METADATA_BLOCK_PICTURE", "METADATA_BLOCK_PICTURE=", "METADATA_BLOCK_PICTURE=!!", "METADATA_BLOCK_PICTURE=AAAA" };
    constexpr std::size_t total = sizeof(entryTexts) / sizeof(*entryTexts);
    const auto n = c.choose(3, "entries") + 1;
    Bytes b;
    if (!(flags & VorbisCommentFlags::NoSignature))
        b = "\3vorbis";
    le(b, 3, 4);
    b += "ven";
    le(b, n, 4);
    std::vector<Entry> expect;
    std::vector<Pic> pics;
    bool problem = false;
    for (std::size_t i = 0; i < n; ++i) {
        const auto k = i ? c.choose(total, "entry") : c.top / 4;
        if (k >= total)
            c.skip();
        const auto &e = entryTexts[k];
        c.log("entry %s", quote(e).c_str());
        le(b, e.size(), 4);
        b += e;
        const auto eq = e.find('=');
        if (k == 11)
            pics.push_back(Pic{ 3, "image/png", "d", "PNG" });
        else if (k == 12)
            pics.push_back(Pic{ 4, "image/gif", "\xC3\xA9", "GIFF" });
        else if (k == 6 || k == 7 || k == 8 || k >= 13)
            problem = true;
        else if (eq != e.npos && eq + 1 < e.size())
            expect.emplace_back(e.substr(0, eq), e.substr(eq + 1));
    }
    if (!(flags & VorbisCommentFlags::NoFramingByte))
        b += '\1';
    const auto cut = (n <= 2 || vt::thorough()) && c.choose(2, "cut") ? c.choose(b.size() - ((flags & VorbisCommentFlags::NoFramingByte) ? 0 : 1), "length") : b.size();
    VorbisComment tag;
    Diagnostics diag;
    if (cut != b.size()) {
        bool thrown = false;
        for (int mode = 0; mode < 2; ++mode) { // file ends there/only the limit ends there
            std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
            s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            s << (mode ? b + Bytes(100, 'x') : b.substr(0, cut));
            try {
                VorbisComment t;
                t.parse(s, cut, flags, diag);
            } catch (const Failure &) {
                thrown = true;
            } catch (const std::ios_base::failure &) {
                thrown = true;
            }
            c.step();
            if (!thrown)
                c.fail("truncated", "block cut to %zu of %zu bytes accepted", cut, b.size());
        }
        return;
    }
    bool thrown = false;
    try {
        parse(c, tag, b, flags, diag);
    } catch (const TruncatedDataException &) {
        thrown = true;
    }
    // entries of the picture field whose structure is incomplete are reported as truncation of the comment
    c.check(!thrown || problem, "foreign", "well-formed block refused: %s", diagText(diag).c_str());
    if (problem)
        return;
    std::vector<Pic> got;
    auto range = tag.fields().equal_range("METADATA_BLOCK_PICTURE");
    for (auto i = range.first; i != range.second; ++i)
        got.push_back(picFrom(i->second.value(), i->second.typeInfo()));
    c.check(got == pics, "picture-read", "%zu pictures read instead of %zu", got.size(), pics.size());
    tag.fields().erase(range.first, range.second);
    for (auto i = tag.fields().begin(); i != tag.fields().end();)
        if (i->second.value().isEmpty())
            i = tag.fields().erase(i);
        else
            ++i;
    compareParsed(c, tag, expect);
}

// TRACKTOTAL/DISCTOTAL/PARTTOTAL
VT_SUITE(totals, 3 * 2)
{
    static const char *const num[] = { "TRACKNUMBER", "DISCNUMBER", "PARTNUMBER" }, *const tot[] = { "TRACKTOTAL", "DISCTOTAL", "PARTTOTAL" };
    const auto f = c.top % 3;
    const bool convert = c.top / 3;
    static const char *const numbers[] = { "4", "4/9", "7/12", "/12", "abc" };
    static const char *const totals[] = { "9", "12", "x", "0" };
    std::vector<Entry> entries;
    std::vector<Bytes> ns, ts;
    const auto n = c.choose(3, "numbers"), t = c.choose(3, "totals");
    const auto order = c.flip("totals first");
    for (std::size_t i = 0; i < n; ++i)
        ns.push_back(c.pick(numbers));
    for (std::size_t i = 0; i < t; ++i)
        ts.push_back(c.pick(totals));
    for (int k = 0; k < 2; ++k)
        if ((k == 0) == order)
            for (auto &x : ts)
                entries.emplace_back(tot[f], x);
        else
            for (auto &x : ns)
                entries.emplace_back(num[f], x);
    entries.emplace_back("TITLE", "t");
    VorbisComment tag;
    Diagnostics diag;
    parse(c, tag, encodeBlock(Block{ "v", entries }, none), convert ? VorbisCommentFlags::ConvertTotalFields : none, diag);
    if (!convert) {
        compareParsed(c, tag, entries);
        return;
    }
    // model
    auto parsePos = [](const Bytes &s, int &p, int &q) {
        p = q = 0;
        if (s == "abc")
            return false;
        const auto sl = s.find('/');
        p = atoi(s.substr(0, sl).c_str());
        q = sl == s.npos ? 0 : atoi(s.substr(sl + 1).c_str());
        return true;
    };
    std::vector<Bytes> wantN, wantT;
    for (auto &x : ts)
        if (x == "x")
            wantT.push_back(x);
    for (std::size_t i = 0; i < std::max(ns.size(), ts.size()); ++i) {
        int p = 0, q = 0;
        if (i >= ns.size()) {
            const int total = ts[i] == "x" ? 0 : atoi(ts[i].c_str());
            if (total)
                wantN.push_back(fmt("0/%d", total));
            continue;
        }
        if (!parsePos(ns[i], p, q)) {
            wantN.push_back(ns[i]);
            continue;
        }
        if (i < ts.size() && !q)
            q = ts[i] == "x" ? 0 : atoi(ts[i].c_str());
        wantN.push_back(fmt("%d/%d", p, q));
    }
    std::vector<Bytes> gotN, gotT;
    auto range = tag.fields().equal_range(num[f]);
    for (; range.first != range.second; ++range.first) {
        const auto &v = range.first->second.value();
        try {
            const auto p = v.toPositionInSet();
            if (!p.isNull())
                gotN.push_back(fmt("%d/%d", p.position(), p.total()));
        } catch (const CppUtilities::ConversionException &) {
            gotN.push_back(v.toString(TagTextEncoding::Utf8));
        }
    }
    range = tag.fields().equal_range(tot[f]);
    for (; range.first != range.second; ++range.first)
        gotT.push_back(range.first->second.value().toString(TagTextEncoding::Utf8));
    auto join = [](const std::vector<Bytes> &v) {
        Bytes r;
        for (auto &x : v)
            r += x + ' ';
        return r;
    };
    c.check(gotN == wantN, "totals", "numbers %sinstead of %s(totals %s)", join(gotN).c_str(), join(wantN).c_str(), join(ts).c_str());
    c.check(gotT == wantT, "totals", "remaining totals %sinstead of %s", join(gotT).c_str(), join(wantT).c_str());
    c.check(tag.value(KnownField::Title).toString() == "t", "totals", "title lost");
    // converted fields survive writing and reading
    Diagnostics d2;
    auto b = make(c, tag, none, d2);
    VorbisComment back;
    parse(c, back, b, none, d2);
    auto r1 = back.fields().equal_range(num[f]);
    std::vector<Bytes> again;
    for (; r1.first != r1.second; ++r1.first) {
        try {
            const auto p = r1.first->second.value().toPositionInSet();
            if (!p.isNull())
                again.push_back(fmt("%d/%d", p.position(), p.total()));
        } catch (const CppUtilities::ConversionException &) {
            again.push_back(r1.first->second.value().toString(TagTextEncoding::Utf8));
        }
    }
    c.check(again == wantN, "totals", "numbers after round trip %s", join(again).c_str());
}
