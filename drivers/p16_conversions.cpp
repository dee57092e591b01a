// P16: Tag value conversions agree with each other and lose nothing silently.
#include "common.h"

#include <tagparser/id3/id3genres.h>
#include <tagparser/positioninset.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/matroska/matroskatag.h>

#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>
#include <c++utilities/conversion/stringconversion.h>

#include <cmath>
#include <limits>
#include <optional>

using namespace ref;
using namespace TagParser;
using namespace CppUtilities;

const char *vt::property = "P16";
const char *vt::rule = "every text over an alphabet of characters (1 to 4 byte UTF-8, NUL, BOM) up to the stated length x source encoding x target encoding x way of "
                       "conversion and every chain of two conversions; all numbers/positions/genres/dates/durations/popularities of a boundary grid x stored type x text "
                       "encoding x conversion; every stored type with every data size 0..40 x every conversion; states = distinct converted values";
const char *vt::assumptions = "text is valid in its encoding|numbers and dates whose text form the utility library itself can not parse back are skipped|users of popularities "
                              "contain no '|' and are no plain number; ratings have at most six significant digits";

namespace {
constexpr auto unspecified = TagTextEncoding::Unspecified;
const Bytes alphabet[] = { "", "A", "z", "\xC3\xA9", "\xC3\xBF", "\xCE\xA9", "\xE6\x97\xA5", "\xEF\xBF\xBD", "\xF0\x9F\x98\x80", "7", " ", "\xC5\x81" };
bool representable(const Bytes &s, TagTextEncoding e)
{
    return e != TagTextEncoding::Latin1 || isLatin1(s);
}
template <class F> auto attempt(F f) -> std::optional<decltype(f())>
{
    try {
        return f();
    } catch (const ConversionException &) {
        return std::nullopt;
    }
}
Bytes u16bytes(const std::u16string &s)
{
    return Bytes(reinterpret_cast<const char *>(s.data()), s.size() * 2);
}
Bytes buildText(Ctx &c, std::size_t n)
{
    Bytes s;
    for (std::size_t i = 0; i < n; ++i)
        s += alphabet[c.choose(std::size(alphabet), "char")];
    return s;
}
void checkText(Ctx &c, const TagValue &v, const Bytes &utf8, TagTextEncoding e, const char *what)
{
    c.check(v.type() == TagDataType::Text, "type", "%s: type is %s", what, tagDataTypeString(v.type()).data());
    c.check(v.dataEncoding() == e, "encoding", "%s: encoding is %s instead of %s", what, encName(v.dataEncoding()), encName(e));
    const auto expected = encode(utf8, e);
    c.check(v.data() == expected, "text", "%s: data is %s instead of %s", what, hex(v.data()).c_str(), hex(expected).c_str());
    c.state(vt::hashStr(expected, static_cast<int>(e)));
}
} // namespace

// one conversion in every way the class offers
VT_SUITE(text, std::size(allEncodings) * std::size(allEncodings))
{
    const auto src = allEncodings[c.top % 4], dst = allEncodings[c.top / 4];
    const auto s = buildText(c, vt::thorough() ? 5 : 4);
    if (!representable(s, src))
        c.skip();
    const auto raw = encode(s, src), want = representable(s, dst) ? encode(s, dst) : Bytes();
    const auto possible = representable(s, dst);
    c.step();
    for (int how = 0; how < 9; ++how) {
        TagValue v;
        if (how != 3 && how != 4)
            v = TagValue(raw.data(), raw.size(), src);
        const auto r = attempt([&]() -> Bytes {
            switch (how) {
            case 0:
                return v.toString(dst);
            case 1:
                if (dst == TagTextEncoding::Utf16BigEndian || dst == TagTextEncoding::Utf16LittleEndian)
                    return u16bytes(v.toWString(dst));
                return v.toString(dst);
            case 2:
                v.convertDataEncoding(dst);
                c.check(v.dataEncoding() == dst, "encoding", "encoding not updated");
                return Bytes(v.data());
            case 3:
                v = TagValue(raw.data(), raw.size(), src, dst);
                c.check(v.dataEncoding() == dst, "encoding", "encoding wrong after construction");
                return Bytes(v.data());
            case 4:
                v.assignInteger(5);
                v.assignText(raw, src, dst);
                c.check(v.dataEncoding() == dst && v.type() == TagDataType::Text, "encoding", "encoding/type wrong after assignment");
                return Bytes(v.data());
            case 5:
                v.clearData();
                v.setDescription(raw, src);
                v.convertDescriptionEncoding(dst);
                c.check(v.descriptionEncoding() == dst, "encoding", "description encoding not updated");
                return v.description();
            case 6:
                return TagValue::toStrings(std::vector<TagValue>{ v }, dst).at(0);
            case 7: {
                Bytes b = "previous content";
                v.toString(b, dst);
                return b;
            }
            default: {
                std::u16string b = u"previous";
                if (dst == TagTextEncoding::Utf8 || dst == TagTextEncoding::Latin1)
                    return v.toString(dst);
                v.toWString(b, dst);
                return u16bytes(b);
            }
            }
        });
        c.check(r.has_value() == possible, "convertible", "conversion %d of %s from %s to %s %s", how, quote(s).c_str(), encName(src), encName(dst),
            possible ? "throws" : "yields something although not representable");
        if (r) {
            c.check(*r == want, "text", "conversion %d of %s from %s to %s yields %s instead of %s", how, quote(s).c_str(), encName(src), encName(dst),
                hex(*r).c_str(), hex(want).c_str());
            c.state(vt::hashStr(*r, 16 + how));
        } else if (how == 2)
            checkText(c, v, s, src, "failed conversion");
        else if (how == 5)
            c.check(v.description() == raw && v.descriptionEncoding() == src, "failed-description", "description altered by failed conversion");
    }
    // conversions from/to unspecified encoding do not touch the data
    TagValue u(raw.data(), raw.size(), src);
    u.convertDataEncoding(unspecified);
    c.check(u.data() == raw, "unspecified", "conversion to unspecified encoding alters %s to %s", hex(raw).c_str(), hex(u.data()).c_str());
    u.convertDataEncoding(dst);
    c.check(u.data() == raw && u.dataEncoding() == dst, "unspecified", "conversion from unspecified encoding alters %s to %s", hex(raw).c_str(), hex(u.data()).c_str());
    TagValue w(raw.data(), raw.size(), src);
    c.check(w.toString() == raw && w.toString(unspecified) == raw, "unspecified", "toString() without encoding alters data");
    w.setDescription(raw, unspecified);
    w.convertDescriptionEncoding(dst);
    c.check(w.description() == raw, "unspecified", "conversion of description from unspecified encoding alters it");
    w.setDescription(raw, src);
    w.convertDescriptionEncoding(unspecified);
    c.check(w.description() == raw, "unspecified", "conversion of description to unspecified encoding alters it");
    w.assignText(raw, unspecified, dst);
    c.check(w.data() == raw, "unspecified", "assigning text of unspecified encoding alters it");
    c.check(w.toDisplayString() == w.toString(TagTextEncoding::Utf8), "display", "display string differs");
}

// chains there and back
VT_SUITE(text_chain, std::size(allEncodings))
{
    const auto src = allEncodings[c.top];
    const auto s = buildText(c, 2);
    if (!representable(s, src))
        c.skip();
    auto cur = src;
    TagValue v = text(s, src);
    v.setDescription(encode(s, src), src);
    for (int i = 0; i < (vt::thorough() ? 4 : 3); ++i) {
        const auto e = c.pick(allEncodings, "encoding");
        const auto ok = representable(s, e);
        for (int part = 0; part < 2; ++part) {
            bool thrown = false;
            try {
                part ? v.convertDescriptionEncoding(e) : v.convertDataEncoding(e);
            } catch (const ConversionException &) {
                thrown = true;
            }
            c.check(thrown == !ok, "convertible", "%s", thrown ? "conversion fails" : "no conversion error");
        }
        c.step();
        if (ok)
            cur = e;
        checkText(c, v, s, cur, "chain");
        c.check(v.description() == encode(s, cur) && v.descriptionEncoding() == cur, "description", "description altered by chain: %s", hex(v.description()).c_str());
        c.check(v.toString(src) == encode(s, src), "back", "text in original encoding altered by chain");
    }
}

// byte order marks are stripped as documented
VT_SUITE(bom, 4)
{
    const auto e = allEncodings[c.top];
    const auto s = buildText(c, 1);
    if (!representable(s, e))
        c.skip();
    const auto bomEnc = c.pick(allEncodings, "bom");
    const Bytes bom = bomEnc == TagTextEncoding::Utf8 ? "\xEF\xBB\xBF" : bomEnc == TagTextEncoding::Utf16LittleEndian ? "\xFF\xFE" : bomEnc == TagTextEncoding::Utf16BigEndian ? "\xFE\xFF" : "";
    const auto b = bom + encode(s, e);
    const auto want = bomEnc == e ? encode(s, e) : b;
    const TagValue vals[] = { TagValue(b.data(), b.size(), e), TagValue(b, e), TagValue(std::string_view(b), e), TagValue(b.data(), b.size(), TagDataType::Text, e) };
    for (auto &v : vals)
        c.check(v.data() == want, "bom", "BOM of %s in %s text not handled: %s", encName(bomEnc), encName(e), hex(v.data()).c_str());
    TagValue v;
    v.assignData(b.data(), b.size(), TagDataType::Text, e);
    c.check(v.data() == want, "bom", "BOM not handled by assignData: %s", hex(v.data()).c_str());
    v.assignText(b, e);
    c.check(v.data() == want, "bom", "BOM not handled by assignText: %s", hex(v.data()).c_str());
    c.check(v.isEmpty() == want.empty() && static_cast<bool>(v) == !want.empty(), "empty", "isEmpty() wrong for text of size %zu", want.size());
    c.step(4);
    const char *p = b.data();
    std::size_t n = b.size();
    TagValue::stripBom(p, n, e);
    c.check(std::string_view(p, n) == want, "bom", "stripBom() wrong");
    v = TagValue(b.data(), b.size(), TagDataType::Binary, e);
    c.check(v.data() == b, "bom", "binary data altered");
    c.state(vt::hashStr(b));
}

// numbers stored in every way
namespace {
const std::int64_t numbers[] = { 0, 1, 2, 9, 10, 99, 100, 125, 126, 127, 128, 147, 148, 191, 192, 254, 255, 256, 999, 65535, 65536, 2147483646, 2147483647, 2147483648ll, 4294967295ll,
    4294967296ll, 9007199254740992ll, 9223372036854775806ll, 9223372036854775807ll, -1, -2, -128, -2147483647 };
std::string dec(std::int64_t n)
{
    return std::to_string(n);
}
} // namespace
VT_SUITE(numbers, std::size(numbers))
{
    const auto n = numbers[c.top];
    const bool fits32 = n >= INT32_MIN && n <= INT32_MAX;
    TagValue v;
    const auto kind = c.choose(8, "kind");
    switch (kind) {
    case 0:
        if (!fits32)
            c.skip();
        v = TagValue(static_cast<int>(n));
        break;
    case 1:
        if (n < 0)
            c.skip();
        v = TagValue(static_cast<std::uint64_t>(n));
        break;
    case 2:
        if (!fits32)
            c.skip();
        v = ref::text("x");
        v.assignInteger(static_cast<int>(n));
        break;
    case 3:
        if (n < 0)
            c.skip();
        v = ref::text("some longer text");
        v.assignUnsignedInteger(static_cast<std::uint64_t>(n));
        break;
    default:
        if (!fits32) // the utility library does not check for overflows
            c.skip();
        v = text(dec(n), allEncodings[kind - 4]);
    }
    c.step();
    const auto isUnsigned = kind == 1 || kind == 3;
    const auto isText = kind >= 4;
    const auto i = attempt([&] { return v.toInteger(); });
    c.check(i.has_value() == fits32, "integer", "toInteger() of %s %s", dec(n).c_str(), i ? "yields something" : "throws");
    if (i)
        c.check(*i == n, "integer", "toInteger() of %s is %d", dec(n).c_str(), *i);
    const auto u = attempt([&] { return v.toUnsignedInteger(); });
    c.check(u.has_value() == (n >= 0), "unsigned", "toUnsignedInteger() of %s %s", dec(n).c_str(), u ? "yields something" : "throws");
    if (u)
        c.check(*u == static_cast<std::uint64_t>(n), "unsigned", "toUnsignedInteger() of %s is %llu", dec(n).c_str(), static_cast<unsigned long long>(*u));
    for (auto e : allEncodings) {
        c.check(v.toString(e) == encode(dec(n), e), "string", "toString(%s) of %s is %s", encName(e), dec(n).c_str(), hex(v.toString(e)).c_str());
        if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian)
            c.check(u16bytes(v.toWString(e)) == encode(dec(n), e), "wstring", "toWString(%s) of %s is %s", encName(e), dec(n).c_str(), hex(u16bytes(v.toWString(e))).c_str());
        // the text form gives the value back
        const auto t = v.toString(e);
        TagValue back(t.data(), t.size(), e);
        if (fits32)
            c.check(back.toInteger() == n, "back", "text form %s gives %d", hex(t).c_str(), back.toInteger());
        if (n >= 0)
            c.check(back.toUnsignedInteger() == static_cast<std::uint64_t>(n), "back", "text form %s gives another number", hex(t).c_str());
    }
    if (!isText)
        c.check(v.toString() == dec(n), "string", "toString() is %s", v.toString().c_str());
    c.check(v.toDisplayString() == dec(n), "display", "display string is %s", v.toDisplayString().c_str());
    const auto p = attempt([&] { return v.toPositionInSet(); });
    c.check(p.has_value() == fits32, "position", "toPositionInSet() of %s %s", dec(n).c_str(), p ? "yields something" : "throws");
    if (p)
        c.check(p->position() == n && p->total() == 0, "position", "toPositionInSet() of %s is %d/%d", dec(n).c_str(), p->position(), p->total());
    if (!isText) {
        const auto ts = attempt([&] { return v.toTimeSpan(); });
        c.check(ts && ts->totalTicks() == n, "timespan", "toTimeSpan() of %s %s", dec(n).c_str(), ts ? dec(ts->totalTicks()).c_str() : "throws");
        const auto dt = attempt([&] { return v.toDateTime(); });
        c.check(dt.has_value() == (n >= 0), "datetime", "toDateTime() of %s %s", dec(n).c_str(), dt ? "yields something" : "throws");
        if (dt)
            c.check(dt->totalTicks() == static_cast<std::uint64_t>(n), "datetime", "toDateTime() of %s is another date", dec(n).c_str());
        const auto ex = attempt([&] { return v.toDateTimeExpression(); });
        c.check(ex.has_value() == (n >= 0), "datetime", "toDateTimeExpression() of %s %s", dec(n).c_str(), ex ? "yields something" : "throws");
        if (ex)
            c.check(ex->value.totalTicks() == static_cast<std::uint64_t>(n) && ex->parts == DateTimeParts::DateTime && ex->delta.totalTicks() == 0, "datetime", "expression wrong");
        const auto pop = attempt([&] { return v.toPopularity(); });
        c.check(pop && pop->rating == static_cast<double>(n) && pop->user.empty() && !pop->playCounter && pop->scale == TagType::Unspecified, "popularity",
            "toPopularity() of %s wrong", dec(n).c_str());
    }
    const bool validGenre = (n >= 0 && n <= 191) || n == 255;
    const auto g = attempt([&] { return v.toStandardGenreIndex(); });
    c.check(g.has_value() == validGenre, "genre", "toStandardGenreIndex() of %s %s", dec(n).c_str(), g ? "yields something" : "throws");
    if (g)
        c.check(*g == n, "genre", "toStandardGenreIndex() of %s is %d", dec(n).c_str(), *g);
    c.check(!v.isEmpty() && !v.isNull(), "empty", "number considered empty");
    (void)isUnsigned;
    c.state(vt::hashStr(v.data(), kind));
}

VT_SUITE(non_numbers, 4)
{
    const auto e = allEncodings[c.top];
    static const Bytes texts[] = { "a", "1a", "a1", "--1", "1.5", "0x10", "1/2/3", "x/2", "2/x", "\xC3\xA9", "1-" };
    const auto s = c.pick(texts, "text");
    if (!representable(s, e))
        c.skip();
    const auto v = text(s, e);
    c.step();
    c.check(!attempt([&] { return v.toInteger(); }), "no-number", "toInteger() of %s does not fail", quote(s).c_str());
    c.check(!attempt([&] { return v.toUnsignedInteger(); }), "no-number", "toUnsignedInteger() of %s does not fail", quote(s).c_str());
    c.check(!attempt([&] { return v.toPositionInSet(); }), "no-number", "toPositionInSet() of %s does not fail", quote(s).c_str());
    c.check(!attempt([&] { return v.toStandardGenreIndex(); }), "no-number", "toStandardGenreIndex() of %s does not fail", quote(s).c_str());
    c.state(vt::hashStr(v.data()));
}

namespace {
const std::int32_t posGrid[] = { 0, 1, 2, 9, 10, 12, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 65535, 65536, 2147483647 };
}
VT_SUITE(positions, std::size(posGrid) * std::size(posGrid))
{
    const auto a = posGrid[c.top % std::size(posGrid)], b = posGrid[c.top / std::size(posGrid)];
    const PositionInSet p(a, b);
    const Bytes s = (a ? dec(a) : Bytes()) + (b ? "/" + dec(b) : Bytes());
    TagValue v(p);
    if (c.flip("assign")) {
        v = ref::text("foo");
        v.assignPosition(p);
    }
    c.step();
    c.check(p.isNull() == (!a && !b) && p.position() == a && p.total() == b && p == PositionInSet(a, b), "basics", "PositionInSet basics wrong");
    c.check(v.type() == TagDataType::PositionInSet, "type", "type wrong");
    c.check(v.toPositionInSet() == p, "position", "stored position not returned");
    c.check(v.toInteger() == a && v.toUnsignedInteger() == static_cast<std::uint64_t>(a), "integer", "position not returned as integer");
    for (auto e : allEncodings) {
        const auto t = v.toString(e);
        c.check(t == encode(s, e), "string", "text of %d/%d is %s", a, b, hex(t).c_str());
        if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian)
            c.check(u16bytes(v.toWString(e)) == encode(s, e), "wstring", "wide text of %d/%d is %s", a, b, hex(u16bytes(v.toWString(e))).c_str());
        const TagValue back(t.data(), t.size(), e);
        c.check(back.toPositionInSet() == p, "back", "text %s gives %d/%d", quote(s).c_str(), back.toPositionInSet().position(), back.toPositionInSet().total());
        // variants other writers use
        for (const auto &alt : { dec(a) + "/" + dec(b), "0" + dec(a) + "/" + dec(b), dec(a) + "/0" + dec(b) }) {
            const auto x = text(alt, e);
            c.check(x.toPositionInSet() == p, "alt", "text %s gives %d/%d", quote(alt).c_str(), x.toPositionInSet().position(), x.toPositionInSet().total());
        }
        if (!b) {
            c.check(text(dec(a), e).toPositionInSet() == p, "alt", "plain number");
            c.check(text(dec(a) + "/", e).toPositionInSet() == p, "alt", "number with trailing slash");
        }
    }
    if (!p.isNull())
        c.check(v.toDisplayString() == s, "display", "display string is %s", v.toDisplayString().c_str());
    PositionInSet q;
    q.setPosition(a);
    q.setTotal(b);
    c.check(q == p, "basics", "setters wrong");
    c.state(vt::hashStr(v.data()));
}

// genres: the table of the ID3v1 genres is anchored by a few independently known entries, the remaining ones by being pairwise consistent
VT_SUITE(genres, 260)
{
    const int i = static_cast<int>(c.top) - 2;
    static const std::map<int, const char *> known = { { 0, "Blues" }, { 1, "Classic Rock" }, { 2, "Country" }, { 3, "Dance" }, { 4, "Disco" }, { 5, "Funk" }, { 6, "Grunge" }, { 7, "Hip-Hop" }, { 8, "Jazz" }, { 9, "Metal" }, { 10, "New Age" }, { 11, "Oldies" }, { 12, "Other" }, { 13, "Pop" }, { 15, "Rap" }, { 16, "Reggae" }, { 17, "Rock" }, { 18, "Techno" }, { 19, "Industrial" }, { 24, "Soundtrack" }, { 32, "Classical" }, { 35, "House" }, { 52, "Electronic" }, { 79, "Hard Rock" }, { 80, "Folk" }, { 147, "Synthpop" }, { 191, "Psybient" } };
    TagValue v;
    v.assignStandardGenreIndex(i);
    c.step();
    const bool supported = i >= 0 && i <= 191, none = i == 255;
    c.check(Id3Genres::isIndexSupported(i) == supported, "supported", "isIndexSupported(%d)", i);
    c.check(Id3Genres::isEmptyGenre(i) == none, "empty", "isEmptyGenre(%d)", i);
    const auto idx = attempt([&] { return v.toStandardGenreIndex(); });
    c.check(idx.has_value() == (supported || none), "genre", "toStandardGenreIndex() for %d", i);
    if (idx)
        c.check(*idx == i, "genre", "index %d becomes %d", i, *idx);
    const auto s = attempt([&] { return v.toString(TagTextEncoding::Utf8); });
    c.check(s.has_value() == (supported || none), "string", "toString() for %d", i);
    c.check(v.toInteger() == i, "integer", "toInteger() for %d", i);
    if (none)
        c.check(s->empty(), "string", "name of empty genre");
    if (supported) {
        c.check(!s->empty() && *s == Id3Genres::stringFromIndex(i), "string", "name of genre %d is %s", i, s->c_str());
        if (auto k = known.find(i); k != known.end())
            c.check(*s == k->second, "name", "genre %d is %s instead of %s", i, s->c_str(), k->second);
        for (int j = 0; j < i; ++j)
            c.check(Id3Genres::stringFromIndex(j) != *s, "unique", "genres %d and %d have the same name", i, j);
        for (auto e : allEncodings) {
            const auto t = v.toString(e);
            c.check(t == encode(*s, e), "string", "name in %s", encName(e));
            if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian)
                c.check(u16bytes(v.toWString(e)) == t, "wstring", "wide name");
            const TagValue back(t.data(), t.size(), e);
            c.check(back.toStandardGenreIndex() == i, "back", "name %s gives index %d", s->c_str(), back.toStandardGenreIndex());
            c.check(text(dec(i), e).toStandardGenreIndex() == i, "back", "number as text");
        }
        c.check(v.toDisplayString() == *s, "display", "display string");
        TagValue n(i), u(static_cast<std::uint64_t>(i));
        c.check(n.toStandardGenreIndex() == i && u.toStandardGenreIndex() == i, "from-number", "genre from number");
    }
    c.state(static_cast<std::uint64_t>(i + 5));
}

// durations and dates
namespace {
const std::int64_t ticks[] = { 0, 1, 10, 10000, 123 * 10000ll, 999 * 10000ll, 10000000ll, 59 * 10000000ll, 60 * 10000000ll, 61 * 10000000ll + 5000000, 3599 * 10000000ll, 3600 * 10000000ll,
    (5 * 3600 + 6 * 60 + 7) * 10000000ll, 86399 * 10000000ll, 86400 * 10000000ll, (3 * 86400 + 5) * 10000000ll, 400 * 86400ll * 10000000ll, -10000000ll, -(86400 + 61) * 10000000ll, 123456789ll };
std::vector<DateTime> dates()
{
    std::vector<DateTime> r;
    for (int y : { 1, 99, 999, 1582, 1900, 1969, 1970, 1999, 2000, 2004, 2100, 9999 })
        for (int m : { 1, 2, 7, 12 })
            for (int d : { 1, 28, 31 }) {
                if (m == 2 && d == 31)
                    d = (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : 27;
                const auto day = DateTime::fromDate(y, m, d);
                r.push_back(day);
                r.push_back(day + TimeSpan::fromHours(23.0) + TimeSpan::fromMinutes(59.0) + TimeSpan::fromSeconds(58.0));
                r.push_back(day + TimeSpan::fromHours(7.0) + TimeSpan::fromMinutes(8.0) + TimeSpan::fromSeconds(9.0) + TimeSpan::fromMilliseconds(250.0));
            }
    return r;
}
} // namespace
VT_SUITE(timespans, std::size(ticks))
{
    const TimeSpan t(ticks[c.top]);
    TagValue v(t);
    if (c.flip("assign")) {
        v = text("abc");
        v.assignTimeSpan(t);
    }
    c.step();
    c.check(v.type() == TagDataType::TimeSpan && v.toTimeSpan() == t, "timespan", "stored duration not returned");
    const auto s = v.toString();
    c.check(s == t.toString(), "string", "text is %s", s.c_str());
    c.check(v.toDisplayString() == s, "display", "display string differs");
    const auto parsesBack = attempt([&] { return TimeSpan::fromString(s); });
    for (auto e : allEncodings) {
        const auto x = v.toString(e);
        c.check(x == encode(s, e), "string", "text in %s is %s", encName(e), hex(x).c_str());
        if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian)
            c.check(u16bytes(v.toWString(e)) == x, "wstring", "wide text is %s", hex(u16bytes(v.toWString(e))).c_str());
        const TagValue back(x.data(), x.size(), e);
        const auto got = attempt([&] { return back.toTimeSpan(); });
        c.check(got == parsesBack, "back", "text %s in %s %s", s.c_str(), encName(e), got ? got->toString().c_str() : "not parsed");
        // usual text forms
        const auto q = ticks[c.top] / 10000000;
        if (q >= 0 && q < 360000) {
            char buf[64];
            snprintf(buf, sizeof(buf), "%02d:%02d:%02d", int(q / 3600), int(q / 60 % 60), int(q % 60));
            c.check(text(buf, e).toTimeSpan().totalTicks() == q * 10000000, "parse", "%s in %s", buf, encName(e));
        }
    }
    c.check(!attempt([&] { return v.toInteger(); }) && !attempt([&] { return v.toPositionInSet(); }) && !attempt([&] { return v.toStandardGenreIndex(); })
            && !attempt([&] { return v.toDateTime(); }) && !attempt([&] { return v.toPopularity(); }) && !attempt([&] { return v.toUnsignedInteger(); }),
        "other-types", "duration can be converted to something else");
    c.state(static_cast<std::uint64_t>(t.totalTicks()));
}
VT_SUITE(datetimes, dates().size())
{
    static const auto all = dates();
    const auto t = all[c.top];
    TagValue v(t);
    const auto kind = c.choose(3, "kind");
    if (kind == 1) {
        v = text("abc");
        v.assignDateTime(t);
    } else if (kind == 2)
        v = TagValue(static_cast<std::uint64_t>(t.totalTicks()));
    c.step();
    c.check(v.toDateTime() == t, "datetime", "stored date not returned");
    const auto ex = v.toDateTimeExpression();
    c.check(ex.value == t && ex.parts == DateTimeParts::DateTime && ex.delta.isNull(), "expression", "date as expression differs");
    if (kind == 2)
        return;
    const auto s = v.toString();
    c.check(s == t.toIsoString(), "string", "text is %s", s.c_str());
    c.check(v.toDisplayString() == s, "display", "display string differs");
    for (auto e : allEncodings) {
        const auto x = v.toString(e);
        c.check(x == encode(s, e), "string", "text in %s is %s", encName(e), hex(x).c_str());
        if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian)
            c.check(u16bytes(v.toWString(e)) == x, "wstring", "wide text is %s", hex(u16bytes(v.toWString(e))).c_str());
        const TagValue back(x.data(), x.size(), e);
        const auto lib = attempt([&] { return DateTime::fromIsoStringGmt(s.data()); });
        if (lib == t) {
            c.check(back.toDateTime() == t, "back", "text %s in %s gives %s", s.c_str(), encName(e), back.toDateTime().toIsoString().c_str());
            c.check(back.toDateTimeExpression().gmt() == t, "back", "text %s in %s as expression", s.c_str(), encName(e));
        }
        // the other text form the library accepts ("YYYY-MM-DD hh:mm:ss")
        const auto s2 = t.toString(DateTimeOutputFormat::DateAndTime);
        const auto lib2 = attempt([&] { return DateTime::fromString(s2); });
        if (lib2 == t)
            c.check(text(s2, e).toDateTime() == t, "back", "text %s in %s", s2.c_str(), encName(e));
    }
    c.check(!attempt([&] { return v.toInteger(); }) && !attempt([&] { return v.toPositionInSet(); }) && !attempt([&] { return v.toStandardGenreIndex(); })
            && !attempt([&] { return v.toTimeSpan(); }) && !attempt([&] { return v.toPopularity(); }),
        "other-types", "date can be converted to something else");
    c.state(t.totalTicks());
}
VT_SUITE(expressions, dates().size())
{
    static const auto all = dates();
    using P = DateTimeParts;
    static const P parts[] = { P::Year, P::Year | P::Month, P::Year | P::Month | P::Day, P::Year | P::Month | P::Day | P::Hour, P::Year | P::Month | P::Day | P::Hour | P::Minute,
        P::Year | P::Month | P::Day | P::Hour | P::Minute | P::Second, P::DateTime, P::DateTime | P::DeltaHour | P::DeltaMinute };
    static const int deltas[] = { 0, 60, -330, 840 };
    DateTimeExpression x;
    x.value = all[c.top];
    x.parts = c.pick(parts, "parts");
    if (x.parts & P::DeltaHour)
        x.delta = TimeSpan::fromMinutes(static_cast<double>(c.pick(deltas, "delta")));
    TagValue v(x);
    if (c.flip("assign")) {
        v = text("abc");
        v.assignDateTimeExpression(x);
    }
    c.step();
    c.check(v.type() == TagDataType::DateTimeExpression, "type", "type wrong");
    c.check(v.toDateTimeExpression() == x, "expression", "stored expression not returned");
    c.check(v.toDateTime() == x.gmt(), "datetime", "expression as date is %s", v.toDateTime().toIsoString().c_str());
    const auto s = x.toIsoString();
    for (auto e : allEncodings) {
        const auto t = v.toString(e);
        c.check(t == encode(s, e), "string", "text in %s is %s instead of %s", encName(e), hex(t).c_str(), s.c_str());
        if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian)
            c.check(u16bytes(v.toWString(e)) == t, "wstring", "wide text is %s", hex(u16bytes(v.toWString(e))).c_str());
        const TagValue back(t.data(), t.size(), e);
        const auto lib = attempt([&] { return DateTimeExpression::fromIsoString(s.data()); });
        const auto got = attempt([&] { return back.toDateTimeExpression(); });
        if (lib)
            c.check(got == lib, "back", "text %s in %s %s", s.c_str(), encName(e), got ? got->toIsoString().c_str() : "not parsed");
    }
    c.state(vt::hashStr(s));
}

// popularity: text form, storage and scaling (scales as documented: generic 1..5, Matroska 0..5, ID3v2 1..255, Vorbis 20..100)
namespace {
const double ratings[] = { 0.0, 1.0, 2.5, 3.0, 4.5, 5.0, 20.0, 64.5, 100.0, 128.0, 196.0, 254.0, 255.0, -1.0, 0.125 };
const TagType scales[] = { TagType::Unspecified, TagType::MatroskaTag, TagType::Id3v2Tag, TagType::VorbisComment, TagType::OggVorbisComment, TagType::Mp4Tag, TagType::Id3v1Tag };
bool knownScale(TagType t)
{
    return t != TagType::Mp4Tag && t != TagType::Id3v1Tag;
}
double toGeneric(double r, TagType t)
{
    switch (t) {
    case TagType::MatroskaTag:
        return 1.0 + r * 4.0 / 5.0;
    case TagType::Id3v2Tag:
        return r < 1.0 ? 0.0 : 1.0 + (r - 1.0) * 4.0 / 254.0;
    case TagType::VorbisComment:
    case TagType::OggVorbisComment:
        return r / 20.0;
    default:
        return r;
    }
}
double fromGeneric(double r, TagType t)
{
    switch (t) {
    case TagType::MatroskaTag:
        return (r - 1.0) * 5.0 / 4.0;
    case TagType::Id3v2Tag:
        return r < 1.0 ? 0.0 : 1.0 + (r - 1.0) * 254.0 / 4.0;
    case TagType::VorbisComment:
    case TagType::OggVorbisComment:
        return r * 20.0;
    default:
        return r;
    }
}
Bytes ratingText(double r)
{
    std::ostringstream s;
    s << r;
    return s.str();
}
} // namespace
VT_SUITE(popularity, std::size(ratings))
{
    static const Bytes users[] = { "", "a", "some user", "me@example.com", "\xE6\x97\xA5\xC3\xA9", Bytes(200, 'u') };
    static const std::uint64_t counters[] = { 0, 1, 255, 4294967296ull, 18446744073709551615ull };
    Popularity p;
    p.rating = ratings[c.top];
    p.user = c.pick(users, "user");
    p.playCounter = c.pick(counters, "counter");
    p.scale = c.pick(scales, "scale");
    TagValue v(p);
    c.step();
    c.check(v.type() == TagDataType::Popularity, "type", "type wrong");
    c.check(v.toPopularity() == p, "popularity", "stored popularity not returned");
    c.check(p.isEmpty() == (p.user.empty() && p.rating == 0.0 && !p.playCounter), "empty", "isEmpty() wrong");
    const Bytes s = p.isEmpty() ? Bytes() : p.user.empty() && !p.playCounter ? ratingText(p.rating) : p.user + "|" + ratingText(p.rating) + "|" + std::to_string(p.playCounter);
    c.check(p.toString() == s, "string", "text is %s instead of %s", p.toString().c_str(), s.c_str());
    auto expected = p;
    expected.scale = TagType::Unspecified;
    c.check(Popularity::fromString(s) == expected, "back", "text %s gives another popularity", s.c_str());
    c.check(Popularity::fromString(s, p.scale) == p, "back", "text %s gives another popularity", s.c_str());
    for (auto e : { TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian }) {
        const auto t = v.toString(e);
        c.check(t == encode(s, e), "string", "text in %s is %s", encName(e), hex(t).c_str());
        if (e != TagTextEncoding::Utf8)
            c.check(u16bytes(v.toWString(e)) == t, "wstring", "wide text");
        const TagValue back(t.data(), t.size(), e);
        c.check(back.toPopularity() == expected, "back", "text %s in %s", s.c_str(), encName(e));
        for (auto target : scales) {
            auto want = p;
            want.scale = target;
            if (!s.empty())
                c.check(back.toScaledPopularity(target) == want, "text-scaled", "scale not assigned to text");
        }
    }
    for (auto target : scales) {
        const bool possible = p.scale == target || (knownScale(p.scale) && knownScale(target));
        auto q = p;
        const bool ok = q.scaleTo(target);
        c.check(ok == possible, "scalable", "scaleTo() from %d to %d", int(p.scale), int(target));
        c.check(q.user == p.user && q.playCounter == p.playCounter, "scale-other", "scaling alters user or play counter");
        const auto scaled = attempt([&] { return v.toScaledPopularity(target); });
        c.check(scaled.has_value() == possible, "scalable", "toScaledPopularity() from %d to %d", int(p.scale), int(target));
        if (!possible) {
            c.check(q == p, "scale-failed", "failed scaling alters popularity");
            continue;
        }
        const auto want = p.scale == target ? p.rating : fromGeneric(toGeneric(p.rating, p.scale), target);
        c.check(q.scale == target && std::abs(q.rating - want) < 1e-9, "scale", "rating %g of scale %d scaled to %d is %g instead of %g", p.rating, int(p.scale), int(target), q.rating, want);
        c.check(*scaled == q && p.scaled(target) == q, "scale", "ways of scaling differ");
        // there and back (where the target can represent it)
        const auto g = toGeneric(p.rating, p.scale);
        if (g >= 1.0) {
            auto back = q;
            c.check(back.scaleTo(p.scale) && std::abs(back.rating - p.rating) < 1e-9, "scale-back", "rating %g becomes %g", p.rating, back.rating);
        }
    }
    c.state(vt::hashStr(v.data()));
}

// every stored type with data of every size: conversions yield something or throw a conversion error; empty values give defaults
VT_SUITE(sizes, 12)
{
    const auto type = static_cast<TagDataType>(c.top);
    const auto size = c.choose(41, "size");
    const auto fill = c.choose(3, "content");
    const auto e = c.choose(5, "encoding");
    Bytes b = fill == 0 ? Bytes(size, '\0') : fill == 1 ? Bytes(size, '\xFF') : filler(size, 7);
    if (type == TagDataType::Text)
        b = fill == 0 ? Bytes(size, '0') : fill == 1 ? Bytes(size, 'x') : b;
    const TagValue v(b.data(), b.size(), type, static_cast<TagTextEncoding>(e));
    c.step(13);
    const auto n = std::string_view(tagDataTypeString(type));
    const bool empty = v.isEmpty();
    const auto str = attempt([&] { return v.toString(TagTextEncoding::Utf8); });
    const auto ws = attempt([&] { return v.toWString(TagTextEncoding::Utf16LittleEndian); });
    const auto i = attempt([&] { return v.toInteger(); });
    const auto u = attempt([&] { return v.toUnsignedInteger(); });
    const auto p = attempt([&] { return v.toPositionInSet(); });
    const auto g = attempt([&] { return v.toStandardGenreIndex(); });
    const auto t = attempt([&] { return v.toTimeSpan(); });
    const auto d = attempt([&] { return v.toDateTime(); });
    const auto x = attempt([&] { return v.toDateTimeExpression(); });
    const auto pop = attempt([&] { return v.toPopularity(); });
    const auto sp = attempt([&] { return v.toScaledPopularity(TagType::Unspecified); });
    const auto display = v.toDisplayString(); // never throws
    if (empty) {
        c.check(str && str->empty() && ws && ws->empty(), "empty-string", "empty %s as string", n.data());
        c.check(i == 0 && u == 0u && p == PositionInSet() && t == TimeSpan() && d == DateTime() && x == DateTimeExpression() && pop == Popularity() && sp == Popularity(),
            "empty-default", "empty %s converted", n.data());
        c.check(g == Id3Genres::emptyGenreIndex(), "empty-genre", "empty %s as genre", n.data());
        return;
    }
    const bool opaque = type == TagDataType::Picture || type == TagDataType::Binary || type == TagDataType::Undefined;
    if (opaque) {
        c.check(!str && !ws && !i && !u && !p && !g && !t && !d && !x && !pop && !sp, "opaque", "%s converted", n.data());
        c.check(display == n, "display", "display string of %s is %s", n.data(), display.c_str());
    }
    const bool needs4 = type == TagDataType::Integer || type == TagDataType::StandardGenreIndex, needs8 = type == TagDataType::PositionInSet || type == TagDataType::UnsignedInteger;
    if (needs4 || needs8)
        c.check(i.has_value() == (size == (needs4 ? 4u : 8u)) || (type == TagDataType::UnsignedInteger && size == 8 && fill != 0) , "size-integer", "%s of %zu bytes as integer", n.data(), size);
    if (type == TagDataType::DateTimeExpression)
        c.check(x.has_value() == (size == sizeof(DateTimeExpression)), "size-expression", "%zu bytes as expression", size);
    if (type == TagDataType::TimeSpan)
        c.check(t.has_value() == (size == 4 || size == 8), "size-timespan", "%zu bytes as duration", size);
    if (type == TagDataType::DateTime)
        c.check(d.has_value() == (size == 4 || size == 8), "size-datetime", "%zu bytes as date", size);
    c.check(str.has_value() || opaque || display.find("invalid") == 0, "display", "display string of inconvertible %s is %s", n.data(), display.c_str());
    c.state(vt::hashStr(b, c.top * 8 + e));
}

// convertDataEncodingForTag() yields an encoding the tag supports and keeps the text
VT_SUITE(for_tag, 5)
{
    std::unique_ptr<Tag> tag;
    std::set<TagTextEncoding> ok = { TagTextEncoding::Utf8 };
    switch (c.top) {
    case 0: {
        auto t = std::make_unique<Id3v2Tag>();
        const auto minor = 2 + c.choose(3, "version");
        t->setVersion(minor, 0);
        ok = { TagTextEncoding::Latin1, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian }; // with BOM both byte orders are fine
        if (minor == 4)
            ok.insert(TagTextEncoding::Utf8);
        tag = std::move(t);
        break;
    }
    case 1:
        tag = std::make_unique<VorbisComment>();
        break;
    case 2:
        tag = std::make_unique<Mp4Tag>();
        ok.insert(TagTextEncoding::Utf16BigEndian);
        break;
    case 3:
        tag = std::make_unique<MatroskaTag>();
        break;
    default:
        tag = std::make_unique<Id3v1Tag>();
        ok = { TagTextEncoding::Latin1, TagTextEncoding::Utf8 };
    }
    const auto e = c.pick(allEncodings, "encoding");
    const auto s = buildText(c, 1);
    if (!representable(s, e) || (c.top == 4 && !isLatin1(s)))
        c.skip();
    auto v = text(s, e);
    v.convertDataEncodingForTag(tag.get());
    c.step();
    c.check(valueUtf8(v) == s, "for-tag", "text becomes %s", quote(valueUtf8(v)).c_str());
    c.check(tag->canEncodingBeUsed(v.dataEncoding()), "for-tag", "encoding %s not usable", encName(v.dataEncoding()));
    if (tag->canEncodingBeUsed(e))
        c.check(v.dataEncoding() == e, "for-tag", "usable encoding changed");
    if (c.top != 4)
        c.check(ok.count(v.dataEncoding()), "for-tag", "encoding %s not supported by the format", encName(v.dataEncoding()));
    c.state(vt::hashStr(v.data(), c.top));
}
