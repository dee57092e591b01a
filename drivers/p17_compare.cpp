// P17: Tag value comparison and copying are consistent.
#include "common.h"

#include <tagparser/id3/id3genres.h>
#include <tagparser/positioninset.h>

#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>

#include <optional>

using namespace ref;
using namespace TagParser;
using namespace CppUtilities;

const char *vt::property = "P17";
const char *vt::rule = "all pairs of a universe of values (every data type x encoding x content incl. empty, invalid and differently cased content) and all pairs of meta-data "
                       "combinations compared in both directions with every option; all sequences of copy/move/assign/mutate operations up to the stated depth on three values "
                       "against a shadow model; states = distinct values and shadow states";
const char *vt::assumptions = "positions are compared with integers by their position only (documented by the test suite)|case-insensitivity covers ASCII letters";

namespace {
using F = TagValueComparisionFlags;
struct Content { // what a value means, independent of the library
    TagDataType type;
    Bytes utf8; // meaning as text (valid for text, numbers, positions, genres, popularity)
    Bytes raw;
    int id; // values with the same id are built from the same content
};
struct Item {
    std::string name;
    TagValue value;
    TagDataType type;
    Bytes text; // text form; "\x01" = none
    bool valid = true; // text/typed data is valid
    std::optional<std::int64_t> number; // numeric meaning (position for positions)
    std::optional<std::pair<Bytes, double>> pop;
    TagTextEncoding enc = TagTextEncoding::Latin1;
};
const Bytes noText = "\x01";
Bytes lower(Bytes s)
{
    for (auto &ch : s)
        if (ch >= 'A' && ch <= 'Z')
            ch = static_cast<char>(ch + 32);
    return s;
}
std::optional<std::int64_t> num(const Bytes &s)
{
    if (s.empty() || s.size() > 9)
        return std::nullopt;
    std::size_t i = s[0] == '-';
    if (i == s.size())
        return std::nullopt;
    for (auto k = i; k < s.size(); ++k)
        if (s[k] < '0' || s[k] > '9')
            return std::nullopt;
    return std::stoll(s);
}
const std::vector<Item> &universe()
{
    static const std::vector<Item> items = [] {
        std::vector<Item> r;
        const Bytes texts[] = { "", "a", "A", "b", "ab", "aB", "15", "15/20", "3/4", "Country", "country", "COUNTRY", "2", "\xC3\xA9", "\xC3\x89", "\xCE\xA9", "\xE6\x97\xA5", "\xF0\x9F\x98\x80",
            "\xE4\x85\x81", "\xE4\x85\xA1", "\xE4\x84\xA1", "-7", "-8", "0", "some user|200|0", "Some User|200|0", "200", "Z\xC3\xA9z", "z\xC3\xA9z", "[", "{", "@", "`" };
        for (auto &t : texts)
            for (auto e : allEncodings) {
                if (e == TagTextEncoding::Latin1 && !isLatin1(t))
                    continue;
                Item i{ std::string(encName(e)) + quote(t), ref::text(t, e), TagDataType::Text, t, true, num(t), std::nullopt, e };
                r.push_back(i);
            }
        for (int n : { 0, 2, 3, 15, 200, -7, -8, 255, 1000 }) {
            r.push_back({ "Integer " + std::to_string(n), TagValue(n), TagDataType::Integer, std::to_string(n), true, n, std::nullopt, TagTextEncoding::Latin1 });
            if (n >= 0)
                r.push_back({ "Unsigned " + std::to_string(n), TagValue(static_cast<std::uint64_t>(n)), TagDataType::UnsignedInteger, std::to_string(n), true, n, std::nullopt, TagTextEncoding::Latin1 });
        }
        for (auto [a, b] : { std::pair(15, 20), std::pair(15, 0), std::pair(0, 20), std::pair(3, 4), std::pair(2, 0), std::pair(15, 21) })
            r.push_back({ fmt("Position %d/%d", a, b), TagValue(PositionInSet(a, b)), TagDataType::PositionInSet, (a ? std::to_string(a) : "") + (b ? "/" + std::to_string(b) : ""), true, a, std::nullopt, TagTextEncoding::Latin1 });
        for (int g : { 0, 2, 15, 191, 192, 250, 255, -7 }) {
            TagValue v;
            v.assignStandardGenreIndex(g);
            r.push_back({ "Genre " + std::to_string(g), v, TagDataType::StandardGenreIndex, g == 255 ? Bytes() : g >= 0 && g <= 191 ? Bytes(Id3Genres::stringFromIndex(g)) : noText, g == 255 || (g >= 0 && g <= 191), g, std::nullopt, TagTextEncoding::Latin1 });
        }
        for (std::int64_t t : { 0ll, 15ll, 10000000ll, 36000000000ll })
            r.push_back({ "TimeSpan " + std::to_string(t), TagValue(TimeSpan(t)), TagDataType::TimeSpan, noText, true, std::nullopt, std::nullopt, TagTextEncoding::Latin1 });
        for (int y : { 1, 1970, 2020 }) {
            r.push_back({ "DateTime " + std::to_string(y), TagValue(DateTime::fromDate(y)), TagDataType::DateTime, noText, true, std::nullopt, std::nullopt, TagTextEncoding::Latin1 });
            DateTimeExpression x;
            x.value = DateTime::fromDate(y);
            x.parts = DateTimeParts::Year;
            r.push_back({ "Expression " + std::to_string(y), TagValue(x), TagDataType::DateTimeExpression, noText, true, std::nullopt, std::nullopt, TagTextEncoding::Latin1 });
            x.parts = DateTimeParts::Year | DateTimeParts::Month;
            r.push_back({ "Expression2 " + std::to_string(y), TagValue(x), TagDataType::DateTimeExpression, noText, true, std::nullopt, std::nullopt, TagTextEncoding::Latin1 });
        }
        for (auto &u : { Bytes(), Bytes("some user"), Bytes("Some User"), Bytes("x") })
            for (double rt : { 0.0, 15.0, 200.0 })
                for (auto scale : { TagType::Unspecified, TagType::Id3v2Tag }) {
                    Popularity p;
                    p.user = u;
                    p.rating = rt;
                    p.scale = scale;
                    Item i{ fmt("Popularity %s|%g|%d", u.c_str(), rt, int(scale)), TagValue(p), TagDataType::Popularity, noText, true, std::nullopt, std::nullopt, TagTextEncoding::Latin1 };
                    i.number = static_cast<std::int64_t>(rt);
                    i.pop = std::pair(u + "|" + std::to_string(int(scale)), rt);
                    r.push_back(i);
                }
        for (auto type : { TagDataType::Picture, TagDataType::Binary, TagDataType::Undefined })
            for (auto &b : { Bytes(), Bytes("a"), Bytes("A"), Bytes("15"), Bytes("\0\1\2", 3), Bytes(16, '\0') })
                r.push_back({ std::string(tagDataTypeString(type)) + " " + hex(b), TagValue(b.data(), b.size(), type), type, noText, true, std::nullopt, std::nullopt, TagTextEncoding::Latin1 });
        // data of a size which is not valid for the type
        for (auto type : { TagDataType::Integer, TagDataType::UnsignedInteger, TagDataType::PositionInSet, TagDataType::StandardGenreIndex, TagDataType::TimeSpan, TagDataType::DateTime, TagDataType::DateTimeExpression, TagDataType::Popularity })
            for (auto &b : { Bytes("abc"), Bytes("abd") })
                r.push_back({ std::string(tagDataTypeString(type)) + " invalid " + b, TagValue(b.data(), b.size(), type), type, noText, false, std::nullopt, std::nullopt, TagTextEncoding::Latin1 });
        // typed values without data and invalid UTF-16
        for (auto type : { TagDataType::Integer, TagDataType::UnsignedInteger, TagDataType::PositionInSet, TagDataType::StandardGenreIndex, TagDataType::TimeSpan, TagDataType::DateTime, TagDataType::DateTimeExpression, TagDataType::Popularity })
            r.push_back({ std::string(tagDataTypeString(type)) + " empty", TagValue("", std::size_t(0), type), type, noText, false, std::nullopt, std::nullopt, TagTextEncoding::Latin1 });
        for (auto e : { TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian, TagTextEncoding::Utf8 }) {
            const Bytes lone = e == TagTextEncoding::Utf8 ? Bytes("a\xFF") : e == TagTextEncoding::Utf16LittleEndian ? Bytes("\x00\xD8", 2) : Bytes("\xD8\x00", 2);
            r.push_back({ std::string("invalid ") + encName(e), TagValue(lone.data(), lone.size(), e), TagDataType::Text, noText, false, std::nullopt, std::nullopt, e });
            r.push_back({ std::string("odd ") + encName(e), TagValue("abc", std::size_t(3), e), TagDataType::Text, e == TagTextEncoding::Utf8 ? Bytes("abc") : noText, e == TagTextEncoding::Utf8, std::nullopt, std::nullopt, e });
        }
        return r;
    }();
    return items;
}
const F optionSets[] = { F::None, F::CaseInsensitive, F::IgnoreMetaData, F::CaseInsensitive | F::IgnoreMetaData };
bool isNumberType(TagDataType t)
{
    return t == TagDataType::Integer || t == TagDataType::UnsignedInteger;
}
// what comparing two values without meta-data has to yield; nullopt = only the general laws are judged
std::optional<bool> expected(const Item &a, const Item &b, bool ci)
{
    if (!a.valid || !b.valid)
        return a.type == b.type && a.enc == b.enc && a.value.data() == b.value.data() ? std::optional(true) : std::nullopt;
    if (a.type == b.type) {
        switch (a.type) {
        case TagDataType::Text:
            return ci ? lower(a.text) == lower(b.text) : a.text == b.text;
        case TagDataType::Popularity:
            return a.pop->second == b.pop->second && (ci ? lower(a.pop->first) == lower(b.pop->first) : a.pop->first == b.pop->first);
        default:
            return a.value.data() == b.value.data(); // all other types have a canonical representation
        }
    }
    const auto opaque = [](TagDataType t) {
        return t == TagDataType::TimeSpan || t == TagDataType::DateTime || t == TagDataType::DateTimeExpression || t == TagDataType::Picture || t == TagDataType::Binary || t == TagDataType::Undefined;
    };
    if (opaque(a.type) || opaque(b.type))
        return false;
    if (isNumberType(a.type) || isNumberType(b.type)) {
        const auto &n = isNumberType(a.type) ? a : b, &o = isNumberType(a.type) ? b : a;
        if (o.type == TagDataType::Text)
            return num(o.text) ? std::optional(*num(o.text) == *n.number) : std::optional(false);
        if (o.type == TagDataType::Integer || o.type == TagDataType::UnsignedInteger || o.type == TagDataType::PositionInSet)
            return *n.number == *o.number;
        return std::nullopt; // genre index/popularity vs number: not documented
    }
    if (a.type == TagDataType::Popularity || b.type == TagDataType::Popularity) {
        const auto &p = a.type == TagDataType::Popularity ? a : b, &o = a.type == TagDataType::Popularity ? b : a;
        if (o.type != TagDataType::Text)
            return false;
        if (o.text.empty())
            return std::nullopt;
        const auto at = p.pop->first.rfind('|');
        const auto user = p.pop->first.substr(0, at), scale = p.pop->first.substr(at + 1);
        std::ostringstream s;
        s << p.pop->second;
        const auto form = user.empty() ? s.str() : user + "|" + s.str() + "|0";
        if (scale != "0" && scale != std::to_string(static_cast<int>(TagType::Unspecified)))
            return false;
        if (form == o.text || (ci && lower(form) == lower(o.text)))
            return true;
        return std::nullopt;
    }
    return ci ? lower(a.text) == lower(b.text) : a.text == b.text;
}
} // namespace

VT_SUITE(pairs, universe().size())
{
    const auto &a = universe()[c.top];
    const auto &b = universe()[c.choose(universe().size(), "other")];
    c.step(4);
    bool res[4];
    for (int i = 0; i < 4; ++i) {
        const auto o = optionSets[i];
        res[i] = a.value.compareTo(b.value, o);
        const auto back = b.value.compareTo(a.value, o);
        c.check(res[i] == back, "symmetry", "%s == %s is %d but the other way around it is %d (options %d)", a.name.c_str(), b.name.c_str(), res[i], back, i);
        if (&a == &b)
            c.check(res[i], "reflexivity", "%s does not equal itself (options %d)", a.name.c_str(), i);
        const auto copy = a.value;
        c.check(copy.compareTo(a.value, o), "copy-equal", "copy of %s does not equal it (options %d)", a.name.c_str(), i);
        c.check(copy.compareTo(b.value, o) == res[i], "copy-compare", "copy of %s compares differently with %s", a.name.c_str(), b.name.c_str());
        const auto want = expected(a, b, i & 1);
        if (want)
            c.check(res[i] == *want, "equality", "%s == %s is %d (options %d)", a.name.c_str(), b.name.c_str(), res[i], i);
    }
    c.check(res[0] == (a.value == b.value) && res[0] != (a.value != b.value), "operators", "operators differ from compareTo()");
    c.check(!res[0] || (res[1] && res[2] && res[3]), "implication", "%s and %s are equal but not so case-insensitively/without meta-data", a.name.c_str(), b.name.c_str());
    c.check(!res[1] || res[3], "implication", "ignoring meta-data turns equal values unequal");
    c.check(res[0] == res[2] && res[1] == res[3], "no-metadata", "there is no meta-data but ignoring it makes a difference: %s %s", a.name.c_str(), b.name.c_str());
    c.check(a.value.compareData(b.value) == (a.value.data() == b.value.data()), "raw", "compareData() of %s and %s", a.name.c_str(), b.name.c_str());
    c.check(a.value.compareData(b.value, true) == (lower(Bytes(a.value.data())) == lower(Bytes(b.value.data()))), "raw", "compareData() of %s and %s ignoring case", a.name.c_str(), b.name.c_str());
    c.state(vt::mix(c.top, vt::hashStr(b.name)));
}

// equality of text values is transitive, whatever the encodings are
VT_SUITE(transitivity, universe().size())
{
    const auto &a = universe()[c.top];
    if (a.type != TagDataType::Text || !a.valid)
        c.skip();
    const auto o = c.pick(optionSets);
    for (auto &b : universe()) {
        if (b.type != TagDataType::Text || !b.valid || !a.value.compareTo(b.value, o))
            continue;
        for (auto &d : universe())
            if (d.type == TagDataType::Text && d.valid)
                c.check(b.value.compareTo(d.value, o) == a.value.compareTo(d.value, o), "transitivity", "%s equals %s but they compare differently with %s", a.name.c_str(),
                    b.name.c_str(), d.name.c_str());
        c.step();
    }
    c.state(c.top);
}

// meta-data
namespace {
struct Meta {
    std::pair<Bytes, TagTextEncoding> desc;
    Bytes mime, locale;
    bool readOnly;
};
std::vector<Meta> metas()
{
    std::vector<Meta> r;
    const Bytes descs[] = { "", "d", "D", "\xC3\xA9", "\xE4\x85\x81", "\xE4\x85\xA1" };
    for (auto &d : descs)
        for (auto e : allEncodings) {
            if (e == TagTextEncoding::Latin1 && !isLatin1(d))
                continue;
            r.push_back({ { d, e }, "", "", false });
        }
    for (auto &m : { Bytes(), Bytes("image/png"), Bytes("IMAGE/png") })
        for (auto &l : { Bytes(), Bytes("eng"), Bytes("ENG") })
            for (bool ro : { false, true })
                r.push_back({ { "d", TagTextEncoding::Utf8 }, m, l, ro });
    return r;
}
void apply(TagValue &v, const Meta &m)
{
    v.setDescription(encode(m.desc.first, m.desc.second), m.desc.second);
    v.setMimeType(m.mime);
    if (!m.locale.empty())
        v.setLocale(Locale(std::string_view(m.locale), LocaleFormat::ISO_639_2_T));
    v.setReadonly(m.readOnly);
}
} // namespace
VT_SUITE(metadata, metas().size() * 3)
{
    static const auto all = metas();
    const auto &a = all[c.top % all.size()];
    const auto &b = c.pickFrom(all, "other");
    TagValue contents[] = { ref::text("x"), TagValue(5), TagValue("bin", std::size_t(3), TagDataType::Picture) };
    TagValue x = contents[c.top / all.size()], y = x;
    apply(x, a);
    apply(y, b);
    c.step();
    for (int i = 0; i < 4; ++i) {
        bool want = true;
        if (!(i & 2)) {
            want = a.mime == b.mime && a.locale == b.locale && a.readOnly == b.readOnly && (i & 1 ? lower(a.desc.first) == lower(b.desc.first) : a.desc.first == b.desc.first);
        }
        const auto name = fmt("desc %s/%s mime %s locale %s ro %d vs desc %s/%s mime %s locale %s ro %d (options %d)", quote(a.desc.first).c_str(), encName(a.desc.second), a.mime.c_str(),
            a.locale.c_str(), a.readOnly, quote(b.desc.first).c_str(), encName(b.desc.second), b.mime.c_str(), b.locale.c_str(), b.readOnly, i);
        c.check(x.compareTo(y, optionSets[i]) == want, "metadata", "comparison yields %d: %s", !want, name.c_str());
        c.check(y.compareTo(x, optionSets[i]) == want, "metadata", "reverse comparison yields %d: %s", !want, name.c_str());
    }
    // descriptions which are not valid in their encoding: still reflexive, never an exception
    y = x;
    y.setDescription(std::string_view("a\xFF\xD8", 3), TagTextEncoding::Utf16LittleEndian);
    c.check(y == y && TagValue(y) == y, "invalid-description", "value with invalid description does not equal itself");
    c.check(!(x == y) && !(y == x), "invalid-description", "value with invalid description equals another one");
    c.check(!x.compareTo(y, F::CaseInsensitive) && x.compareTo(y, F::IgnoreMetaData), "invalid-description", "value with invalid description compared with options");
    c.state(vt::mix(c.top, c.choices[0]));
}

// copying and moving: sequences of operations on three values against a shadow model
namespace {
struct Shadow {
    bool known = true; // false: moved from, only data must be consistent
    Bytes data;
    TagDataType type = TagDataType::Undefined;
    TagTextEncoding enc = TagTextEncoding::Latin1;
    Bytes desc;
    TagTextEncoding descEnc = TagTextEncoding::Latin1;
    Bytes mime, locale;
    bool ro = false;
    Bytes native;
    bool null = true;
};
void verify(Ctx &c, const TagValue &v, const Shadow &s, int slot, const char *op)
{
    const auto w = fmt("slot %d after %s", slot, op);
    if (!s.known) {
        // valid but unspecified: the value can be inspected without reading garbage
        c.check(v.dataSize() == 0 || v.dataPointer(), "moved-from", "%s: size %zu without data", w.c_str(), v.dataSize());
        c.check(v.isEmpty() == (v.dataSize() == 0), "moved-from", "%s: isEmpty() inconsistent", w.c_str());
        return;
    }
    c.check(v.data() == s.data && v.dataSize() == s.data.size(), "content", "%s: data is %s instead of %s", w.c_str(), hex(v.data()).c_str(), hex(s.data).c_str());
    c.check(v.type() == s.type, "content", "%s: type is %s instead of %s", w.c_str(), tagDataTypeString(v.type()).data(), tagDataTypeString(s.type).data());
    c.check(v.dataEncoding() == s.enc, "content", "%s: encoding is %s instead of %s", w.c_str(), encName(v.dataEncoding()), encName(s.enc));
    c.check(v.description() == s.desc, "description", "%s: description is %s instead of %s", w.c_str(), quote(v.description()).c_str(), quote(s.desc).c_str());
    c.check(v.descriptionEncoding() == s.descEnc, "description", "%s: description encoding is %s instead of %s", w.c_str(), encName(v.descriptionEncoding()), encName(s.descEnc));
    c.check(v.mimeType() == s.mime, "mime", "%s: MIME type is %s instead of %s", w.c_str(), v.mimeType().c_str(), s.mime.c_str());
    c.check((v.locale().empty() ? Bytes() : Bytes(v.locale().front())) == s.locale, "locale", "%s: locale differs", w.c_str());
    c.check(v.isLabeledAsReadonly() == s.ro && v.flags() == (s.ro ? TagValueFlags::ReadOnly : TagValueFlags::None), "flags", "%s: flags differ", w.c_str());
    c.check((v.nativeData().empty() ? Bytes() : v.nativeData().begin()->second) == s.native, "native", "%s: native data differs", w.c_str());
    c.check(v.isEmpty() == s.data.empty() && static_cast<bool>(v) == !s.data.empty(), "empty", "%s: isEmpty() is %d", w.c_str(), v.isEmpty());
}
} // namespace
VT_SUITE(operations, 12 * 12)
{
    TagValue v[3];
    Shadow s[3];
    const int depth = vt::thorough() ? 7 : 5;
    const auto set = [&](int i, int what) {
        auto &x = v[i];
        auto &m = s[i];
        const auto data = [&](const Bytes &b, TagDataType t, TagTextEncoding e) {
            m.data = b;
            m.type = t;
            m.enc = e;
        };
        const int n = 7;
        const std::uint64_t big = 77;
        if (!m.known) { // assigning to a moved-from value must work; bring it into a known state first
            x.clearDataAndMetadata();
            x.nativeData().clear();
            m = Shadow();
        }
        switch (what) {
        case 0:
            x.assignText(std::string_view("text"), TagTextEncoding::Utf8);
            data("text", TagDataType::Text, TagTextEncoding::Utf8);
            return "assignText";
        case 1:
            x.assignInteger(n);
            data(Bytes(reinterpret_cast<const char *>(&n), 4), TagDataType::Integer, TagTextEncoding::Latin1);
            return "assignInteger";
        case 2:
            x.assignData("0123456789", 10, TagDataType::Picture, TagTextEncoding::Utf8);
            data("0123456789", TagDataType::Picture, TagTextEncoding::Utf8);
            return "assignData";
        case 3:
            x.setDescription("desc", TagTextEncoding::Utf8);
            x.setMimeType("image/x");
            x.setLocale(Locale(std::string_view("eng"), LocaleFormat::ISO_639_2_T));
            x.setReadonly(true);
            x.nativeData()["k"] = "v";
            m.desc = "desc";
            m.descEnc = TagTextEncoding::Utf8;
            m.mime = "image/x";
            m.locale = "eng";
            m.ro = true;
            m.native = "v";
            return "set meta-data";
        case 4:
            x.clearData();
            m.data.clear();
            return "clearData";
        case 5:
            x.clearMetadata();
            m.desc.clear();
            m.mime.clear();
            m.locale.clear();
            m.ro = false;
            m.enc = m.descEnc = TagTextEncoding::Latin1;
            m.type = TagDataType::Undefined;
            return "clearMetadata";
        default:
            x.assignUnsignedInteger(big);
            data(Bytes(reinterpret_cast<const char *>(&big), 8), TagDataType::UnsignedInteger, TagTextEncoding::Latin1);
            return "assignUnsignedInteger";
        }
    };
    const auto one = [&](std::size_t code) -> const char * {
        if (code < 7)
            return set(0, static_cast<int>(code));
        switch (code) {
        case 7: // copy construction
            v[1].~TagValue();
            new (&v[1]) TagValue(v[0]);
            s[1] = s[0];
            return "copy construction 1<-0";
        case 8: // copy assignment
            v[2] = v[0];
            s[2] = s[0];
            return "copy assignment 2<-0";
        case 9: { // move assignment
            v[0] = std::move(v[2]);
            s[0] = s[2];
            s[2].known = false;
            return "move assignment 0<-2";
        }
        case 10: { // move construction
            v[0].~TagValue();
            new (&v[0]) TagValue(std::move(v[1]));
            s[0] = s[1];
            s[1].known = false;
            return "move construction 0<-1";
        }
        default: { // self assignment
            auto &alias = v[0];
            v[0] = alias;
            std::swap(v[1], v[2]);
            std::swap(s[1], s[2]);
            return "self assignment 0, swap 1 2";
        }
        }
    };
    for (int k = 0; k < depth; ++k) {
        const auto code = k == 0 ? c.top % 12 : k == 1 ? c.top / 12 : c.choose(12, "operation");
        const auto op = one(code);
        c.log("%s\n", op);
        c.step();
        std::uint64_t h = 0;
        for (int i = 0; i < 3; ++i) {
            verify(c, v[i], s[i], i, op);
            h = vt::mix(h, vt::hashStr(s[i].data + s[i].desc + s[i].native, static_cast<int>(s[i].type) * 8 + s[i].known * 2 + s[i].ro));
        }
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                if (s[i].known && s[j].known) {
                    auto &a = s[i], &b = s[j];
                    const bool same = a.data == b.data && a.type == b.type && a.desc == b.desc && a.mime == b.mime && a.locale == b.locale && a.ro == b.ro;
                    if (same)
                        c.check(v[i] == v[j], "equal", "slots %d and %d have the same content but are not equal", i, j);
                    else if (a.desc != b.desc || a.mime != b.mime || a.locale != b.locale || a.ro != b.ro)
                        c.check(v[i] != v[j], "equal", "slots %d and %d differ in meta-data but are equal", i, j);
                }
        c.state(h);
    }
}

// every constructor initialises everything; the copy of each value of the universe is independent of its source
VT_SUITE(constructors, 14)
{
    alignas(TagValue) unsigned char mem[sizeof(TagValue)];
    memset(mem, c.choose(2, "memory") ? 0xA5 : 0x00, sizeof(mem));
    TagValue *v = nullptr;
    Shadow s;
    const int n = 5;
    const std::uint64_t u = 6;
    const PositionInSet p(3, 4);
    const TimeSpan ts(7);
    const DateTime dt(8);
    switch (c.top) {
    case 0: v = new (mem) TagValue(); break;
    case 1: v = new (mem) TagValue("ab", std::size_t(2), TagTextEncoding::Utf8); s.data = "ab"; s.type = TagDataType::Text; s.enc = TagTextEncoding::Utf8; break;
    case 2: v = new (mem) TagValue("ab", TagTextEncoding::Utf8); s.data = "ab"; s.type = TagDataType::Text; s.enc = TagTextEncoding::Utf8; break;
    case 3: v = new (mem) TagValue(std::string("ab"), TagTextEncoding::Utf8); s.data = "ab"; s.type = TagDataType::Text; s.enc = TagTextEncoding::Utf8; break;
    case 4: v = new (mem) TagValue(std::string_view("ab"), TagTextEncoding::Utf8, TagTextEncoding::Utf16BigEndian); s.data = Bytes("\0a\0b", 4); s.type = TagDataType::Text; s.enc = TagTextEncoding::Utf16BigEndian; break;
    case 5: v = new (mem) TagValue(n); s.data = Bytes(reinterpret_cast<const char *>(&n), 4); s.type = TagDataType::Integer; break;
    case 6: v = new (mem) TagValue(u); s.data = Bytes(reinterpret_cast<const char *>(&u), 8); s.type = TagDataType::UnsignedInteger; break;
    case 7: v = new (mem) TagValue("abc", std::size_t(3), TagDataType::Binary, TagTextEncoding::Utf8); s.data = "abc"; s.type = TagDataType::Binary; s.enc = TagTextEncoding::Utf8; break;
    case 8: {
        auto d = std::make_unique<char[]>(3);
        memcpy(d.get(), "xyz", 3);
        v = new (mem) TagValue(std::move(d), 3, TagDataType::Picture);
        s.data = "xyz";
        s.type = TagDataType::Picture;
        break;
    }
    case 9: v = new (mem) TagValue(p); s.data = Bytes(reinterpret_cast<const char *>(&p), sizeof(p)); s.type = TagDataType::PositionInSet; break;
    case 10: v = new (mem) TagValue(ts); s.data = Bytes(reinterpret_cast<const char *>(&ts), sizeof(ts)); s.type = TagDataType::TimeSpan; break;
    case 11: v = new (mem) TagValue(dt); s.data = Bytes(reinterpret_cast<const char *>(&dt), sizeof(dt)); s.type = TagDataType::DateTime; break;
    case 12: v = new (mem) TagValue(std::string()); s.type = TagDataType::Text; break;
    default: v = new (mem) TagValue("", std::size_t(0), TagDataType::Binary); s.type = TagDataType::Binary;
    }
    c.step();
    verify(c, *v, s, 0, "construction");
    TagValue copy(*v);
    v->assignText(std::string_view("something else"), TagTextEncoding::Utf8);
    v->setDescription("q");
    v->nativeData()["a"] = "b";
    verify(c, copy, s, 1, "change of the source");
    TagValue moved(std::move(copy));
    verify(c, moved, s, 2, "move");
    copy.assignData("0123456789", 10, TagDataType::Binary);
    c.check(copy.data() == "0123456789", "moved-from", "assigning data to a moved-from value fails");
    v->~TagValue();
    c.state(c.top);
}
VT_SUITE(copies, universe().size())
{
    static const auto all = metas();
    const auto &i = universe()[c.top];
    const auto &m = c.pickFrom(all, "meta-data");
    TagValue a = i.value;
    apply(a, m);
    a.nativeData()["key"] = "value";
    TagValue b(a), d;
    d = a;
    const Bytes raw(a.data());
    for (auto *x : { &b, &d }) {
        c.check(x->data() == raw && x->type() == a.type() && x->dataEncoding() == a.dataEncoding() && x->description() == a.description() && x->descriptionEncoding() == a.descriptionEncoding()
                && x->mimeType() == a.mimeType() && x->locale() == a.locale() && x->flags() == a.flags() && x->nativeData() == a.nativeData() && x->isEmpty() == a.isEmpty(),
            "copy", "copy of %s differs", i.name.c_str());
        c.check(*x == a && a == *x, "copy", "copy of %s is not equal", i.name.c_str());
        c.check(raw.empty() || x->dataPointer() != a.dataPointer(), "copy", "copy of %s shares its data", i.name.c_str());
    }
    const auto before = a.compareTo(i.value, F::IgnoreMetaData);
    c.check(before, "copy", "meta-data alters content of %s", i.name.c_str());
    if (!raw.empty())
        b.dataPointer()[0] ^= 1;
    c.check(a.data() == raw, "copy", "changing the copy of %s changes the original", i.name.c_str());
    TagValue e(std::move(d));
    c.check(e == a && e.data() == raw && e.nativeData() == a.nativeData() && e.flags() == a.flags(), "move", "moved %s differs", i.name.c_str());
    c.step(3);
    c.state(vt::mix(c.top, c.choices[0]));
}
