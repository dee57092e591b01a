// P05: Matroska tags survive being written and read back.
#include "ebml.h"

#include <tagparser/id3/id3genres.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/matroska/matroskatagfield.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P05";
const char *vt::rule = "every field name x stored type x encoding x language x default flag, all trees of up to four nested simple tags, all sequences of up to three fields, every "
                       "target (level x level name x UID lists of all kinds), all lengths around the EBML size steps; the bytes are decoded by an independent EBML decoder and "
                       "parsed back from a file; tags of an independent encoder (element orders, widths, non-minimal sizes, void/CRC/duplicate/missing children) are parsed and "
                       "rewritten; states = distinct written tags";
const char *vt::assumptions = "every value is written as string except binary data (Matroska has no other types)|languages are given as ISO-639-2/B or BCP-47";

namespace {
struct Simple {
    Bytes name, value;
    bool binary = false, def = true;
    Bytes lang = "und", ietf;
    std::vector<Simple> nested;
};
bool operator==(const Simple &a, const Simple &b)
{
    return a.name == b.name && a.value == b.value && a.binary == b.binary && a.def == b.def && a.lang == b.lang && a.ietf == b.ietf && a.nested == b.nested;
}
struct Target {
    std::uint64_t level = 50;
    Bytes levelName;
    std::vector<std::uint64_t> uids[4]; // track, edition, chapter, attachment
};
bool operator==(const Target &a, const Target &b)
{
    return a.level == b.level && a.levelName == b.levelName && a.uids[0] == b.uids[0] && a.uids[1] == b.uids[1] && a.uids[2] == b.uids[2] && a.uids[3] == b.uids[3];
}
struct TagDesc {
    Target target;
    std::vector<Simple> fields;
};
bool operator==(const TagDesc &a, const TagDesc &b)
{
    return a.target == b.target && a.fields == b.fields;
}
Bytes str(const Simple &s, int depth = 0)
{
    Bytes r = quote(s.name, 20) + (s.binary ? "=bin" : "=") + quote(s.value, 30) + "[" + s.lang + "," + s.ietf + "," + (s.def ? "d" : "-") + "]";
    if (!s.nested.empty()) {
        r += "{";
        for (auto &n : s.nested)
            r += str(n, depth + 1) + ";";
        r += "}";
    }
    return r;
}
Bytes str(const TagDesc &t)
{
    Bytes r = fmt("level %llu '%s' ", (unsigned long long)t.target.level, t.target.levelName.substr(0, 20).c_str());
    for (auto &u : t.target.uids) {
        r += "(";
        for (auto v : u)
            r += fmt("%llu,", (unsigned long long)v);
        r += ")";
    }
    for (auto &f : t.fields)
        r += " " + str(f);
    return r;
}
constexpr std::uint64_t uidIds[] = { ebml::TagTrackUID, ebml::TagEditionUID, ebml::TagChapterUID, ebml::TagAttachmentUID };

Simple decodeSimple(Ctx &c, const ebml::Node &n)
{
    Simple s;
    c.check(n.count(ebml::TagName) == 1, "tag-name", "%zu TagName elements", n.count(ebml::TagName));
    s.name = n.s(ebml::TagName);
    c.check(n.count(ebml::TagString) + n.count(ebml::TagBinary) <= 1, "tag-value", "several values");
    s.binary = n.count(ebml::TagBinary);
    s.value = n.s(s.binary ? ebml::TagBinary : ebml::TagString);
    s.lang = n.s(ebml::TagLanguage, "und");
    s.ietf = n.s(ebml::TagLanguageIETF);
    s.def = n.u(ebml::TagDefault, 1) != 0;
    for (auto &k : n.kids)
        switch (k.id) {
        case ebml::SimpleTag:
            s.nested.push_back(decodeSimple(c, k));
            break;
        case ebml::TagName: case ebml::TagString: case ebml::TagBinary: case ebml::TagLanguage: case ebml::TagLanguageIETF: case ebml::TagDefault:
            break;
        default:
            c.fail("tag-child", "unknown child %llX", (unsigned long long)k.id);
        }
    return s;
}
TagDesc decodeTag(Ctx &c, const ebml::Node &n)
{
    TagDesc t;
    c.check(n.id == ebml::Tag, "tag", "not a tag element");
    c.check(n.count(ebml::Targets) == 1 && n.kids[0].id == ebml::Targets, "targets", "Targets element missing or not first");
    const auto &tg = n.kids[0];
    t.target.level = tg.u(ebml::TargetTypeValue, 50);
    t.target.levelName = tg.s(ebml::TargetType);
    for (auto &k : tg.kids)
        for (int i = 0; i < 4; ++i)
            if (k.id == uidIds[i])
                t.target.uids[i].push_back(k.u());
    for (auto &k : n.kids)
        if (k.id == ebml::SimpleTag)
            t.fields.push_back(decodeSimple(c, k));
    return t;
}
// the library's view
Simple libSimple(const MatroskaTagField &f)
{
    Simple s;
    s.name = f.id();
    const auto &v = f.value();
    s.binary = !(v.type() == TagDataType::Text || v.type() == TagDataType::Popularity);
    if (v.type() == TagDataType::Popularity)
        s.value = v.toString(TagTextEncoding::Utf8);
    else if (v.type() == TagDataType::Text)
        s.value = valueUtf8(v);
    else
        s.value = Bytes(v.dataSize() ? v.dataPointer() : "", v.dataSize());
    if (v.isEmpty())
        s.binary = false;
    for (auto &l : v.locale()) {
        if (l.format == LocaleFormat::ISO_639_2_B)
            s.lang = l;
        else if (l.format == LocaleFormat::BCP_47)
            s.ietf = l;
        else
            s.lang += "?" + l;
    }
    s.def = f.isDefault();
    for (auto &n : f.nestedFields())
        s.nested.push_back(libSimple(n));
    return s;
}
TagDesc libTag(const MatroskaTag &tag)
{
    TagDesc t;
    t.target.level = tag.target().level();
    t.target.levelName = tag.target().levelName();
    t.target.uids[0] = tag.target().tracks();
    t.target.uids[1] = tag.target().editions();
    t.target.uids[2] = tag.target().chapters();
    t.target.uids[3] = tag.target().attachments();
    for (auto &[id, f] : tag.fields())
        t.fields.push_back(libSimple(f));
    return t;
}
void sortFields(TagDesc &t) // the library keeps fields sorted by name; the order of equal names must be preserved
{
    std::stable_sort(t.fields.begin(), t.fields.end(), [](auto &a, auto &b) { return a.name < b.name; });
}
Bytes make(Ctx &c, MatroskaTag &tag, Diagnostics &diag)
{
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    s.exceptions(std::ios::failbit | std::ios::badbit);
    try {
        auto maker = tag.prepareMaking(diag);
        const auto want = maker.requiredSize();
        maker.make(s);
        const auto b = s.str();
        c.check(b.size() == want, "required-size", "announced %llu bytes but wrote %zu", (unsigned long long)want, b.size());
        c.step();
        c.state(vt::hashStr(b));
        return b;
    } catch (const std::exception &e) {
        c.fail("exception", "making the tag failed: %s", e.what());
    }
}
struct Parsed {
    std::unique_ptr<MediaFileInfo> file;
    Diagnostics diag;
    std::vector<MatroskaTag *> tags;
};
Parsed parseFile(Ctx &c, const Bytes &tagsContent, bool normalize = false)
{
    const auto path = c.file("t.mka");
    vt::writeFile(path, ebml::header() + ebml::el(ebml::Segment, ebml::el(ebml::Info, ebml::elU(ebml::TimecodeScale, 1000000)) + ebml::el(ebml::Tags, tagsContent)));
    Parsed r;
    r.file = std::make_unique<MediaFileInfo>(path);
    if (normalize)
        r.file->setFileHandlingFlags(r.file->fileHandlingFlags() | MediaFileHandlingFlags::NormalizeKnownTagFieldIds);
    else
        r.file->setFileHandlingFlags(static_cast<MediaFileHandlingFlags>(
            static_cast<std::uint64_t>(r.file->fileHandlingFlags()) & ~static_cast<std::uint64_t>(MediaFileHandlingFlags::NormalizeKnownTagFieldIds)));
    AbortableProgressFeedback progress;
    r.file->open(true);
    r.file->parseContainerFormat(r.diag, progress);
    r.file->parseTags(r.diag, progress);
    c.check(r.file->container() && r.file->containerFormat() == ContainerFormat::Matroska, "container", "file not recognised as Matroska");
    for (auto *t : r.file->tags())
        r.tags.push_back(static_cast<MatroskaTag *>(t));
    c.step();
    return r;
}
// full round-trip of a tag assembled via the library's interface
void roundTrip(Ctx &c, MatroskaTag &tag, TagDesc want)
{
    sortFields(want);
    Diagnostics diag;
    const auto b = make(c, tag, diag);
    const auto nodes = ebml::decode(c, b);
    c.check(nodes.size() == 1, "tag", "%zu top-level elements", nodes.size());
    const auto dec = decodeTag(c, nodes[0]);
    c.check(dec == want, "written", "written: %s; expected: %s; %s", str(dec).c_str(), str(want).c_str(), diagText(diag).c_str());
    auto back = parseFile(c, b);
    c.check(back.tags.size() == 1, "read", "%zu tags read; %s", back.tags.size(), diagText(back.diag).c_str());
    const auto lib = libTag(*back.tags[0]);
    c.check(lib == want, "read", "read: %s; expected: %s", str(lib).c_str(), str(want).c_str());
    c.check(!hasLevel(back.diag, DiagLevel::Warning), "diag", "%s", diagText(back.diag).c_str());
    Diagnostics d2;
    c.check(make(c, *back.tags[0], d2) == b, "stable", "not byte stable when written again");
}
const char *const names[] = { "TITLE", "ARTIST", "RATING", "PART_NUMBER", "x", "lower case", "\xC3\xA9" };
} // namespace

// one field: name x value x language x default flag
VT_SUITE(single, std::size(names))
{
    const Bytes name = names[c.top];
    Simple want;
    want.name = name;
    TagValue v;
    const auto type = c.choose(10, "type");
    switch (type) {
    case 0: case 1: case 2: case 3: {
        const auto e = allEncodings[type];
        static const char *const t[] = { "a", "\xC3\xA9!", "\xE6\x97\xA5x", "\xF0\x9F\x98\x80", "5", "line\nbreak", "a=b", " x " };
        want.value = c.pick(t, "text");
        if (e == TagTextEncoding::Latin1 && !isLatin1(want.value))
            c.skip();
        v = text(want.value, e);
        break;
    }
    case 4: {
        static const int n[] = { 0, 1, -1, 2147483647, -2147483647 };
        const auto x = c.pick(n, "integer");
        v = TagValue(x);
        want.value = fmt("%d", x);
        break;
    }
    case 5: {
        static const std::uint64_t n[] = { 0, 1, 0xFFFFFFFFull, ~0ull };
        const auto x = c.pick(n, "unsigned");
        v = TagValue(x);
        want.value = fmt("%llu", (unsigned long long)x);
        break;
    }
    case 6: {
        const int p = 1 + c.choose(2) * 7, t = c.choose(3) * 9;
        v = TagValue(PositionInSet(p, t));
        want.value = t ? fmt("%d/%d", p, t) : fmt("%d", p);
        break;
    }
    case 7: {
        const auto len = c.choose(4) * 50;
        const auto b = filler(len + 1, 3);
        static const TagDataType dt[] = { TagDataType::Binary, TagDataType::Undefined, TagDataType::Picture };
        v = TagValue(b.data(), b.size(), c.pick(dt, "raw type"));
        want.value = b;
        want.binary = true;
        break;
    }
    case 8: {
        const int g = c.choose(3) * 60;
        v.assignStandardGenreIndex(g);
        want.value = Bytes(Id3Genres::stringFromIndex(g));
        break;
    }
    case 9: {
        static const double n[] = { 1, 5, 2.5, 0.5, 4 };
        Popularity p;
        p.rating = c.pick(n, "rating");
        p.scale = TagType::MatroskaTag;
        v = TagValue(p);
        want.value = p.rating == static_cast<int>(p.rating) ? fmt("%d", static_cast<int>(p.rating)) : fmt("%.1f", p.rating);
        break;
    }
    }
    static const char *const langs[] = { "", "eng", "ger", "de", "klingon" };
    static const char *const ietfs[] = { "", "de-AT", "en" };
    const Bytes lang = c.pick(langs, "language"), ietf = c.pick(ietfs, "BCP-47");
    if (!lang.empty()) {
        v.locale().emplace_back(lang, lang.size() == 3 ? LocaleFormat::ISO_639_2_B : LocaleFormat::Unknown);
        want.lang = lang;
    }
    if (!ietf.empty()) {
        v.locale().emplace_back(ietf, LocaleFormat::BCP_47);
        want.ietf = ietf;
    }
    MatroskaTagField f(name, v);
    want.def = !c.flip("not default");
    f.setDefault(want.def);
    MatroskaTag tag;
    tag.fields().emplace(name, std::move(f));
    TagDesc d;
    d.fields.push_back(want);
    if (name == "RATING") {
        // ratings are read as popularity if they are numbers
        Diagnostics diag;
        const auto b = make(c, tag, diag);
        const auto dec = decodeTag(c, ebml::decode(c, b).at(0));
        c.check(dec == d, "written", "written: %s", str(dec).c_str());
        auto back = parseFile(c, b);
        c.check(back.tags.size() == 1 && back.tags[0]->fields().size() == 1, "read", "rating lost");
        const auto &r = back.tags[0]->fields().begin()->second;
        const bool number = !want.binary && want.value.find_first_not_of("0123456789.-") == Bytes::npos && !want.value.empty();
        if (number && want.value.size() < 7) {
            c.check(r.value().type() == TagDataType::Popularity, "rating", "rating %s not read as popularity: %s", want.value.c_str(), describe(r.value()).c_str());
            c.check(r.value().toPopularity().rating == std::atof(want.value.c_str()) && r.value().toPopularity().scale == TagType::MatroskaTag, "rating", "rating %s read as %s",
                want.value.c_str(), describe(r.value()).c_str());
            c.check(!hasLevel(back.diag, DiagLevel::Warning), "diag", "%s", diagText(back.diag).c_str());
        }
        const auto ls = libSimple(r);
        c.check(ls.lang == want.lang && ls.ietf == want.ietf && ls.def == want.def, "rating", "language or default flag of rating");
        if (number)
            return;
        c.check(ls == want, "read", "read: %s", str(ls).c_str());
        return;
    }
    roundTrip(c, tag, d);
}

// trees of nested simple tags; including values only on some nodes
VT_SUITE(nested, 10)
{
    // parent pointer representation: node i's parent is any previous node or the tag itself
    static const std::size_t sizes[] = { 1, 2, 3, 4, 2, 3, 4, 4, 4, 4 };
    const auto n = sizes[c.top];
    const bool emptyValues = c.top >= 4;
    std::vector<Simple> nodes;
    std::vector<int> parent;
    for (std::size_t i = 0; i < n; ++i) {
        parent.push_back(i == 0 ? -1 : static_cast<int>(c.choose(i + 1, "parent")) - 1);
        Simple s;
        s.name = c.flip("name") ? "SORT_WITH" : "A";
        s.value = fmt("v%zu", i);
        const auto kind = c.choose(n >= 4 && !vt::thorough() && i > 1 ? 1 : 3, "kind");
        if (kind == 1) {
            s.binary = true;
            s.value = filler(5, static_cast<unsigned>(i));
        } else if (kind == 2) {
            s.lang = "fre";
            s.def = false;
        }
        if (emptyValues && i == (c.top - 4) % n) {
            s.value.clear();
            s.binary = false;
        }
        nodes.push_back(s);
    }
    // build both representations bottom-up
    std::vector<MatroskaTagField> fields;
    for (auto &s : nodes) {
        TagValue v = s.value.empty() ? TagValue() : s.binary ? TagValue(s.value.data(), s.value.size(), TagDataType::Binary) : text(s.value);
        if (s.lang != "und")
            v.locale().emplace_back(s.lang, LocaleFormat::ISO_639_2_B);
        fields.emplace_back(s.name, v);
        fields.back().setDefault(s.def);
    }
    for (std::size_t i = n; i-- > 0;)
        if (parent[i] >= 0) {
            nodes[parent[i]].nested.insert(nodes[parent[i]].nested.begin(), nodes[i]);
            fields[parent[i]].nestedFields().insert(fields[parent[i]].nestedFields().begin(), fields[i]);
        }
    MatroskaTag tag;
    TagDesc want;
    for (std::size_t i = 0; i < n; ++i)
        if (parent[i] < 0) {
            if (nodes[i].value.empty() && nodes[i].nested.empty())
                c.skip(); // field without any content is removed
            want.fields.push_back(nodes[i]);
            tag.fields().emplace(nodes[i].name, fields[i]);
        }
    roundTrip(c, tag, want);
}

// sequences of up to three (thorough: four) fields
VT_SUITE(sequences, 8)
{
    static const char *const ns[] = { "A", "B", "TITLE", "a" };
    TagDesc want;
    MatroskaTag tag;
    const auto n = 1 + c.top % (vt::thorough() ? 4 : 3);
    for (std::size_t i = 0; i < n; ++i) {
        Simple s;
        s.name = c.pick(ns, "name");
        s.value = Bytes(1 + c.choose(2, "value"), static_cast<char>('a' + i));
        s.binary = c.flip("binary");
        s.def = !(s.value.size() == 2 && s.binary);
        MatroskaTagField f(s.name, s.binary ? TagValue(s.value.data(), s.value.size(), TagDataType::Undefined) : text(s.value));
        f.setDefault(s.def);
        tag.fields().emplace(s.name, std::move(f));
        want.fields.push_back(s);
    }
    static const std::uint64_t levels[] = { 0, 10, 30, 70 };
    tag.target().setLevel(levels[c.top / 2]);
    want.target.level = levels[c.top / 2] ? levels[c.top / 2] : 50;
    roundTrip(c, tag, want);
}

// all targets
VT_SUITE(targets, 16)
{
    static const std::uint64_t levels[] = { 0, 10, 20, 30, 40, 50, 60, 70, 1, 255, 256, 65535, 65536, 0xFFFFFF, 1ull << 32, ~0ull };
    static const std::vector<std::uint64_t> lists[] = { {}, { 1 }, { 0 }, { 0xFF, 0x100 }, { 0xFFFFFFFFFFFFFFull, 1ull << 56, ~0ull }, { 0x10000, 0x1000000, 1ull << 32, 1ull << 40, 1ull << 48 } };
    static const std::size_t nameLens[] = { 0, 5, 125, 126, 127, 128, 16383 };
    TagDesc want;
    MatroskaTag tag;
    want.target.level = levels[c.top];
    tag.target().setLevel(want.target.level);
    if (!want.target.level)
        want.target.level = 50;
    const auto len = c.pick(nameLens, "level name");
    want.target.levelName = Bytes(len, 'N');
    tag.target().setLevelName(want.target.levelName);
    for (int i = 0; i < 4; ++i)
        want.target.uids[i] = c.pick(lists, "UIDs");
    tag.target().tracks() = want.target.uids[0];
    tag.target().editions() = want.target.uids[1];
    tag.target().chapters() = want.target.uids[2];
    tag.target().attachments() = want.target.uids[3];
    if (!vt::thorough()) { // two dimensions at a time
        int set = (len != 0) + (c.top != 0);
        for (auto &u : want.target.uids)
            set += !u.empty();
        if (set > 3)
            c.skip();
    }
    if (c.flip("with a field")) {
        Simple s;
        s.name = "TITLE";
        s.value = "t";
        s.def = false;
        want.fields.push_back(s);
        tag.setValue(KnownField::Title, text("t"));
    }
    roundTrip(c, tag, want);
}

// lengths around the steps of EBML size denotations, of name, value and enclosing elements
VT_SUITE(lengths, 6)
{
    std::size_t len = 0;
    switch (c.top) {
    case 0:
        len = 60 + c.choose(90, "length");
        break;
    case 1:
        len = 16383 - 60 + c.choose(70, "length");
        break;
    case 2:
        len = 2097151 - 60 + c.choose(vt::thorough() ? 70 : 1, "length");
        break;
    case 3: {
        static const std::size_t l[] = { 125, 126, 127, 128, 16381, 16382, 16383, 16384, 2097150, 2097151, 2097152 };
        len = c.pick(l, "length");
        break;
    }
    case 4:
        len = 1 + c.choose(60, "length");
        break;
    case 5: {
        static const std::size_t l[] = { 2097149, 2097150, 2097151, 2097152, 2097153 };
        len = c.pick(l, "length");
        break;
    }
    }
    const auto which = c.choose(4, "name, string, binary or nested");
    Simple s;
    s.name = which == 0 ? Bytes(len, 'N') : "N";
    Bytes x = filler(len, 3);
    for (auto &ch : x)
        ch = static_cast<char>('A' + static_cast<unsigned char>(ch) % 26);
    s.value = which == 1 || which == 2 ? x : "v";
    s.binary = which == 2;
    s.def = false;
    MatroskaTagField f(s.name, s.binary ? TagValue(s.value.data(), s.value.size(), TagDataType::Binary) : text(s.value));
    if (which == 3) {
        Simple n;
        n.name = "NESTED";
        n.value = x;
        n.def = false;
        s.nested.push_back(n);
        f.nestedFields().emplace_back("NESTED", text(x));
    }
    TagDesc want;
    want.fields.push_back(s);
    MatroskaTag tag;
    tag.fields().emplace(s.name, std::move(f));
    if (c.flip("tail")) {
        Simple t;
        t.name = "ZZ";
        t.value = "last";
        t.def = false;
        want.fields.push_back(t);
        tag.fields().emplace("ZZ", MatroskaTagField("ZZ", text("last")));
    }
    roundTrip(c, tag, want);
}

// tags of other writers
VT_SUITE(foreignFields, 24)
{
    // order of the children of a simple tag = permutation c.top of name, value, language, default flag
    std::vector<int> order{ 0, 1, 2, 3 };
    for (std::size_t i = 0; i < c.top; ++i)
        std::next_permutation(order.begin(), order.end());
    Simple want;
    want.name = c.flip("rating") ? "RATING" : "NAME";
    want.binary = c.choose(2, "binary");
    want.value = want.name == "RATING" && !want.binary ? "4" : "val";
    static const char *const langs[] = { "und", "eng", "" };
    const Bytes lang = c.pick(langs, "language");
    const auto def = c.choose(4, "default flag");
    const int extra = static_cast<int>(c.choose(7, "extra child"));
    const int sizeLen = static_cast<int>(c.choose(vt::thorough() ? 9 : 4, "size length")) * (vt::thorough() ? 1 : 2);
    const auto nested = c.flip("nested");
    want.lang = lang.empty() ? "und" : lang;
    want.def = def != 1;
    Bytes content;
    for (auto o : order)
        switch (o) {
        case 0:
            content += ebml::el(ebml::TagName, want.name, sizeLen);
            break;
        case 1:
            content += ebml::el(want.binary ? ebml::TagBinary : ebml::TagString, want.value, sizeLen);
            break;
        case 2:
            if (!lang.empty())
                content += ebml::el(ebml::TagLanguage, lang, sizeLen);
            break;
        case 3:
            if (def)
                content += def == 3 ? ebml::elU(ebml::TagDefault, 1, 8) : ebml::elU(ebml::TagDefault, def - 1);
            break;
        }
    bool warn = false;
    switch (extra) {
    case 1:
        content = ebml::el(ebml::Crc32, "abcd") + content;
        break;
    case 2:
        content += ebml::voidEl(10);
        break;
    case 3:
        content += ebml::el(0x4FFF, "unknown");
        warn = true;
        break;
    case 4:
        content += ebml::el(ebml::TagName, "SECOND");
        warn = true;
        break;
    case 5:
        content += ebml::el(ebml::TagString, "second");
        warn = true;
        break;
    case 6:
        content += ebml::el(ebml::TagLanguageIETF, "de-AT");
        want.ietf = "de-AT";
        break;
    }
    if (nested) {
        Simple n;
        n.name = "NESTED";
        n.value = "nv";
        want.nested.push_back(n);
        content += ebml::el(ebml::SimpleTag, ebml::el(ebml::TagName, "NESTED") + ebml::el(ebml::TagString, "nv"), sizeLen);
    }
    const Bytes tag = ebml::el(ebml::Tag,
        ebml::el(ebml::Targets, "") + ebml::el(ebml::SimpleTag, content, sizeLen) + ebml::el(ebml::SimpleTag, ebml::el(ebml::TagName, "ZZ") + ebml::el(ebml::TagString, "last")), sizeLen);
    auto back = parseFile(c, tag);
    c.check(back.tags.size() == 1 && back.tags[0]->fields().size() == 2, "read", "fields lost; %s", diagText(back.diag).c_str());
    const auto lib = libTag(*back.tags[0]);
    c.check(lib.fields[0] == want, "read", "read: %s; expected: %s", str(lib.fields[0]).c_str(), str(want).c_str());
    c.check(lib.fields[1].name == "ZZ" && lib.fields[1].value == "last", "read", "following field: %s", str(lib.fields[1]).c_str());
    if (want.name == "RATING" && !want.binary)
        c.check(back.tags[0]->fields().begin()->second.value().type() == TagDataType::Popularity, "rating", "rating not read as popularity");
    if (!(want.name == "RATING" && want.binary))
        c.check(hasLevel(back.diag, DiagLevel::Warning) == warn, "diag", "diagnostics: %s", diagText(back.diag).c_str());
    Diagnostics d2;
    const auto dec = decodeTag(c, ebml::decode(c, make(c, *back.tags[0], d2)).at(0));
    c.check(dec.fields.size() == 2 && dec.fields[0] == want, "rewrite", "rewritten: %s", str(dec).c_str());
}
VT_SUITE(foreignTargets, 9)
{
    // UIDs and levels with every width (0..8 bytes), targets before/after the fields, missing targets, several tags
    const int width = static_cast<int>(c.top);
    static const std::uint64_t vals[] = { 0, 1, 30, 255, 256, 0xFFFFFF, 1ull << 55, ~0ull };
    const auto v = c.pick(vals, "value");
    if ((width < 8 && v >> (8 * width)) || (!width && v))
        c.skip();
    const auto kind = c.choose(6, "element");
    TagDesc want;
    Bytes t;
    const auto u = [&](std::uint64_t id) { return ebml::el(id, BE(v, width)); };
    if (kind < 4) {
        want.target.uids[kind] = { v };
        t = u(uidIds[kind]);
        if (c.flip("second UID")) {
            want.target.uids[kind].push_back(7);
            t += ebml::elU(uidIds[kind], 7);
        }
    } else if (kind == 4) {
        want.target.level = v ? v : 50;
        t = u(ebml::TargetTypeValue);
    } else {
        want.target.levelName = "TRACK";
        want.target.level = v ? v : 50;
        t = ebml::el(ebml::TargetType, "TRACK") + u(ebml::TargetTypeValue);
    }
    Simple s;
    s.name = "A";
    s.value = "b";
    want.fields.push_back(s);
    const Bytes field = ebml::el(ebml::SimpleTag, ebml::el(ebml::TagName, "A") + ebml::el(ebml::TagString, "b"));
    const Bytes targets = ebml::el(ebml::Targets, t);
    const auto pos = c.choose(3, "position of targets");
    const Bytes tag = ebml::el(ebml::Tag, pos == 0 ? targets + field : pos == 1 ? field + targets : field);
    if (pos == 2)
        want.target = Target();
    const auto before = c.choose(2, "other tag before"), after = c.choose(3, "other tag after");
    const Bytes other = ebml::el(ebml::Tag, ebml::el(ebml::Targets, "") + ebml::el(ebml::SimpleTag, ebml::el(ebml::TagName, "O") + ebml::el(ebml::TagString, "o")));
    auto back = parseFile(c, (before ? other : "") + tag + (after == 1 ? other : after == 2 ? ebml::voidEl(20) + other : ""));
    const std::size_t n = 1 + before + (after != 0);
    c.check(back.tags.size() == n, "read", "%zu of %zu tags read", back.tags.size(), n);
    const auto lib = libTag(*back.tags[before]);
    c.check(lib == want, "read", "read: %s; expected: %s", str(lib).c_str(), str(want).c_str());
    for (std::size_t i = 0; i < n; ++i)
        if (i != before)
            c.check(libTag(*back.tags[i]).fields[0].name == "O", "read", "other tag");
    c.check(!hasLevel(back.diag, DiagLevel::Warning), "diag", "%s", diagText(back.diag).c_str());
    Diagnostics d2;
    const auto dec = decodeTag(c, ebml::decode(c, make(c, *back.tags[before], d2)).at(0));
    c.check(dec == want, "rewrite", "rewritten: %s", str(dec).c_str());
}
// normalisation of field names when requested
VT_SUITE(normalize, 2)
{
    static const char *const ns[] = { "title", "Title", "TITLE", "artist", "unknown name", "part_number", "x" };
    static const char *const norm[] = { "TITLE", "TITLE", "TITLE", "ARTIST", "unknown name", "PART_NUMBER", "x" };
    const auto i = c.choose(std::size(ns), "name");
    const Bytes tag = ebml::el(ebml::Tag, ebml::el(ebml::Targets, "") + ebml::el(ebml::SimpleTag, ebml::el(ebml::TagName, ns[i]) + ebml::el(ebml::TagString, "v")));
    auto back = parseFile(c, tag, c.top);
    c.check(back.tags.size() == 1 && back.tags[0]->fields().size() == 1, "read", "field lost");
    const Bytes want = c.top ? norm[i] : ns[i];
    const auto &f = *back.tags[0]->fields().begin();
    c.check(f.first == want && f.second.id() == want && valueUtf8(f.second.value()) == "v", "normalize", "%s read as %s/%s", ns[i], f.first.c_str(), f.second.id().c_str());
}
