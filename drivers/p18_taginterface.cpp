// P18: Tag fields behave the same through every tag format's interface.
#include "common.h"
#include "ebml.h"

#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2frameids.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/ogg/oggcontainer.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/vorbis/vorbiscommentfield.h>

#include <memory>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P18";
const char *vt::rule = "for every tag class and every known field all operation sequences (set/set several/remove through the generic and the native interface, clearing, merging of tags of "
                       "the same and of another format with and without overwriting) up to the stated depth from every initial state, compared after each operation with an ordered "
                       "multi-value map (all fields, not only the changed one), and written and read back; states = distinct (class, field, values)";
const char *vt::assumptions = "the vendor string of Vorbis comments is not a field|the alternative MP4 fields for genre and record label are merged with tags of the same format as distinct fields|Performers and Actor share one Matroska field|after the first of several values has been removed the "
                              "next value set may take its place or replace the new first value";

namespace {
using Values = std::vector<Bytes>;
enum Kind { V1, V22, V23, V24, M4, Vorbis, OggVorbis, Mkv, KindCount };
const char *const kindName[] = { "ID3v1", "ID3v2.2", "ID3v2.3", "ID3v2.4", "MP4", "Vorbis comment", "Ogg Vorbis comment", "Matroska" };
std::unique_ptr<Tag> make(Kind k)
{
    switch (k) {
    case V1: return std::make_unique<Id3v1Tag>();
    case V22:
    case V23:
    case V24: {
        auto t = std::make_unique<Id3v2Tag>();
        t->setVersion(static_cast<std::uint8_t>(2 + (k - V22)), 0);
        return t;
    }
    case M4: return std::make_unique<Mp4Tag>();
    case Vorbis: return std::make_unique<VorbisComment>();
    case OggVorbis: return std::make_unique<OggVorbisComment>();
    default: return std::make_unique<MatroskaTag>();
    }
}
// runs a functor with the concrete type of a field map based tag
template <class F> auto native(Kind k, Tag &t, F f)
{
    switch (k) {
    case V22:
    case V23:
    case V24: return f(static_cast<Id3v2Tag &>(t));
    case M4: return f(static_cast<Mp4Tag &>(t));
    case Vorbis:
    case OggVorbis: return f(static_cast<VorbisComment &>(t));
    default: return f(static_cast<MatroskaTag &>(t));
    }
}
TagValue txt(const Bytes &s)
{
    return s.empty() ? TagValue() : TagValue(s, TagTextEncoding::Utf8);
}
std::vector<TagValue> txts(const Values &v)
{
    std::vector<TagValue> r;
    for (auto &s : v)
        r.push_back(txt(s));
    return r;
}
Values observe(const Tag &t, KnownField f)
{
    Values r;
    for (auto *v : t.values(f))
        r.push_back(v->toString(TagTextEncoding::Utf8));
    return r;
}
Bytes str(const Values &v)
{
    Bytes r = "[";
    for (auto &s : v)
        r += (r.size() > 1 ? ", " : "") + s;
    return r + "]";
}
bool isSupported(Kind k, KnownField f)
{
    return make(k)->supportsField(f);
}
// whether two fields share one native field
bool alias(Kind k, KnownField a, KnownField b)
{
    if (a == b)
        return true;
    if (k == V1)
        return false;
    auto t = make(k);
    return native(k, *t, [&](auto &n) { return n.fieldId(a) == n.fieldId(b) && n.supportsField(a) && n.supportsField(b) && n.fieldId(a) != std::decay_t<decltype(n.fieldId(a))>(); });
}
bool special(Kind k, KnownField f) // native fields do not correspond one to one
{
    return k == V1 || (k == M4 && (f == KnownField::Genre || f == KnownField::RecordLabel || f == KnownField::EncoderSettings));
}
const KnownField first = firstKnownField;
const std::size_t fieldCount = static_cast<std::size_t>(lastKnownField) - static_cast<std::size_t>(firstKnownField) + 1;
KnownField field(std::size_t i)
{
    return static_cast<KnownField>(static_cast<std::size_t>(first) + i);
}
// all lists (with "" for places of removed values) the tag might hold according to the documentation
struct Model {
    std::set<Values> may{ Values() };
    static Values visible(const Values &v)
    {
        Values r;
        for (auto &s : v)
            if (!s.empty())
                r.push_back(s);
        return r;
    }
    void assign(const Values &v)
    {
        may = { visible(v), v };
    }
    void set(const Bytes &v)
    {
        std::set<Values> next;
        for (auto l : may) {
            std::size_t i = 0;
            while (i < l.size() && l[i].empty())
                ++i;
            for (auto at : { std::size_t(0), i }) {
                auto n = l;
                if (at < n.size())
                    n[at] = v;
                else if (!v.empty())
                    n.push_back(v);
                next.insert(n);
            }
            if (v.empty() && i < l.size()) { // the place does not need to be kept
                auto n = l;
                n.erase(n.begin() + static_cast<std::ptrdiff_t>(i));
                next.insert(n);
            }
        }
        may = next;
    }
    bool observe(const Values &v)
    {
        for (auto i = may.begin(); i != may.end();)
            if (visible(*i) != v)
                i = may.erase(i);
            else
                ++i;
        return !may.empty();
    }
    Values current() const
    {
        return visible(*may.begin());
    }
};
// whether a field takes arbitrary text and keeps it when written
bool plainText(Kind k, KnownField f)
{
    auto t = make(k);
    if (t->proposedDataType(f) != TagDataType::Text)
        return false;
    switch (f) {
    case KnownField::Genre:
    case KnownField::Cover:
    case KnownField::RecordDate:
    case KnownField::Language:
    case KnownField::SynchronizedLyrics:
        return false;
    case KnownField::MediaType:
    case KnownField::ContentRating:
        return k != M4;
    default:;
    }
    if (k == V22 || k == V23 || k == V24) {
        return Id3v2FrameIds::isTextFrame(static_cast<Id3v2Tag &>(*t).fieldId(f));
    }
    return true;
}
struct Readable {
    MediaFileInfo info;
    std::stringstream stream{ std::ios_base::in | std::ios_base::out | std::ios_base::binary };
};
void roundTrip(Ctx &c, Kind k, Tag &t, KnownField f, const Values &expected, KnownField g, const Values &expectedG)
{
    Diagnostics diag;
    std::unique_ptr<Tag> r = make(k);
    Readable in;
    if (expected.empty() && expectedG.empty())
        return;
    switch (k) {
    case V24: {
        static_cast<Id3v2Tag &>(t).make(in.stream, 0, diag);
        static_cast<Id3v2Tag &>(*r).parse(in.stream, in.stream.str().size(), diag);
        break;
    }
    case Vorbis: {
        static_cast<VorbisComment &>(t).make(in.stream, VorbisCommentFlags::NoSignature, diag);
        static_cast<VorbisComment &>(*r).parse(in.stream, in.stream.str().size(), VorbisCommentFlags::NoSignature, diag);
        break;
    }
    case Mkv: {
        static_cast<MatroskaTag &>(t).make(in.stream, diag);
        in.info.reportSizeChanged(in.stream.str().size());
        MatroskaContainer container(in.info, 0);
        container.setStream(in.stream);
        EbmlElement e(container, 0);
        e.parse(diag);
        static_cast<MatroskaTag &>(*r).parse(e, diag);
        break;
    }
    case M4: {
        static_cast<Mp4Tag &>(t).make(in.stream, diag);
        const auto content = in.stream.str();
        // "meta" is only recognised as full atom within "udta"
        in.stream.str(BE(content.size() + 8, 4) + "udta" + content);
        in.info.reportSizeChanged(content.size() + 8);
        Mp4Container container(in.info, 0);
        container.setStream(in.stream);
        Mp4Atom e(container, 0);
        e.parse(diag);
        auto *meta = e.childById(Mp4AtomIds::Meta, diag);
        c.check(meta, "written", "written tag has no \"meta\" atom");
        static_cast<Mp4Tag &>(*r).parse(*meta, diag);
        break;
    }
    default: return;
    }
    c.check(observe(*r, f) == expected, "written", "%s: field %d has %s but %s is read back", kindName[k], static_cast<int>(f), str(expected).c_str(), str(observe(*r, f)).c_str());
    c.check(observe(*r, g) == expectedG, "written", "%s: field %d has %s but %s is read back", kindName[k], static_cast<int>(g), str(expectedG).c_str(), str(observe(*r, g)).c_str());
    for (std::size_t i = 0; i != fieldCount; ++i)
        if (!alias(k, field(i), f) && !alias(k, field(i), g) && field(i) != KnownField::Vendor)
            c.check(observe(*r, field(i)).empty(), "written-other", "%s: field %zu is read back but has never been set", kindName[k], i);
}
} // namespace

VT_SUITE(sequences, KindCount *fieldCount)
{
    const auto k = static_cast<Kind>(c.top / fieldCount);
    const auto f = field(c.top % fieldCount);
    if (f == KnownField::Vendor && (k == Vorbis || k == OggVorbis))
        c.skip();
    const auto g = f == KnownField::Title ? KnownField::Artist : KnownField::Title;
    static std::map<std::pair<int, int>, std::vector<char>> aliasCache;
    auto &isAlias = aliasCache[{ k, static_cast<int>(f) }];
    if (isAlias.empty())
        for (std::size_t i = 0; i != fieldCount; ++i)
            isAlias.push_back(alias(k, field(i), f) || alias(k, field(i), g) || field(i) == KnownField::Vendor);
    auto tag = make(k);
    Tag &t = *tag;
    const bool supported = t.supportsField(f);
    const bool single = k == V1;
    Model m;
    Values mg;
    // initial state
    const auto initial = c.choose(!supported ? 1 : single ? 1 : k >= V22 && k <= V24 ? 3 : k != M4 ? 2 : f == KnownField::Genre || f == KnownField::RecordLabel ? 4 : f == KnownField::EncoderSettings ? 2 : 3, "initial");
    if (initial == 1) {
        native(k, t, [&](auto &n) {
            using FieldType = typename std::decay_t<decltype(n)>::FieldType;
            if constexpr (std::is_same_v<FieldType, Mp4TagField>) {
                if (f == KnownField::EncoderSettings) {
                    n.fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
                        std::forward_as_tuple(std::string_view(Mp4TagExtendedMeanIds::iTunes), std::string_view(Mp4TagExtendedNameIds::cdec), txt("P")));
                    n.fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
                        std::forward_as_tuple(std::string_view(Mp4TagExtendedMeanIds::iTunes), std::string_view(Mp4TagExtendedNameIds::cdec), txt("Q")));
                    return;
                }
            }
            const auto id = n.fieldId(f);
            n.fields().emplace(id, FieldType(id, txt("P")));
            n.fields().emplace(id, FieldType(id, txt("Q")));
        });
        m.assign({ "P", "Q" });
    } else if (initial == 2 && k != M4) { // values within several frames
        auto &n = static_cast<Id3v2Tag &>(t);
        const auto id = n.fieldId(f);
        auto x = Id3v2Frame(id, txt("P")), y = Id3v2Frame(id, txt("R"));
        x.additionalValues() = txts({ "Q" });
        y.additionalValues() = txts({ "S" });
        n.fields().emplace(id, x);
        n.fields().emplace(id, y);
        m.assign({ "P", "Q", "R", "S" });
    } else if (initial == 2) { // values within one field
        const auto id = static_cast<Mp4Tag &>(t).fieldId(f);
        auto x = Mp4TagField(id, txt("P"));
        x.additionalData().emplace_back().value = txt("Q");
        x.additionalData().emplace_back().value = txt("R");
        static_cast<Mp4Tag &>(t).fields().emplace(id, x);
        m.assign({ "P", "Q", "R" });
    } else if (initial == 3) {
        auto &n = static_cast<Mp4Tag &>(t);
        if (f == KnownField::Genre) {
            TagValue v;
            v.assignStandardGenreIndex(5);
            n.fields().emplace(Mp4TagAtomIds::PreDefinedGenre, Mp4TagField(Mp4TagAtomIds::PreDefinedGenre, std::move(v)));
            m.assign({ "Funk" });
        } else {
            n.fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
                std::forward_as_tuple(std::string_view(Mp4TagExtendedMeanIds::iTunes), std::string_view(Mp4TagExtendedNameIds::label), txt("L")));
            m.assign({ "L" });
        }
    }
    static const Values lists[] = { {}, { "A" }, { "A", "B" }, { "B", "A", "C" }, { "", "B" }, { "A", "", "C" } };
    static const Kind sources[] = { Mkv, V24, M4, Vorbis, V1 };
    const std::size_t depth = !supported ? 2 : vt::thorough() ? (single ? 5 : 4) : 3;
    const std::size_t ops = special(k, f) || !supported ? 15 : 17;
    for (std::size_t step = 0; step != depth; ++step) {
        const auto op = c.choose(ops, "op");
        Bytes what;
        bool ok = true;
        switch (op) {
        case 0:
        case 1:
        case 2: {
            const Bytes v = op == 0 ? "A" : op == 1 ? "B" : "";
            what = "setValue(" + v + ")";
            ok = t.setValue(f, txt(v)) || v.empty();
            if (supported)
                m.set(v);
            break;
        }
        case 3:
        case 4:
        case 5:
        case 6:
        case 7:
        case 8: {
            const auto &l = lists[op - 3];
            what = "setValues" + str(l);
            ok = t.setValues(f, txts(l));
            if (!supported)
                break;
            if (single) {
                m.may = { Values{ l.empty() ? "" : l[0] }, Values{ Model::visible(l).empty() ? "" : Model::visible(l)[0] } };
            } else
                m.assign(l);
            break;
        }
        case 9: {
            what = "removeAllFields()";
            t.removeAllFields();
            m.assign({});
            mg.clear();
            break;
        }
        case 10: {
            what = "setValue(other field)";
            t.setValue(g, txt("G"));
            mg = { "G" };
            break;
        }
        case 11:
        case 12: { // merge with a tag of the same format
            const bool overwrite = op == 11;
            if (special(k, f) && initial == 3)
                c.skip();
            what = overwrite ? "insertValues(same format, overwrite)" : "insertValues(same format)";
            auto from = make(k);
            const bool set = from->setValues(f, txts({ "X", "Y" }));
            c.check(set == supported, "unsupported", "%s: setValues() of field %d returns %d", kindName[k], static_cast<int>(f), set);
            const auto n = t.insertValues(*from, overwrite);
            if (supported && (overwrite || m.current().empty())) {
                c.check(n > 0, "insert-count", "%s: %s returns %zu", kindName[k], what.c_str(), n);
                m.assign(single ? Values{ "X" } : Values{ "X", "Y" });
            } else
                c.check(!n, "insert-count", "%s: %s returns %zu though nothing is to be inserted", kindName[k], what.c_str(), n);
            c.check(!supported || observe(*from, f).size() == (single ? 1u : 2u), "insert-source", "%s: source of insertValues() has been changed", kindName[k]);
            break;
        }
        case 13:
        case 14: { // merge with a tag of another format
            const bool overwrite = op == 13;
            Kind s = KindCount;
            for (auto x : sources)
                if (x != k && !(x >= V22 && x <= V24 && k >= V22 && k <= V24) && isSupported(x, f)) {
                    s = x;
                    break;
                }
            if (s == KindCount || (s == Mkv && (f == KnownField::Actor || f == KnownField::Performers) && !supported))
                c.skip();
            what = std::string("insertValues(") + kindName[s] + (overwrite ? ", overwrite)" : ")");
            auto from = make(s);
            from->setValues(f, txts({ "X", "Y" }));
            const auto n = t.insertValues(*from, overwrite);
            if (supported && (overwrite || m.current().empty())) {
                c.check(n > 0, "insert-count", "%s: %s returns %zu for field %d", kindName[k], what.c_str(), n, static_cast<int>(f));
                m.assign(single || s == V1 ? Values{ "X" } : Values{ "X", "Y" });
            } else if (!supported)
                c.check(!n, "insert-count", "%s: %s returns %zu though nothing is to be inserted", kindName[k], what.c_str(), n);
            break;
        }
        case 15: {
            what = "native setValue(A)";
            ok = native(k, t, [&](auto &n) { return n.setValue(n.fieldId(f), txt("A")); });
            m.set("A");
            break;
        }
        default: {
            what = "native setValues[C, A]";
            ok = native(k, t, [&](auto &n) { return n.setValues(n.fieldId(f), txts({ "C", "A" })); });
            m.assign({ "C", "A" });
        }
        }
        c.step();
        c.log("%s", what.c_str());
        c.check(ok == supported || (!supported && op > 8) || (!supported && op == 2), supported ? "refused" : "accepted", "%s: %s of field %d (%s) returns %d", kindName[k], what.c_str(),
            static_cast<int>(f), supported ? "supported" : "unsupported", ok);
        // compare with the model
        const auto got = observe(t, f);
        const auto expected = m.may;
        if (!m.observe(got))
            c.fail("values", "%s: field %d has the values %s instead of %s after %s", kindName[k], static_cast<int>(f), str(got).c_str(), str(Model::visible(*expected.begin())).c_str(), what.c_str());
        const auto one = t.value(f).isEmpty() ? Bytes() : t.value(f).toString(TagTextEncoding::Utf8);
        c.check(one == (got.empty() ? Bytes() : got.front()), "value", "%s: value() of field %d is %s but values() returns %s after %s", kindName[k], static_cast<int>(f), quote(one).c_str(),
            str(got).c_str(), what.c_str());
        c.check(t.hasField(f) == !got.empty(), "hasField", "%s: hasField() of field %d returns %d but values() returns %s after %s", kindName[k], static_cast<int>(f), t.hasField(f), str(got).c_str(),
            what.c_str());
        c.check(observe(t, g) == mg, "other", "%s: another field has %s instead of %s after %s", kindName[k], str(observe(t, g)).c_str(), str(mg).c_str(), what.c_str());
        const auto n = t.fieldCount();
        c.check(n >= (got.empty() ? 0u : 1u) + (mg.empty() ? 0u : 1u) && n <= got.size() * (special(k, f) ? 2 : 1) + mg.size(), "fieldCount",
            "%s: fieldCount() returns %zu but there are %zu values", kindName[k], n, got.size() + mg.size());
        if (!special(k, f) && supported)
            native(k, t, [&](auto &x) {
                const auto id = x.fieldId(f);
                Values v;
                for (auto *y : x.values(id))
                    v.push_back(y->toString(TagTextEncoding::Utf8));
                c.check(v == got && x.hasField(id) == !got.empty() && &x.value(id) == &t.value(f), "native", "%s: native access to field %d returns %s instead of %s", kindName[k], static_cast<int>(f),
                    str(v).c_str(), str(got).c_str());
            });
    }
    for (std::size_t i = 0; i != fieldCount; ++i)
        if (!isAlias[i] && (!t.values(field(i)).empty() || t.hasField(field(i)) || !t.value(field(i)).isEmpty()))
            c.fail("other-field", "%s: field %zu is present but only field %d has been set", kindName[k], i, static_cast<int>(f));
    const auto now = observe(t, f);
    if (supported && (k == V24 || k == Vorbis || k == Mkv || k == M4) && initial != 3 && depth) {
        static std::map<std::pair<int, int>, bool> plain;
        auto it = plain.find({ k, static_cast<int>(f) });
        if (it == plain.end())
            it = plain.emplace(std::make_pair(k, static_cast<int>(f)), plainText(k, f)).first;
        // one written representation per history of the last two operations is enough
        if (it->second && c.choices[1] == c.choices[2])
            roundTrip(c, k, t, f, now, g, mg);
    }
    c.state(vt::hashStr(str(now) + "/" + str(mg), c.top));
}

// native ids of all fields
VT_SUITE(mapping, KindCount)
{
    const auto k = static_cast<Kind>(c.top);
    auto t = make(k);
    if (k == V1) {
        for (std::size_t i = 0; i != fieldCount; ++i) {
            const bool s = t->setValue(field(i), txt("x"));
            c.check(s == t->supportsField(field(i)) && s == t->hasField(field(i)), "supports", "ID3v1: support of field %zu is not told correctly", i);
        }
        c.check(t->fieldCount() == 7, "fieldCount", "fieldCount() returns %zu", t->fieldCount());
        return;
    }
    native(k, *t, [&](auto &n) {
        using Id = typename std::decay_t<decltype(n)>::IdentifierType;
        for (std::size_t i = 0; i != fieldCount; ++i) {
            const auto f = field(i);
            const Id id = n.fieldId(f);
            c.step();
            if (id == Id()) {
                c.check(!n.supportsField(f) || (k == M4 && f == KnownField::EncoderSettings), "mapping", "%s: field %zu is supported but has no id", kindName[k], i);
                continue;
            }
            c.check(n.supportsField(f), "mapping", "%s: field %zu has an id but is not supported", kindName[k], i);
            const auto back = n.knownField(id);
            c.check(back == f || (back != KnownField::Invalid && alias(k, back, f)), "mapping", "%s: the id of field %zu is mapped back to field %d", kindName[k], i, static_cast<int>(back));
            for (std::size_t j = 0; j != i; ++j)
                if (n.fieldId(field(j)) == id)
                    c.check(k == Mkv && field(j) == KnownField::Performers && f == KnownField::Actor, "mapping-collision", "%s: fields %zu and %zu have the same id", kindName[k], j, i);
        }
        // fields the format can not express must not refer to anything
        n.fields().emplace(Id(), typename std::decay_t<decltype(n)>::FieldType(Id(), txt("x")));
        for (std::size_t i = 0; i != fieldCount; ++i)
            c.check(n.supportsField(field(i)) || (!n.hasField(field(i)) && n.value(field(i)).isEmpty() && n.values(field(i)).empty()), "mapping-empty",
                "%s: a field without id is taken for the unsupported field %zu", kindName[k], i);
        c.check(n.knownField(Id()) == KnownField::Invalid, "mapping-empty", "%s: an empty id is mapped to a known field", kindName[k]);
    });
    c.state(k);
}

// merging tags which have several fields with the same id, some with type info (e.g. covers of several types)
VT_SUITE(merge, 4)
{
    const Kind k = (const Kind[]){ V24, M4, Vorbis, Mkv }[c.top];
    auto a = make(k), b = make(k);
    struct Spec {
        int type; // -1 = none
        char value; // 0 = empty
    };
    static const std::vector<Spec> own[] = { {}, { { 3, 'a' } }, { { 3, 'a' }, { 4, 'b' } }, { { 3, 0 } }, { { 3, 'a' }, { 3, 'b' } }, { { 4, 'b' } }, { { 3, 0 }, { 3, 'b' } } };
    static const std::vector<Spec> other[] = { {}, { { 3, 'x' } }, { { 4, 'x' } }, { { 3, 'x' }, { 4, 'y' } }, { { 3, 'x' }, { 3, 'y' } }, { { 3, 0 } }, { { 5, 'x' }, { 3, 'y' }, { 3, 'z' } },
        { { 3, 'x' }, { 3, 'y' }, { 3, 'z' } } };
    const auto &o = c.pick(own, "own");
    const auto &n = c.pick(other, "other");
    const bool overwrite = c.flip("overwrite");
    const bool typed = c.flip("typed");
    const auto fill = [&](Tag &t, const std::vector<Spec> &s) {
        native(k, t, [&](auto &x) {
            using FieldType = typename std::decay_t<decltype(x)>::FieldType;
            const auto id = x.fieldId(KnownField::Title);
            for (auto &e : s) {
                FieldType f(id, txt(e.value ? Bytes(1, e.value) : Bytes()));
                if constexpr (std::is_same_v<typename FieldType::TypeInfoType, std::string>)
                    typed ? f.setTypeInfo(std::to_string(e.type)) : (void)0;
                else
                    typed ? f.setTypeInfo(static_cast<typename FieldType::TypeInfoType>(e.type)) : (void)0;
                x.fields().emplace(id, std::move(f));
            }
        });
    };
    fill(*a, o);
    fill(*b, n);
    b->setValue(KnownField::Artist, txt("artist"));
    // expectation: per kind of field (id and type) the values are kept or replaced as a whole
    std::map<int, Values> expected;
    const auto key = [&](const Spec &s) { return typed ? s.type : 0; };
    for (auto &e : o)
        if (e.value)
            expected[key(e)].push_back(Bytes(1, e.value));
    std::map<int, Values> incoming;
    for (auto &e : n)
        if (e.value)
            incoming[key(e)].push_back(Bytes(1, e.value));
    std::size_t count = 1;
    for (auto &[type, v] : incoming)
        if (overwrite || expected[type].empty()) {
            expected[type] = v;
            count += v.size();
        }
    const auto got = a->insertValues(*b, overwrite);
    c.step();
    std::map<int, Values> result;
    native(k, *a, [&](auto &x) {
        for (auto range = x.fields().equal_range(x.fieldId(KnownField::Title)); range.first != range.second; ++range.first) {
            auto &f = range.first->second;
            if (f.value().isEmpty())
                continue;
            int type = 0;
            if constexpr (std::is_same_v<std::decay_t<decltype(f.typeInfo())>, std::string>)
                type = typed ? std::stoi(f.typeInfo()) : 0;
            else
                type = typed ? static_cast<int>(f.typeInfo()) : 0;
            c.check(f.isTypeInfoAssigned() == typed, "merge-type", "type info is lost when merging");
            result[type].push_back(f.value().toString(TagTextEncoding::Utf8));
        }
    });
    for (auto &[type, v] : expected)
        c.check(result[type] == v, "merge", "%s: fields of type %d are %s instead of %s", kindName[k], type, str(result[type]).c_str(), str(v).c_str());
    c.check(got == count, "merge-count", "%s: %zu fields are said to be inserted instead of %zu", kindName[k], got, count);
    c.check(observe(*a, KnownField::Artist) == Values{ "artist" }, "merge", "another field is not inserted");
    c.check(observe(*b, KnownField::Artist) == Values{ "artist" }, "merge-source", "source is changed");
    c.state(vt::hashStr(vt::fmt("%zu %d%d", c.top, overwrite, typed), c.choices[0] * 100 + c.choices[1]));
}

// merging different formats: all fields at once
VT_SUITE(mergeFormats, KindCount *KindCount)
{
    const auto k = static_cast<Kind>(c.top / KindCount), s = static_cast<Kind>(c.top % KindCount);
    const bool overwrite = c.flip("overwrite");
    const auto present = c.choose(3, "present"); // fields present in the target: none, every other, all
    auto t = make(k), from = make(s);
    std::map<KnownField, Values> expected;
    const auto ok = [](KnownField f) { return f != KnownField::Vendor && f != KnownField::Performers; };
    for (std::size_t i = 0; i != fieldCount; ++i)
        if (ok(field(i)) && (present == 2 || (present == 1 && i % 2)) && t->setValue(field(i), txt("own" + std::to_string(i))))
            expected[field(i)] = { "own" + std::to_string(i) };
    for (std::size_t i = 0; i != fieldCount; ++i)
        if (ok(field(i)) && from->setValue(field(i), txt("new" + std::to_string(i))) && t->supportsField(field(i)) && (overwrite || !expected.count(field(i))))
            expected[field(i)] = { "new" + std::to_string(i) };
    t->insertValues(*from, overwrite);
    // ids of ID3v2.2 and newer versions differ; tags need to be converted first (same format)
    if (k != s && k >= V22 && k <= V24 && s >= V22 && s <= V24 && (k == V22 || s == V22))
        c.skip();
    c.step();
    for (std::size_t i = 0; i != fieldCount; ++i)
        if (ok(field(i)))
            c.check(observe(*t, field(i)) == expected[field(i)], "merge-formats", "field %zu is %s instead of %s after inserting values of %s into %s", i, str(observe(*t, field(i))).c_str(),
                str(expected[field(i)]).c_str(), kindName[s], kindName[k]);
    c.state(c.top * 10 + present * 2 + overwrite);
}
