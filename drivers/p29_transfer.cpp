// P29: values keep their meaning in every tag format and when transferred between formats.
#include "common.h"
#include "ebml.h"

#include <tagparser/id3/id3genres.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2frameids.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/vorbis/vorbiscomment.h>

#include <memory>
#include <sstream>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P29";
const char *vt::rule = "all pairs (and in the thorough tier triples) of tag formats x all fields both support x all values of the field's type (texts in every encoding, positions, numbers, genres, ratings of "
                       "every scale, pictures, durations) x ways of providing them (typed or as text) x overwriting; each tag is written and read back before its values are inserted into the next one; "
                       "states = distinct (format, field, content)";
const char *vt::assumptions = "ID3v1 holds short Latin-1 texts, standard genres and track numbers up to 255 only|ratings are compared on the generic scale with the precision of ID3v2 (1/254)|dates in ID3v2.3 are not transferred";

namespace {
enum Kind { V1, V23, V24, M4, Vorbis, Mkv, KindCount };
const char *const kindName[] = { "ID3v1", "ID3v2.3", "ID3v2.4", "MP4", "Vorbis comment", "Matroska" };
std::unique_ptr<Tag> make(Kind k)
{
    switch (k) {
    case V1: return std::make_unique<Id3v1Tag>();
    case V23:
    case V24: {
        auto t = std::make_unique<Id3v2Tag>();
        t->setVersion(static_cast<std::uint8_t>(3 + (k - V23)), 0);
        return t;
    }
    case M4: return std::make_unique<Mp4Tag>();
    case Vorbis: return std::make_unique<VorbisComment>();
    default: return std::make_unique<MatroskaTag>();
    }
}
// writes the tag and reads it back
std::unique_ptr<Tag> roundTrip(Ctx &c, Kind k, Tag &t, const Bytes &what)
{
    Diagnostics diag;
    auto r = make(k);
    MediaFileInfo info;
    std::stringstream stream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    try {
        switch (k) {
        case V1:
            static_cast<Id3v1Tag &>(t).make(stream, diag);
            static_cast<Id3v1Tag &>(*r).parse(stream, diag);
            break;
        case V23:
        case V24:
            static_cast<Id3v2Tag &>(t).make(stream, 0, diag);
            static_cast<Id3v2Tag &>(*r).parse(stream, stream.str().size(), diag);
            break;
        case Vorbis:
            static_cast<VorbisComment &>(t).make(stream, VorbisCommentFlags::NoSignature, diag);
            static_cast<VorbisComment &>(*r).parse(stream, stream.str().size(), VorbisCommentFlags::NoSignature, diag);
            break;
        case Mkv: {
            static_cast<MatroskaTag &>(t).make(stream, diag);
            info.reportSizeChanged(stream.str().size());
            MatroskaContainer container(info, 0);
            container.setStream(stream);
            EbmlElement e(container, 0);
            e.parse(diag);
            static_cast<MatroskaTag &>(*r).parse(e, diag);
            break;
        }
        default: {
            static_cast<Mp4Tag &>(t).make(stream, diag);
            const auto content = stream.str();
            stream.str(BE(content.size() + 8, 4) + "udta" + content); // "meta" is only recognised as full atom within "udta"
            info.reportSizeChanged(content.size() + 8);
            Mp4Container container(info, 0);
            container.setStream(stream);
            Mp4Atom e(container, 0);
            e.parse(diag);
            auto *meta = e.childById(Mp4AtomIds::Meta, diag);
            c.check(meta, "written", "%s: written tag has no \"meta\" atom", what.c_str());
            static_cast<Mp4Tag &>(*r).parse(*meta, diag);
        }
        }
    } catch (const NoDataFoundException &) {
        return make(k); // nothing has been written
    } catch (const Failure &e) {
        c.fail("failure", "%s: writing/reading %s tag failed: %s", what.c_str(), kindName[k], diagText(diag).c_str());
    }
    for (auto &m : diag)
        if (m.level() >= DiagLevel::Critical)
            c.fail("diagnostics", "%s: writing/reading %s tag: %s", what.c_str(), kindName[k], m.message().c_str());
    c.step();
    return r;
}
bool supports(Kind k, KnownField f)
{
    return make(k)->supportsField(f);
}
const std::size_t fieldCount = static_cast<std::size_t>(lastKnownField) - static_cast<std::size_t>(firstKnownField) + 1;
KnownField field(std::size_t i)
{
    return static_cast<KnownField>(static_cast<std::size_t>(firstKnownField) + i);
}
// what a value means
struct Meaning {
    enum Type { Text, Position, Integer, Genre, Rating, Picture, Span, None } type = None;
    Bytes text; // or picture
    int pos = 0, total = 0;
    std::int64_t number = 0;
    double rating = 0;
    Bytes user, mime;
    std::uint64_t counter = 0;
};
Bytes str(const Meaning &m)
{
    switch (m.type) {
    case Meaning::Text:
    case Meaning::Genre: return "\"" + m.text + "\"";
    case Meaning::Position: return fmt("%d/%d", m.pos, m.total);
    case Meaning::Integer:
    case Meaning::Span: return std::to_string(m.number);
    case Meaning::Rating: return fmt("%g (user %s, counter %llu)", m.rating, m.user.c_str(), (unsigned long long)m.counter);
    case Meaning::Picture: return fmt("%zu bytes of ", m.text.size()) + m.mime;
    default: return "nothing";
    }
}
Meaning read(const TagValue &v, Meaning::Type type)
{
    Meaning m;
    if (v.isEmpty())
        return m;
    m.type = type;
    switch (type) {
    case Meaning::Text: m.text = v.toString(TagTextEncoding::Utf8); break;
    case Meaning::Position: {
        const auto p = v.toPositionInSet();
        m.pos = p.position();
        m.total = p.total();
        break;
    }
    case Meaning::Integer: m.number = v.type() == TagDataType::UnsignedInteger ? static_cast<std::int64_t>(v.toUnsignedInteger()) : v.toInteger(); break;
    case Meaning::Genre: m.text = v.type() == TagDataType::Text ? v.toString(TagTextEncoding::Utf8) : Bytes(v.toDisplayString()); break;
    case Meaning::Rating: {
        auto p = v.toPopularity();
        p.scaleTo(TagType::Unspecified);
        m.rating = p.rating;
        m.user = p.user;
        m.counter = p.playCounter;
        break;
    }
    case Meaning::Picture:
        m.text.assign(v.dataPointer(), v.dataSize());
        m.mime = v.mimeType();
        break;
    case Meaning::Span: m.number = v.toTimeSpan().totalTicks() / 10000; break;
    default:;
    }
    return m;
}
bool same(const Meaning &a, const Meaning &b, double tolerance)
{
    return a.type == b.type && a.text == b.text && a.pos == b.pos && a.total == b.total && a.number == b.number && std::abs(a.rating - b.rating) < tolerance && a.user == b.user && a.mime == b.mime
        && a.counter == b.counter;
}
// restricts a value to what the format is able to store
Meaning stored(Kind k, KnownField f, Meaning m)
{
    switch (m.type) {
    case Meaning::Position:
        if (k == V1)
            m.total = 0;
        break;
    default:;
    }
    (void)f;
    return m;
}
struct Case {
    TagValue value;
    Meaning meaning;
};
Case textCase(const Bytes &s, TagTextEncoding e)
{
    Case x{ text(s, e), Meaning() };
    x.meaning.type = Meaning::Text;
    x.meaning.text = s;
    return x;
}
// inserts the value into a tag of the first format, writes and reads it back, inserts it into a tag of the next one and so on
void run(Ctx &c, KnownField f, const Case &x, const std::vector<Kind> &chain, bool overwrite)
{
    Bytes what = fmt("field %d %s%s", static_cast<int>(f), str(x.meaning).c_str(), overwrite ? " overwriting" : "");
    for (auto k : chain)
        what += Bytes(" -> ") + kindName[k];
    std::unique_ptr<Tag> tag;
    auto want = x.meaning;
    auto tolerance = 0.001;
    for (auto k : chain) {
        if (k == V23 || k == V24)
            tolerance += 4.0 / 254.0; // ID3v2 stores whole numbers
        auto next = make(k);
        if (overwrite)
            next->setValue(KnownField::Title, text("other title"));
        if (!tag) {
            c.check(next->setValue(f, x.value), "set", "%s: value not accepted", what.c_str());
        } else {
            const auto n = next->insertValues(*tag, overwrite);
            c.check(n >= 1, "inserted", "%s: %zu values inserted", what.c_str(), n);
        }
        next->ensureTextValuesAreProperlyEncoded();
        want = stored(k, f, want);
        tag = roundTrip(c, k, *next, what);
        Meaning got;
        try {
            got = read(tag->value(f), want.type);
        } catch (const CppUtilities::ConversionException &) {
            c.fail("conversion", "%s: \"%s\" of %s tag cannot be converted", what.c_str(), vt::quote(tag->value(f).toDisplayString()).c_str(), kindName[k]);
        }
        c.state(vt::hashStr(fmt("%d %d ", k, static_cast<int>(f)) + str(got)));
        c.check(same(got, want, tolerance), "meaning", "%s: %s tag has %s (%s)", what.c_str(), kindName[k], str(got).c_str(), vt::quote(tag->value(f).toDisplayString()).c_str());
    }
}
std::vector<Kind> chooseChain(Ctx &c, std::size_t top, KnownField f)
{
    std::vector<Kind> chain{ static_cast<Kind>(top / KindCount), static_cast<Kind>(top % KindCount) };
    if (vt::thorough())
        if (const auto k = c.choose(KindCount + 1, "third format"))
            chain.push_back(static_cast<Kind>(k - 1));
    for (auto k : chain)
        if (!supports(k, f))
            c.skip();
    return chain;
}
bool has(const std::vector<Kind> &chain, Kind k)
{
    return std::find(chain.begin(), chain.end(), k) != chain.end();
}
// whether a field takes arbitrary text
bool plainText(Kind k, KnownField f)
{
    auto t = make(k);
    if (t->proposedDataType(f) != TagDataType::Text)
        return false;
    switch (f) {
    case KnownField::Cover:
    case KnownField::RecordDate:
    case KnownField::Language:
    case KnownField::SynchronizedLyrics:
    case KnownField::Vendor:
        return false;
    case KnownField::MediaType:
    case KnownField::ContentRating:
        return k != M4;
    default:;
    }
    if (k == V23 || k == V24)
        return Id3v2FrameIds::isTextFrame(static_cast<Id3v2Tag &>(*t).fieldId(f)) || f == KnownField::Comment || f == KnownField::Lyrics;
    return true;
}
} // namespace

VT_SUITE(texts, KindCount * KindCount)
{
    const auto f = field(c.choose(static_cast<std::uint32_t>(fieldCount), "field"));
    const auto chain = chooseChain(c, c.top, f);
    for (auto k : chain)
        if (!plainText(k, f))
            c.skip();
    static const Bytes values[] = { "text", "12", "3/4", " spaces ", "two\nlines", "Gr\xC3\xBC\xC3\x9F" "e", "\xE2\x82\xAC \xE6\x97\xA5\xE6\x9C\xAC \xF0\x9F\x8E\xB5", "a;b/c|d\\e=f", Bytes(300, 'x') };
    static const TagTextEncoding encodings[] = { TagTextEncoding::Utf8, TagTextEncoding::Latin1, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };
    const auto &v = c.pick(values, "value");
    const auto e = c.pick(encodings, "encoding");
    if (e == TagTextEncoding::Latin1 && !isLatin1(v))
        c.skip();
    if (has(chain, V1) && (v.size() > 28 || !isLatin1(v) || v.back() == ' '))
        c.skip();
    run(c, f, textCase(v, e), chain, f != KnownField::Title && c.flip("overwrite"));
}
VT_SUITE(positions, KindCount * KindCount)
{
    static const KnownField fields[] = { KnownField::TrackPosition, KnownField::DiskPosition };
    const auto f = c.pick(fields, "field");
    const auto chain = chooseChain(c, c.top, f);
    static const PositionInSet values[] = { PositionInSet(1, 0), PositionInSet(3, 12), PositionInSet(12, 12), PositionInSet(255, 300), PositionInSet(256, 0), PositionInSet(32767, 32767), PositionInSet(0, 5) };
    const auto v = c.pick(values, "value");
    if (has(chain, V1) && (v.position() > 255 || !v.position()))
        c.skip();
    Case x;
    x.meaning.type = Meaning::Position;
    x.meaning.pos = v.position();
    x.meaning.total = v.total();
    switch (c.choose(4, "way")) {
    case 0: x.value = TagValue(v); break;
    case 1: x.value = text(v.toString<std::string>()); break;
    case 2: x.value = text(v.toString<std::string>(), TagTextEncoding::Utf16LittleEndian); break;
    default:
        if (v.total())
            c.skip();
        x.value = TagValue(v.position());
    }
    run(c, f, x, chain, c.flip("overwrite"));
}
VT_SUITE(numbers, KindCount * KindCount)
{
    static const KnownField fields[] = { KnownField::Bpm, KnownField::Bps, KnownField::PartNumber, KnownField::TotalParts, KnownField::PlayCounter };
    const auto f = c.pick(fields, "field");
    const auto chain = chooseChain(c, c.top, f);
    static const std::int32_t values[] = { 1, 9, 120, 255, 256, 32767 };
    const auto v = c.pick(values, "value");
    Case x;
    x.meaning.type = Meaning::Integer;
    x.meaning.number = v;
    switch (c.choose(4, "way")) {
    case 0: x.value = TagValue(v); break;
    case 1: x.value = text(std::to_string(v)); break;
    case 2: x.value = text(std::to_string(v), TagTextEncoding::Utf16BigEndian); break;
    default: x.value = TagValue(static_cast<std::uint64_t>(v));
    }
    run(c, f, x, chain, c.flip("overwrite"));
}
VT_SUITE(genres, KindCount * KindCount)
{
    const auto f = KnownField::Genre;
    const auto chain = chooseChain(c, c.top, f);
    const auto i = c.choose(static_cast<std::uint32_t>(Id3Genres::genreCount()) + 4, "genre");
    Case x;
    x.meaning.type = Meaning::Genre;
    if (i < static_cast<std::uint32_t>(Id3Genres::genreCount())) {
        x.meaning.text = Id3Genres::stringFromIndex(static_cast<int>(i));
        if (c.flip("as text"))
            x.value = text(x.meaning.text);
        else {
            x.value = TagValue(static_cast<std::int32_t>(i));
            x.value.assignStandardGenreIndex(static_cast<int>(i));
        }
    } else {
        static const Bytes others[] = { "My genre", "Gen\xC3\xA9ro", "\xE2\x82\xAC", "Rock, Pop" };
        x.meaning.text = others[i - static_cast<std::uint32_t>(Id3Genres::genreCount())];
        x.value = text(x.meaning.text);
        if (has(chain, V1))
            c.skip();
    }
    run(c, f, x, chain, c.flip("overwrite"));
}
VT_SUITE(ratings, KindCount * KindCount)
{
    const auto f = KnownField::Rating;
    const auto chain = chooseChain(c, c.top, f);
    static const TagType scales[] = { TagType::Unspecified, TagType::Id3v2Tag, TagType::VorbisComment, TagType::OggVorbisComment, TagType::MatroskaTag };
    static const double ratings[] = { 1.0, 1.5, 2.0, 3.0, 3.75, 4.5, 5.0 };
    Popularity p;
    p.rating = c.pick(ratings, "rating");
    const auto generic = p.rating;
    p.scaleTo(c.pick(scales, "scale"));
    static const struct {
        const char *user;
        std::uint64_t counter;
    } users[] = { { "", 0 }, { "user@example.com", 0 }, { "user", 12 }, { "", 7 }, { "u", 70000 } };
    auto &u = c.pick(users, "user");
    p.user = u.user;
    p.playCounter = u.counter;
    Case x{ TagValue(p), Meaning() };
    x.meaning.type = Meaning::Rating;
    x.meaning.rating = generic;
    x.meaning.user = p.user;
    x.meaning.counter = p.playCounter;
    run(c, f, x, chain, c.flip("overwrite"));
}
VT_SUITE(pictures, KindCount * KindCount)
{
    const auto f = KnownField::Cover;
    const auto chain = chooseChain(c, c.top, f);
    static const char *const mimes[] = { "image/jpeg", "image/png", "image/bmp" };
    static const std::size_t sizes[] = { 1, 2, 100, 70000 };
    const auto size = c.pick(sizes, "size");
    const auto d = filler(size, static_cast<unsigned>(size));
    Case x;
    x.value.assignData(d.data(), d.size(), TagDataType::Picture);
    x.value.setMimeType(c.pick(mimes, "type"));
    x.meaning.type = Meaning::Picture;
    x.meaning.text = d;
    x.meaning.mime = x.value.mimeType();
    run(c, f, x, chain, c.flip("overwrite"));
}
VT_SUITE(lengths, KindCount * KindCount)
{
    const auto f = KnownField::Length;
    const auto chain = chooseChain(c, c.top, f);
    static const std::int64_t values[] = { 1000, 61000, 3600000, 3661000, 90061000 };
    const auto v = c.pick(values, "ms");
    Case x{ TagValue(CppUtilities::TimeSpan(v * 10000)), Meaning() };
    x.meaning.type = Meaning::Span;
    x.meaning.number = v;
    run(c, f, x, chain, c.flip("overwrite"));
}

VT_SUITE(dates, KindCount * KindCount)
{
    const auto f = KnownField::RecordDate;
    const auto chain = chooseChain(c, c.top, f);
    static const char *const values[] = { "2024", "2024-02", "2024-02-29", "2024-02-29T13", "2024-02-29T13:14", "2024-02-29T13:14:15", "1999-12-31T23:59:59", "0001-01-01" };
    const Bytes v = c.pick(values, "date");
    if (has(chain, V1) && v.size() > 4)
        c.skip();
    if (has(chain, V23) && v.size() > 4)
        c.skip();
    Case x{ text(v), Meaning() };
    x.meaning.type = Meaning::Text;
    x.meaning.text = v;
    switch (c.choose(3, "way")) {
    case 0: break;
    case 1: x.value = text(v, TagTextEncoding::Utf16LittleEndian); break;
    default: x.value = TagValue(CppUtilities::DateTimeExpression::fromIsoString(v.c_str()));
    }
    run(c, f, x, chain, c.flip("overwrite"));
}
// all fields at once, several values per field
VT_SUITE(everything, KindCount * KindCount)
{
    const std::vector<Kind> chain{ static_cast<Kind>(c.top / KindCount), static_cast<Kind>(c.top % KindCount) };
    const auto count = 1 + c.choose(3, "values");
    const auto except = c.choose(static_cast<std::uint32_t>(fieldCount) + 1, "field left out");
    const auto existing = c.choose(3, "existing"); // nothing, different values not overwritten, different values overwritten
    std::vector<KnownField> fields;
    for (std::size_t i = 0; i < fieldCount; ++i) {
        const auto f = field(i);
        auto use = i != except;
        for (auto k : chain)
            if (!use || !supports(k, f) || !plainText(k, f))
                use = false;
        if (!use)
            continue;
        for (auto k : chain) { // leave out aliases
            auto t = make(k);
            t->setValue(f, text("1"));
            for (auto other : fields)
                if (!t->value(other).isEmpty())
                    use = false;
        }
        if (use)
            fields.emplace_back(f);
    }
    const auto multi = [&](KnownField f) { return count > 1 && make(chain[0])->supportsMultipleValues(f) && make(chain[1])->supportsMultipleValues(f); };
    const auto valuesOf = [&](KnownField f) {
        std::vector<TagValue> v;
        for (unsigned i = 0; i < (multi(f) ? count : 1); ++i)
            v.emplace_back(text(fmt("v%d of %d", i, static_cast<int>(f))));
        return v;
    };
    const auto what = fmt("%u values, field %u left out, existing %u, ", count, except, existing) + kindName[chain[0]] + " -> " + kindName[chain[1]];
    auto from = make(chain[0]), to = make(chain[1]);
    for (auto f : fields)
        c.check(from->setValues(f, valuesOf(f)), "set", "%s: values for field %d not accepted", what.c_str(), static_cast<int>(f));
    from = roundTrip(c, chain[0], *from, what);
    std::size_t expected = 0, index = 0;
    std::vector<Bytes> old(fieldCount);
    for (std::size_t i = 0; i < fieldCount; ++i) {
        const auto f = field(i);
        auto present = std::find(fields.begin(), fields.end(), f) != fields.end();
        if (existing && (present || i == except) && supports(chain[1], f) && plainText(chain[1], f) && ++index % 2) {
            to->setValue(f, text("old"));
            old[i] = "old";
        }
        if (present && (existing != 1 || old[i].empty()))
            ++expected;
    }
    if (except < fieldCount && !old[except].empty())
        for (auto f : fields) // the field left out might be an alias
            if (make(chain[1])->setValue(f, text("1")) && [&] { auto t = make(chain[1]); t->setValue(f, text("1")); return !t->value(field(except)).isEmpty(); }())
                c.skip();
    const auto n = to->insertValues(*from, existing == 2);
    c.check(n >= expected, "inserted", "%s: %zu fields inserted, expected at least %zu", what.c_str(), n, expected);
    to->ensureTextValuesAreProperlyEncoded();
    to = roundTrip(c, chain[1], *to, what);
    for (std::size_t i = 0; i < fieldCount; ++i) {
        const auto f = field(i);
        std::vector<Bytes> want, got;
        const auto present = std::find(fields.begin(), fields.end(), f) != fields.end();
        if (!present && i != except)
            continue;
        if (present && (existing != 1 || old[i].empty())) {
            for (auto &v : valuesOf(f))
                want.emplace_back(v.toString(TagTextEncoding::Utf8));
        } else if (!old[i].empty())
            want.emplace_back(old[i]);
        if (present || !old[i].empty())
            for (auto *v : to->values(f))
                got.emplace_back(v->toString(TagTextEncoding::Utf8));
        Bytes w, g;
        for (auto &v : want)
            w += v + "|";
        for (auto &v : got)
            g += v + "|";
        c.state(vt::hashStr(fmt("%d %d ", chain[1], static_cast<int>(f)) + g));
        c.check(w == g, "values", "%s: field %d has \"%s\", expected \"%s\"", what.c_str(), static_cast<int>(f), g.c_str(), w.c_str());
    }
}
