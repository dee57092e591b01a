// P24: Variable-length number encodings are exact inverses and announced lengths are the lengths written.
#include "common.h"
#include "ebml.h"
#include "flac.h"
#include "save.h"

#include <tagparser/flac/flacmetadata.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/matroska/ebmlelement.h>
#include <tagparser/matroska/matroskaattachment.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/mp4/mp4atom.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/mp4/mpeg4descriptor.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/vorbis/vorbiscommentfield.h>

#include <c++utilities/io/binarywriter.h>

using namespace ref;
using namespace TagParser;
using CppUtilities::BinaryWriter;

const char *vt::property = "P24";
const char *vt::rule = "all values below 2^22 (2^25 in the thorough tier), all values within 3 of every power of two and of every form boundary up to 64 bits, all possible ids, every "
                       "minimum length and every non-minimal form, encoded by the library and decoded by an independent decoder and vice versa; all value lengths around every size-form "
                       "boundary for every structure with a predicted length; states = distinct (encoding, length) classes";
const char *vt::assumptions = "EBML ids are class A–D ids with the length marker included; reserved all-ones values are not ids";

namespace {
using U64 = std::uint64_t;
// a stream counting and (up to a limit) keeping what is written
struct Count : std::streambuf {
    U64 n = 0;
    Bytes head;
    std::streamsize xsputn(const char *s, std::streamsize k) override
    {
        if (head.size() < 64)
            head.append(s, static_cast<std::size_t>(std::min<std::streamsize>(k, 64)));
        n += static_cast<U64>(k);
        return k;
    }
    int overflow(int ch) override
    {
        if (head.size() < 64)
            head += static_cast<char>(ch);
        ++n;
        return ch;
    }
};
std::vector<U64> boundaries()
{
    std::set<U64> r;
    for (int k = 0; k <= 64; ++k)
        for (int d = -3; d <= 3; ++d)
            r.insert((k == 64 ? U64(0) : U64(1) << k) + static_cast<U64>(static_cast<std::int64_t>(d)));
    return { r.begin(), r.end() };
}
const U64 maxEbml = (U64(1) << 56) - 2;
void checkSize(Ctx &c, U64 v)
{
    // shortest legal form (the all-ones value of a form is reserved for "unknown")
    unsigned shortest = 1;
    while (shortest < 9 && v > (U64(1) << (7 * shortest)) - 2)
        ++shortest;
    for (int minBytes = -1; minBytes <= 9; ++minBytes) {
        char buf[16];
        memset(buf, 0x5A, sizeof(buf));
        unsigned n = 0;
        bool threw = false;
        try {
            n = minBytes < 0 ? EbmlElement::makeSizeDenotation(v, buf) : EbmlElement::makeSizeDenotation(v, buf, static_cast<std::uint8_t>(minBytes));
        } catch (const InvalidDataException &) {
            threw = true;
        }
        if (v > maxEbml || minBytes > 8) {
            if (!threw)
                c.fail("size-limit", "size %llu (min %d) is written in %u bytes but can not be represented", (unsigned long long)v, minBytes, n);
            continue;
        }
        if (threw)
            c.fail("size-rejected", "size %llu (min %d) is rejected", (unsigned long long)v, minBytes);
        unsigned len = 1;
        for (auto b = static_cast<unsigned char>(buf[0]); len <= 8 && !(b & 0x80); b = static_cast<unsigned char>(b << 1))
            ++len;
        U64 got = len <= 8 ? static_cast<unsigned char>(buf[0]) & (0xFFu >> len) : 0;
        for (unsigned i = 1; i < len && i < 8; ++i)
            got = got << 8 | static_cast<unsigned char>(buf[i]);
        if (len != n || got != v)
            c.fail("size", "size %llu (min %d) is written as %s (%u bytes)", (unsigned long long)v, minBytes, hex(std::string_view(buf, 8)).c_str(), n);
        if (got == (U64(1) << (7 * len)) - 1)
            c.fail("size-reserved", "size %llu (min %d) is written as the reserved value for unknown sizes", (unsigned long long)v, minBytes);
        if (static_cast<int>(n) < minBytes)
            c.fail("size-min", "size %llu (min %d) is written in only %u bytes", (unsigned long long)v, minBytes, n);
        if (n > std::max<unsigned>(shortest + (v == 126), static_cast<unsigned>(std::max(minBytes, 1))))
            c.fail("size-long", "size %llu (min %d) takes %u bytes", (unsigned long long)v, minBytes, n);
        for (int i = 8; i < 16; ++i)
            if (buf[i] != 0x5A)
                c.fail("size-overflow", "making size %llu exceeds the buffer", (unsigned long long)v);
        if (minBytes < 0) {
            const unsigned predicted = EbmlElement::calculateSizeDenotationLength(v);
            if (predicted != n)
                c.fail("size-predicted", "size %llu takes %u bytes but %u are predicted", (unsigned long long)v, n, predicted);
        }
    }
    if (v > maxEbml) {
        bool threw = false;
        try {
            EbmlElement::calculateSizeDenotationLength(v);
        } catch (const InvalidDataException &) {
            threw = true;
        }
        if (!threw)
            c.fail("size-limit", "a length is predicted for size %llu which can not be represented", (unsigned long long)v);
    }
}
void checkUInt(Ctx &c, U64 v)
{
    unsigned shortest = 1;
    while (shortest < 8 && v >> (8 * shortest))
        ++shortest;
    for (int minBytes = -1; minBytes <= 9; ++minBytes) {
        char buf[16];
        memset(buf, 0x5A, sizeof(buf));
        const unsigned n = minBytes < 0 ? EbmlElement::makeUInteger(v, buf) : EbmlElement::makeUInteger(v, buf, static_cast<std::uint8_t>(minBytes));
        U64 got = 0;
        for (unsigned i = 0; i < n && i < 8; ++i)
            got = got << 8 | static_cast<unsigned char>(buf[i]);
        if (got != v || n != std::max(shortest, static_cast<unsigned>(std::clamp(minBytes, 1, 8))))
            c.fail("uint", "integer %llu (min %d) is written as %s (%u bytes)", (unsigned long long)v, minBytes, hex(std::string_view(buf, 8)).c_str(), n);
        for (int i = 8; i < 16; ++i)
            if (buf[i] != 0x5A)
                c.fail("uint-overflow", "making integer %llu exceeds the buffer", (unsigned long long)v);
        if (minBytes < 0 && EbmlElement::calculateUIntegerLength(v) != n)
            c.fail("uint-predicted", "integer %llu takes %u bytes but %u are predicted", (unsigned long long)v, n, EbmlElement::calculateUIntegerLength(v));
    }
}
const std::size_t chunks = 8;
U64 limit()
{
    return U64(1) << (vt::thorough() ? 25 : 22);
}
} // namespace

VT_SUITE(ebmlNumbers, chunks + 1)
{
    if (c.top == chunks) {
        const auto b = boundaries();
        for (auto v : b) {
            checkSize(c, v);
            checkUInt(c, v);
        }
        c.step(b.size() * 22);
    } else {
        const U64 from = limit() / chunks * c.top, to = limit() / chunks * (c.top + 1);
        for (U64 v = from; v != to; ++v) {
            checkSize(c, v);
            checkUInt(c, v);
        }
        c.step((to - from) * 22);
    }
    c.state(c.top);
}

VT_SUITE(ebmlIds, vt::thorough() ? 385 : 81)
{
    // all ids of up to 3 bytes, all valid ids of 4 bytes (only the ends of 16 sub ranges in the quick tier) and all around the boundaries
    std::vector<std::pair<U64, U64>> ranges;
    if (c.top < 64)
        ranges.push_back({ c.top << (vt::thorough() ? 18 : 16), (c.top + 1) << (vt::thorough() ? 18 : 16) });
    else if (c.top + 1 == (vt::thorough() ? 385 : 81))
        for (auto v : boundaries()) {
            if (v <= 0xFFFFFFFF)
                ranges.push_back({ v, v + 1 });
        }
    else if (vt::thorough() && c.top < 64 + 256)
        ranges.push_back({ 0x10000000 + ((c.top - 64) << 20), 0x10000000 + ((c.top - 63) << 20) });
    else if (vt::thorough())
        ranges.push_back({ 0x20000000 + ((c.top - 320) << 24), 0x20000000 + ((c.top - 320) << 24) + 0x8000 });
    else
        ranges.push_back({ 0x10000000 + ((c.top - 64) << 24), 0x10000000 + ((c.top - 64) << 24) + 0x8000 });
    for (auto [from, to] : ranges)
        for (U64 v = from; v < to; ++v) {
            const auto id = static_cast<std::uint32_t>(v);
            const unsigned bytes = id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1;
            const bool valid = id >> (7 * bytes) == 1; // marker bit at the place which denotes the length
            char buf[16];
            memset(buf, 0x5A, sizeof(buf));
            unsigned n = 0, predicted = 0;
            try {
                n = EbmlElement::makeId(id, buf);
            } catch (const InvalidDataException &) {
            }
            try {
                predicted = EbmlElement::calculateIdLength(id);
            } catch (const InvalidDataException &) {
            }
            if (predicted != n)
                c.fail("id-predicted", "id %x takes %u bytes but %u are predicted", id, n, predicted);
            if (!valid) {
                if (n)
                    c.fail("id-invalid", "id %x which can not be represented is written as %s", id, hex(std::string_view(buf, n)).c_str());
                continue;
            }
            U64 got = 0;
            for (unsigned i = 0; i < n && i < 8; ++i)
                got = got << 8 | static_cast<unsigned char>(buf[i]);
            if (n != bytes || got != id)
                c.fail("id", "id %x is written as %s (%u bytes)", id, hex(std::string_view(buf, 8)).c_str(), n);
        }
    for (auto [from, to] : ranges)
        c.step((to - from) * 2);
    c.state(c.top);
}

namespace {
struct Mkv {
    MediaFileInfo info;
    std::stringstream stream{ std::ios_base::in | std::ios_base::out | std::ios_base::binary };
    std::unique_ptr<MatroskaContainer> container;
    explicit Mkv(const Bytes &b, U64 size = 0)
    {
        stream.str(b);
        info.reportSizeChanged(size ? size : b.size());
        container = std::make_unique<MatroskaContainer>(info, 0);
        container->setStream(stream);
    }
};
struct Mp4 {
    MediaFileInfo info;
    std::stringstream stream{ std::ios_base::in | std::ios_base::out | std::ios_base::binary };
    std::unique_ptr<Mp4Container> container;
    explicit Mp4(const Bytes &b, U64 size = 0)
    {
        stream.str(b);
        info.reportSizeChanged(size ? size : b.size());
        container = std::make_unique<Mp4Container>(info, 0);
        container->setStream(stream);
    }
};
} // namespace

// the library's own reader: every size in every form, values read back
VT_SUITE(ebmlRead, 8)
{
    const int len = static_cast<int>(c.top) + 1;
    Diagnostics diag;
    const auto one = [&](U64 v) {
        if (v > (U64(1) << (7 * len)) - 2)
            return;
        Mkv f(ebml::id(0x4DBB) + ebml::size(v, len), v + 2 + len);
        f.container->setStream(f.stream);
        EbmlElement e(*f.container, 0);
        try {
            e.parse(diag);
        } catch (const Failure &) {
            c.fail("read-size", "size %llu denoted by %d bytes can not be read", (unsigned long long)v, len);
        }
        if (e.id() != 0x4DBB || e.idLength() != 2 || e.sizeLength() != static_cast<std::uint32_t>(len) || e.dataSize() != v || e.totalSize() != v + 2 + len)
            c.fail("read-size", "size %llu denoted by %d bytes is read as %llu (%u bytes)", (unsigned long long)v, len, (unsigned long long)e.dataSize(), e.sizeLength());
        c.step();
    };
    for (auto v : boundaries())
        one(v);
    for (U64 v = 0; v < (vt::thorough() ? 40000u : 4000u); ++v)
        one(v);
    // unknown size: takes the rest of the file whatever the length of the denotation
    {
        Mkv f(ebml::id(0x4DBB) + [&] {
            Bytes b(static_cast<std::size_t>(len), '\xFF');
            b[0] = static_cast<char>(0xFF >> (len - 1));
            return b;
        }() + Bytes(20, 'x'));
        EbmlElement e(*f.container, 0);
        e.parse(diag);
        c.check(e.totalSize() == 22u + len, "read-unknown", "unknown size denoted by %d bytes: total size %llu instead of %u", len, (unsigned long long)e.totalSize(), 22 + len);
    }
    // ids of every length and simple elements made by the library
    for (auto id : { 0x81u, 0xECu, 0xFEu, 0x4001u, 0x4DBBu, 0x7FFEu, 0x200001u, 0x2AD7B1u, 0x3FFFFEu, 0x10000001u, 0x1A45DFA3u, 0x1FFFFFFEu })
        for (auto v : boundaries()) {
            std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
            EbmlElement::makeSimpleElement(s, id, v);
            const auto bytes = s.str();
            const auto predicted = EbmlElement::calculateIdLength(id) + 1u + EbmlElement::calculateUIntegerLength(v);
            c.check(bytes.size() == predicted, "element-predicted", "element %x with %llu takes %zu bytes but %u are predicted", id, (unsigned long long)v, bytes.size(), predicted);
            Mkv f(bytes);
            EbmlElement e(*f.container, 0);
            e.parse(diag);
            c.check(e.id() == id && e.readUInteger() == v && e.totalSize() == bytes.size(), "element", "element %x with %llu is read as %x with %llu", id, (unsigned long long)v,
                static_cast<unsigned>(e.id()), (unsigned long long)e.readUInteger());
            c.step();
        }
    // integers stored with (possibly redundant) leading zeros
    for (auto v : boundaries()) {
        if (len < 8 && v >> (8 * len))
            continue;
        Mkv f(ebml::elU(0x4DBB, v, len) + Bytes(9, 'x'));
        EbmlElement e(*f.container, 0);
        e.parse(diag);
        c.check(e.readUInteger() == v, "read-uint", "%llu stored in %d bytes is read as %llu", (unsigned long long)v, len, (unsigned long long)e.readUInteger());
        c.step();
    }
    {
        Mkv f(ebml::el(0x4DBB, "") + Bytes(9, 'x'));
        EbmlElement e(*f.container, 0);
        e.parse(diag);
        c.check(e.readUInteger() == 0 && e.readFloat() == 0.0 && e.readString().empty(), "read-empty", "an element without data is not read as 0/empty");
    }
    c.state(len);
}

// elements with text of every length around the size-form boundaries
VT_SUITE(ebmlText, 5)
{
    const std::pair<std::size_t, std::size_t> ranges[] = { { 0, 300 }, { 16370, 16400 }, { 2097140, 2097160 }, { 268435450, 268435458 }, { 32760, 32775 } };
    if (c.top == 3 && !vt::thorough())
        c.skip();
    const auto [from, to] = ranges[c.top];
    for (auto n = from; n != to; ++n) {
        const Bytes text(n, 't');
        std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
        EbmlElement::makeSimpleElement(s, 0x7BA9, text);
        const auto bytes = std::move(s).str();
        c.check(bytes.size() == 2 + EbmlElement::calculateSizeDenotationLength(n) + n, "element-predicted", "text element with %zu bytes takes %zu bytes", n, bytes.size());
        Mkv f(bytes);
        EbmlElement e(*f.container, 0);
        Diagnostics diag;
        e.parse(diag);
        c.check(e.dataSize() == n && e.readString() == text, "element", "text element with %zu bytes is not read back", n);
        c.step();
    }
    c.state(c.top);
}

VT_SUITE(mp4Atoms, 2)
{
    Diagnostics diag;
    std::vector<U64> values;
    for (auto v : boundaries())
        if (v >= 16 && v < (U64(1) << 62))
            values.push_back(v);
    for (U64 v = 16; v < 5000; ++v)
        values.push_back(v);
    if (c.top == 0) {
        for (auto v : values) {
            std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
            BinaryWriter w(&s);
            Mp4Atom::makeHeader(v, 0x66726565, w);
            const auto b = s.str();
            const U64 size32 = rdBE(b, 0, 4);
            const auto id = b.substr(4, 4);
            const U64 got = size32 == 1 ? rdBE(b, 8, 8) : size32;
            c.check(b.size() == (size32 == 1 ? 16u : 8u) && got == v && id == "free", "atom-header", "header of an atom with %llu bytes is %s", (unsigned long long)v, hex(b).c_str());
            c.check(v <= 0xFFFFFFFF || size32 == 1, "atom-header", "size %llu is written with 32 bits", (unsigned long long)v);
            Mp4 f(b, v + 5);
            Mp4Atom a(*f.container, 0);
            a.parse(diag);
            c.check(a.totalSize() == v && a.headerSize() == b.size() && a.dataSize() == v - b.size(), "atom-read", "atom with %llu bytes (header %s) is read with %llu bytes", (unsigned long long)v,
                hex(b).c_str(), (unsigned long long)a.totalSize());
            c.step(2);
        }
    } else {
        for (auto v : values) {
            // both forms for every value
            for (bool large : { false, true }) {
                if (!large && v > 0xFFFFFFFF)
                    continue;
                const auto b = large ? Bytes("\0\0\0\1free", 8) + ref::BE(v, 8) : ref::BE(v, 4) + "free";
                Mp4 f(b, v + 5);
                Mp4Atom a(*f.container, 0);
                a.parse(diag);
                c.check(a.totalSize() == v && a.headerSize() == b.size(), "atom-read", "atom with %llu bytes (header %s) is read with %llu bytes", (unsigned long long)v, hex(b).c_str(),
                    (unsigned long long)a.totalSize());
                c.step();
            }
        }
        // sizes written after the content
        for (std::size_t n = 0; n < 600; ++n)
            for (std::size_t before : { 0u, 5u })
                for (bool large : { false, true }) {
                    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
                    s << Bytes(before, 'p') << (large ? Bytes("....free........") : Bytes("....free")) << Bytes(n, 'x');
                    const auto end = s.tellp();
                    if (large)
                        Mp4Atom::seekBackAndWriteAtomSize64(s, static_cast<std::streamoff>(before));
                    else
                        Mp4Atom::seekBackAndWriteAtomSize(s, static_cast<std::streamoff>(before), diag);
                    const auto expected = Bytes(before, 'p') + (large ? Bytes("\0\0\0\1free", 8) + ref::BE(n + 16, 8) : ref::BE(n + 8, 4) + "free") + Bytes(n, 'x');
                    c.check(s.str() == expected && s.tellp() == end, "atom-seek-back", "size of %zu bytes written afterwards: %s", n, hex(s.str()).c_str());
                    c.step();
                }
    }
    c.state(c.top);
}

VT_SUITE(descriptors, 4)
{
    const int len = static_cast<int>(c.top) + 1;
    Diagnostics diag;
    const U64 max = U64(1) << (7 * len);
    const auto one = [&](U64 v) {
        if (v >= max)
            return;
        Bytes b("\x03", 1);
        for (int i = len - 1; i >= 0; --i)
            b += static_cast<char>((v >> (7 * i) & 0x7F) | (i ? 0x80 : 0));
        Mp4 f(b + Bytes("\x06\x01\x02", 3), v + b.size() + 3);
        Mpeg4Descriptor d(*f.container, 0, v + b.size() + 3);
        d.parse(diag);
        c.check(d.id() == 3 && d.dataSize() == v && d.sizeLength() == static_cast<std::uint32_t>(len) && d.totalSize() == v + 1 + len, "descriptor",
            "descriptor length %llu in %d bytes is read as %llu (%u bytes)", (unsigned long long)v, len, (unsigned long long)d.dataSize(), d.sizeLength());
        c.check(d.nextSibling() && d.nextSibling()->startOffset() == d.totalSize(), "descriptor-sibling", "sibling after a descriptor with %llu bytes is expected at %llu", (unsigned long long)v,
            (unsigned long long)(d.nextSibling() ? d.nextSibling()->startOffset() : 0));
        c.step();
    };
    for (auto v : boundaries())
        one(v);
    for (U64 v = 0; v < (vt::thorough() ? 70000u : 17000u); ++v)
        one(v);
    // truncated descriptors never exceed what is available
    for (U64 avail = 2 + len; avail < 40; ++avail)
        for (U64 v = 0; v < std::min<U64>(max, 300); ++v) {
            Bytes b("\x03", 1);
            for (int i = len - 1; i >= 0; --i)
                b += static_cast<char>((v >> (7 * i) & 0x7F) | (i ? 0x80 : 0));
            Mp4 f(b + Bytes(40, '\0'));
            Mpeg4Descriptor d(*f.container, 0, avail);
            d.parse(diag);
            c.check(d.totalSize() == std::min<U64>(avail, v + 1 + len) && d.dataSize() == d.totalSize() - 1 - len, "descriptor-truncated",
                "descriptor with %llu bytes of data where only %llu bytes are available: data size %llu", (unsigned long long)v, (unsigned long long)avail, (unsigned long long)d.dataSize());
            c.step();
        }
    c.state(len);
}

VT_SUITE(id3Sizes, 9)
{
    Diagnostics diag;
    // padding so that the tag size gets around the boundaries of synchsafe digits
    const int version = 2 + static_cast<int>(c.top % 3);
    const auto group = c.top / 3;
    std::vector<U64> sizes;
    for (int k : { 0, 7, 14, 21, 28 })
        for (int d = -3; d <= 3; ++d)
            if (k || d > 0)
                sizes.push_back((U64(1) << k) + static_cast<U64>(static_cast<std::int64_t>(d)));
    Id3v2Tag t;
    t.setVersion(static_cast<std::uint8_t>(version), 0);
    if (group == 0) { // sizes of tags
        t.setValue(KnownField::Title, TagValue("x", 1, TagTextEncoding::Latin1));
        const auto frames = t.prepareMaking(diag).requiredSize() - 10;
        for (U64 v = 0; v < 40000; ++v)
            sizes.push_back(v);
        for (auto v : sizes) {
            if (v < frames)
                continue;
            Count n;
            std::ostream s(&n);
            bool failed = false;
            try {
                t.make(s, static_cast<std::uint32_t>(v - frames), diag);
            } catch (const Failure &) {
                failed = true;
            }
            c.step();
            if (v >= U64(1) << 28) {
                c.check(failed, "id3-limit", "a tag with %llu bytes is written with the size denotation %s", (unsigned long long)v, hex(n.head.size() > 10 ? n.head.substr(6, 4) : "").c_str());
                continue;
            }
            c.check(!failed, "id3-rejected", "tag with %llu bytes is rejected", (unsigned long long)v);
            U64 got = 0;
            for (int i = 6; i < 10; ++i) {
                c.check(!(n.head[i] & 0x80), "id3-size", "size of tag with %llu bytes is not synchsafe", (unsigned long long)v);
                got = got << 7 | static_cast<unsigned char>(n.head[i]);
            }
            c.check(got == v && n.n == v + 10, "id3-size", "tag with %llu bytes: size is denoted as %llu, %llu bytes are written", (unsigned long long)v, (unsigned long long)got, (unsigned long long)n.n);
            if (v > 70000)
                continue;
            std::stringstream in(n.head.substr(0, 10) + n.head.substr(10, frames) + Bytes(v - frames, '\0'));
            Id3v2Tag r;
            r.parse(in, v + 10, diag);
            c.check(r.size() == v + 10 && r.paddingSize() == v - frames, "id3-read", "tag with %llu bytes is read with size %llu", (unsigned long long)v, (unsigned long long)r.size());
        }
    } else if (group == 1) { // sizes of frames
        for (std::size_t v = 1; v < 700; ++v)
            sizes.push_back(v);
        for (auto v : sizes) {
            if (v > (vt::thorough() ? 300000000u : 3000000u) || v < 3)
                continue;
            t.setValue(KnownField::Title, TagValue(Bytes(v - 2, 't'), TagTextEncoding::Latin1));
            std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
            Diagnostics d;
            std::unique_ptr<Id3v2TagMaker> m;
            try {
                m = std::make_unique<Id3v2TagMaker>(t.prepareMaking(d));
            } catch (const Failure &) {
                continue; // reported
            }
            try {
                m->make(s, 0, d);
            } catch (const Failure &) {
                c.check(v > 16000000, "id3-rejected", "frame with %llu bytes is rejected", (unsigned long long)v);
                continue;
            }
            const auto b = std::move(s).str();
            c.step();
            c.check(b.size() == m->requiredSize(), "id3-predicted", "tag with frame of %llu bytes: %zu bytes are written but %llu are predicted", (unsigned long long)v, b.size(),
                (unsigned long long)m->requiredSize());
            if (d.level() >= DiagLevel::Warning && b.size() <= 20)
                continue; // reported
            U64 got = 0;
            for (std::size_t i = version == 2 ? 13 : 14; i < (version == 2 ? 16u : 18u); ++i)
                got = got << (version == 4 ? 7 : 8) | static_cast<unsigned char>(b[i]);
            c.check(got == v && b.size() == v + (version == 2 ? 16 : 20), "id3-frame-size", "size of frame with %llu bytes is denoted as %llu, tag has %zu bytes", (unsigned long long)v,
                (unsigned long long)got, b.size());
            std::stringstream in(b);
            Id3v2Tag r;
            r.parse(in, b.size(), d);
            c.check(r.value(KnownField::Title).toString() == Bytes(v - 2, 't'), "id3-frame-read", "frame with %llu bytes is not read back", (unsigned long long)v);
        }
    } else { // several frames whose size together exceeds what can be represented
        if (!vt::thorough() && version != 4)
            c.skip();
        for (int over : { -1, 0, 1 }) {
            // 20 pictures of 2^28/20 bytes each
            Id3v2Tag big;
            big.setVersion(static_cast<std::uint8_t>(version), 0);
            const U64 overhead = version == 2 ? 6 + 6 : 10 + 1;
            const U64 total = (U64(1) << 28) + static_cast<U64>(static_cast<std::int64_t>(over));
            const int count = 20;
            U64 left = total;
            for (int i = 0; i < count; ++i) {
                const U64 part = i == count - 1 ? left : total / count;
                left -= part;
                Id3v2Frame frame(version == 2 ? 0x545432 : 0x54495432, TagValue());
                frame.value().assignText(Bytes(part - (version == 2 ? 7 : 11), 't'), TagTextEncoding::Latin1);
                // distinct ids
                const std::uint32_t id = version == 2 ? 0x545830 + static_cast<std::uint32_t>(i) : 0x54584100 + 0x41 + static_cast<std::uint32_t>(i);
                frame.setId(id);
                big.fields().emplace(id, std::move(frame));
            }
            (void)overhead;
            Diagnostics d;
            Count n;
            std::ostream s(&n);
            bool failed = false;
            try {
                big.make(s, 0, d);
            } catch (const Failure &) {
                failed = true;
            }
            c.step();
            if (failed) {
                c.check(over >= 0, "id3-rejected", "tag with %llu bytes is rejected", (unsigned long long)total);
                continue;
            }
            U64 got = 0;
            for (int i = 6; i < 10; ++i)
                got = got << 7 | (static_cast<unsigned char>(n.head[i]) & 0x7F);
            c.check(over < 0 || d.level() >= DiagLevel::Critical, "id3-dropped", "a frame of a tag which is too big is dropped silently");
            c.check(got + 10 == n.n, "id3-limit", "size of tag with %llu bytes is denoted as %llu", (unsigned long long)n.n - 10, (unsigned long long)got);
        }
    }
    c.state(c.top);
}

VT_SUITE(flacSizes, 3)
{
    if (c.top == 0) { // block headers: all sizes with every kind of block at the boundaries
        const auto one = [&](std::uint32_t v, std::uint8_t type, bool last) {
            FlacMetaDataBlockHeader h, r;
            h.setDataSize(v);
            h.setType(static_cast<FlacMetaDataBlockType>(type));
            h.setLast(last);
            char buf[8] = {};
            struct Buf : std::streambuf {
                Buf(char *b)
                {
                    setp(b, b + 8);
                }
                std::size_t used() const
                {
                    return static_cast<std::size_t>(pptr() - pbase());
                }
            } sb(buf);
            std::ostream s(&sb);
            h.makeHeader(s);
            const U64 got = static_cast<U64>(static_cast<unsigned char>(buf[1])) << 16 | static_cast<U64>(static_cast<unsigned char>(buf[2])) << 8 | static_cast<unsigned char>(buf[3]);
            if (sb.used() != 4 || got != v || static_cast<unsigned char>(buf[0]) != (type | (last ? 0x80 : 0)))
                c.fail("flac-header", "header of block %u with %u bytes is written as %s", type, v, hex(std::string_view(buf, 4)).c_str());
            r.parseHeader(std::string_view(buf, 4));
            if (r.dataSize() != v || r.type() != type || !r.isLast() == last)
                c.fail("flac-header-read", "header of block %u with %u bytes is read as block %u with %u bytes", type, v, r.type(), r.dataSize());
        };
        for (std::uint32_t v = 0; v < 0x1000000; v += vt::thorough() || v < 70000 || v > 0xFFFF00 ? 1 : 251)
            one(v, 4, v & 1);
        for (std::uint8_t t = 0; t < 127; ++t)
            for (auto v : boundaries())
                if (v < 0x1000000)
                    for (bool last : { false, true })
                        one(static_cast<std::uint32_t>(v), t, last);
        c.step(100000);
    } else if (c.top == 1) { // padding of files around the limit of the size denotation
        for (U64 pad : { U64(4), U64(5), U64(0xFFFF), U64(0xFFFFFF + 3), U64(0xFFFFFF + 4), U64(0xFFFFFF + 5), U64(0xFFFFFF + 8), U64(0xFFFFFF + 20), U64(0xFFFFFF * 2 + 9) }) {
            if (!vt::thorough() && pad > 0xFFFFFF + 8)
                continue;
            const std::vector<flac::Block> b{ { flac::StreamInfo, flac::streamInfo() }, { flac::Comment, vorbis::comment("vendor", { { "TITLE", "t" } }) } };
            const auto audio = flac::frames(500);
            const auto path = c.file("pad.flac");
            vt::writeFile(path, flac::blocks(b) + audio);
            {
                Session s(path);
                s.parse();
                Layout l;
                l.min = 0, l.max = l.preferred = pad, l.force = true;
                applyLayout(s.file, l);
                std::string what;
                c.check(save(c, s, &what), "flac-save", "saving with %llu bytes padding fails: %s", (unsigned long long)pad, what.c_str());
            }
            const auto out = vt::readFile(path);
            std::vector<flac::Block> blocks;
            std::size_t off = 0;
            try {
                off = flac::parse(c, out, 0, blocks);
            } catch (const vt::Fail &f) {
                c.fail("flac-padding", "saving with %llu bytes padding: %s", (unsigned long long)pad, f.msg.c_str());
            }
            c.check(out.substr(off) == audio, "flac-padding", "saving with %llu bytes padding: audio data is not found where the metadata is supposed to end", (unsigned long long)pad);
            U64 got = 0;
            for (auto &x : blocks)
                if (x.type == flac::Padding)
                    got += 4 + x.data.size();
            c.check(pad > 0xFFFFFF || (got >= pad && got <= pad + 4), "flac-padding-size", "saving with %llu bytes padding: file has %llu bytes padding", (unsigned long long)pad, (unsigned long long)got);
            vt::removeAllIn(c.scratch());
        }
    } else { // pictures
        Diagnostics diag;
        for (std::size_t n : { 0u, 1u, 255u, 256u, 65535u, 65536u, 0x1000000u })
            for (std::size_t d : { 0u, 1u, 300u }) {
                TagValue v(Bytes(n, 'p').data(), n, TagDataType::Picture);
                v.setMimeType("image/png");
                v.setDescription(Bytes(d, 'd'), TagTextEncoding::Utf8);
                FlacMetaDataBlockPicture p(v);
                Count k;
                std::ostream s(&k);
                p.make(s);
                c.check(k.n == p.requiredSize() && k.n == 32 + 9 + d + n, "flac-picture", "picture with %zu bytes takes %llu bytes but %u are predicted", n, (unsigned long long)k.n, p.requiredSize());
                c.step();
            }
    }
    c.state(c.top);
}

// structures with a predicted size: every length of a value around the boundaries
VT_SUITE(predicted, 5 * 3)
{
    const auto range = c.top % 3;
    const std::pair<std::size_t, std::size_t> ranges[] = { { 0, vt::thorough() ? 1500 : 450 }, { 16383 - 200, 16383 + 20 }, { 2097151 - (vt::thorough() ? 200 : 60), 2097151 + 6 } };
    Diagnostics diag;
    for (auto n = ranges[range].first; n != ranges[range].second; ++n)
        for (std::size_t kind = 0; kind != 3; ++kind) { // plain text, text with description and language, text beyond ASCII
            if (range == 2 && kind == 1)
                continue;
            TagValue v(kind == 2 && n > 1 ? Bytes(n / 2 * 2, '\xC3') : Bytes(n, 't'), TagTextEncoding::Utf8);
            if (kind == 2 && n > 1) {
                Bytes t;
                for (std::size_t i = 0; i + 1 < n; i += 2)
                    t += "\xC3\xA9";
                v.assignText(t, TagTextEncoding::Utf8);
            }
            if (kind == 1) {
                v.setDescription(Bytes(n % 200, 'd'), TagTextEncoding::Utf8);
                v.setLocale(Locale(std::string_view("ger"), LocaleFormat::ISO_639_2_B));
            }
            std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
            U64 predicted = 0;
            Bytes text = v.toString(TagTextEncoding::Utf8), got;
            switch (c.top / 3) {
            case 0: {
                MatroskaTag t;
                if (n)
                    t.setValue(KnownField::Title, v);
                t.setValue(KnownField::Artist, TagValue("a"));
                auto m = t.prepareMaking(diag);
                m.make(s);
                predicted = m.requiredSize();
                break;
            }
            case 1: {
                Mp4Tag t;
                if (n)
                    t.setValue(KnownField::Title, v);
                t.setValue(KnownField::Lyricist, TagValue("a"));
                auto m = t.prepareMaking(diag);
                m.make(s, diag);
                predicted = m.requiredSize();
                break;
            }
            case 2: {
                Id3v2Tag t;
                t.setVersion(static_cast<std::uint8_t>(2 + n % 3), 0);
                if (n)
                    t.setValue(KnownField::Title, v);
                t.setValue(KnownField::Artist, TagValue("a"));
                if (kind == 1)
                    t.setValue(KnownField::Comment, v);
                auto m = t.prepareMaking(diag);
                m.make(s, 0, diag);
                predicted = m.requiredSize();
                break;
            }
            case 3: {
                Mkv dummy("");
                MatroskaAttachment a;
                // data is taken from a stream
                std::stringstream data(Bytes(n, 'x'), std::ios_base::in | std::ios_base::out | std::ios_base::binary);
                a.setName(Bytes(n % 200, 'n'));
                a.setMimeType("text/plain");
                a.setDescription(kind ? Bytes((n * 7) % 150, 'd') : Bytes());
                a.setData(std::make_unique<StreamDataBlock>([&data]() -> std::istream & { return data; }, 0, std::ios_base::beg, static_cast<std::streamoff>(n), std::ios_base::beg));
                a.setId(5);
                auto m = a.prepareMaking(diag);
                m.make(s, diag);
                predicted = m.requiredSize();
                break;
            }
            default: {
                VorbisComment t;
                if (n)
                    t.setValue(KnownField::Title, v);
                t.make(s, VorbisCommentFlags::None, diag);
                const auto b = s.str();
                std::size_t used = 0;
                const auto d = vorbis::decode(c, std::string_view(b).substr(7), &used);
                predicted = used + 8;
                for (auto &e : d.second)
                    if (e.first == "TITLE")
                        got = e.second;
                c.check(got == (n ? text : ""), "vorbis", "value with %zu bytes is not read back", n);
            }
            }
            const auto b = std::move(s).str();
            c.step();
            c.check(b.size() == predicted, "predicted", "%zu bytes are written for a value with %zu bytes (kind %zu) but %llu are predicted", b.size(), n, kind, (unsigned long long)predicted);
            if (c.top / 3 == 0 || c.top / 3 == 3) {
                const auto nodes = ebml::decode(c, b); // fails when the sizes of nested elements do not add up
                c.check(nodes.size() == 1, "nesting", "value with %zu bytes: there are %zu elements instead of one", n, nodes.size());
            }
        }
    c.state(c.top);
}
