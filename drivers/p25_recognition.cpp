// P25: The container format of a file is recognised whatever precedes it.
#include "content.h"

#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/signature.h>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P25";
const char *vt::rule = "signatures: every signature with every byte replaced by every value, every pair of leading bytes and every buffer size; files: every format preceded by every sequence of ID3v2 tags, zero "
                       "bytes and junk up to the stated length (sizes around all limits), saved afterwards; every size an ID3v2 header may declare around the size of the file; files without known "
                       "signature; states = distinct (format, prefix, outcome)";
const char *vt::assumptions = "MP4 atoms start with zero bytes themselves so zero bytes before an MP4 file are excluded|an MPEG-1 layer I frame header with CRC is the same as the byte order mark of UTF-16 and taken for text|junk "
                              "is skipped up to 2 KiB";

namespace {
// ---- independent list of signatures: offset 0 unless denoted, in order of precedence
struct Sig {
    ContainerFormat format;
    Bytes bytes;
    std::size_t offset = 0;
    Bytes more = Bytes(); // further bytes
    std::size_t moreOffset = 0;
};
using F = ContainerFormat;
Bytes B(const char *s, std::size_t n)
{
    return Bytes(s, n);
}
const std::vector<Sig> &sigs()
{
    static const std::vector<Sig> s{
        { F::ApeTag, "APETAGEX" },
        { F::Ar, "!<arch>\n" },
        { F::Asf, "\x30\x26\xB2\x75\x8E\x66\xCF\x11" },
        { F::Png, "\x89PNG\r\n\x1A\n" },
        { F::YUV4Mpeg2, "YUV4MPEG2 " },
        { F::Mp4, "ftyp", 4 },
        { F::QuickTime, "moov", 4 },
        { F::Rar, B("Rar!\x1A\x07\0", 7) },
        { F::Gif87a, "GIF87a" },
        { F::Gif89a, "GIF89a" },
        { F::SevenZ, "7z\xBC\xAF\x27\x1C" },
        { F::Xz, B("\xFD"
                   "7zXZ\0",
              6) },
        { F::Aiff, B("FORM\0", 5) },
        { F::Dirac, "BBCD" },
        { F::Elf, "\x7F"
                  "ELF" },
        { F::Flac, "fLaC" },
        { F::Ivf, "DKIF" },
        { F::JavaClassFile, "\xCA\xFE\xBA\xBE" },
        { F::Ebml, "\x1A\x45\xDF\xA3" },
        { F::Midi, "MThd" },
        { F::MonkeysAudio, "MAC " },
        { F::Ogg, "OggS" },
        { F::PhotoshopDocument, "8BPS" },
        { F::RiffAvi, "RIFF", 0, "AVI LIST", 8 },
        { F::RiffWave, "RIFF", 0, "WAVE", 8 },
        { F::Riff, "RIFF" },
        { F::TiffBigEndian, B("MM\0*", 4) },
        { F::TiffLittleEndian, B("II*\0", 4) },
        { F::Utf32Text, B("\xFF\xFE\0\0", 4) },
        { F::WavPack, "wvpk" },
        { F::WindowsIcon, B("\0\0\x01\0", 4) },
        { F::Lzip, "LZIP" },
        { F::Zip, "PK\x03\x04" },
        { F::Zip, "PK\x05\x06" },
        { F::Zip, "PK\x07\x08" },
        { F::Zstd, "\x28\xB5\x2F\xFD" },
        { F::Bzip2, "BZh" },
        { F::FlashVideo, "FLV" },
        { F::Gzip, "\x1F\x8B\x08" },
        { F::Id3v2Tag, "ID3" },
        { F::Utf8Text, "\xEF\xBB\xBF" },
        { F::Ac3Frames, "\x0B\x77" },
        { F::Jpeg, "\xFF\xD8" },
        { F::Lha, "\x1F\xA0" },
        { F::Lzw, "\x1F\x9D" },
        { F::PortableExecutable, "MZ" },
        { F::Utf16Text, "\xFF\xFE" },
        { F::WindowsBitmap, "BM" },
    };
    return s;
}
// the second ASF-like signature the library knows is not checked
F reference(const Bytes &b)
{
    for (auto &s : sigs())
        if (b.size() >= s.offset + s.bytes.size() && b.compare(s.offset, s.bytes.size(), s.bytes) == 0 && (s.more.empty() || (b.size() >= s.moreOffset + s.more.size() && b.compare(s.moreOffset, s.more.size(), s.more) == 0)))
            return s.format;
    if (b.size() >= 2 && static_cast<unsigned char>(b[0]) == 0xFF) {
        const auto x = static_cast<unsigned char>(b[1]);
        if ((x & 0xF6) == 0xF0)
            return F::Adts;
        if ((x & 0xE0) == 0xE0)
            return F::MpegAudioFrames;
    }
    return F::Unknown;
}
bool startsAnything(const Bytes &b)
{
    return reference(b) != F::Unknown;
}
const char *formatName(F f)
{
    static Bytes n[4];
    static int i = 0;
    auto &s = n[i++ % 4];
    s = Bytes(containerFormatName(f)) + fmt("(%d)", static_cast<int>(f));
    return s.c_str();
}
// ---- files
Bytes wav(std::size_t n)
{
    return "RIFF" + LE(n + 36, 4) + "WAVEfmt " + LE(16, 4) + LE(1, 2) + LE(2, 2) + LE(44100, 4) + LE(44100 * 4, 4) + LE(4, 2) + LE(16, 2) + "data" + LE(n, 4) + filler(n, 3);
}
Bytes ivf(std::size_t n)
{
    return "DKIF" + LE(0, 2) + LE(32, 2) + "VP80" + LE(320, 2) + LE(240, 2) + LE(30, 4) + LE(1, 4) + LE(1, 4) + LE(0, 4) + LE(n, 4) + LE(0, 8) + filler(n, 4);
}
Bytes webm(std::size_t n)
{
    auto f = fmts::mkvSpec("SITHGCKK", n, "title");
    f.docType = "webm";
    return mkv::build(f);
}
struct Kind {
    const char *name;
    F format;
    int id; // fmts::Id or -1
    Bytes (*make)(std::size_t);
    const char *abbreviation;
    bool tracks, tags;
};
template <fmts::Id id> Bytes supported(std::size_t n)
{
    return fmts::formats[id].make(n, "title", 0);
}
Bytes mp3Only(std::size_t n)
{
    return mp3::audio(n) + mp3::v1("title", "artist");
}
Bytes quickTime(std::size_t n)
{
    return mp4::build(fmts::mp4Spec("md", n, "title", 0));
}
const std::vector<Kind> kinds{
    { "MP3", F::MpegAudioFrames, fmts::Mp3, mp3Only, "mp3", true, true },
    { "FLAC", F::Flac, fmts::Flac, supported<fmts::Flac>, "flac", true, true },
    { "MP4", F::Mp4, fmts::Mp4, supported<fmts::Mp4>, "m4a", true, true },
    { "MP4 (moov last)", F::Mp4, fmts::Mp4Back, supported<fmts::Mp4Back>, "m4a", true, true },
    { "MP4 (fragmented)", F::Mp4, fmts::Mp4Dash, supported<fmts::Mp4Dash>, "m4a", true, true },
    { "Matroska", F::Matroska, fmts::Mkv, supported<fmts::Mkv>, nullptr, true, true },
    { "Matroska (tags last)", F::Matroska, fmts::MkvBack, supported<fmts::MkvBack>, nullptr, true, true },
    { "Ogg/Vorbis", F::Ogg, fmts::Vorbis, supported<fmts::Vorbis>, "ogg", true, true },
    { "Ogg/Opus", F::Ogg, fmts::Opus, supported<fmts::Opus>, "opus", true, true },
    { "WebM", F::Webm, -1, webm, nullptr, true, true },
    { "QuickTime", F::QuickTime, -1, quickTime, "mov", true, true },
    { "ADTS", F::Adts, -1, mp3::adts, nullptr, true, false },
    { "WAVE", F::RiffWave, -1, wav, "wav", true, false },
    { "IVF", F::Ivf, -1, ivf, "ivf", true, false },
};
struct Item {
    int kind; // 0 = ID3v2, 1 = zero bytes, 2 = junk
    std::size_t size;
    bool footer = false;
    int version = 4;
};
Bytes make(const Item &i)
{
    switch (i.kind) {
    case 0: return mp3::tag(i.version, mp3::textFrame(i.version, "TT2", "TIT2", "other"), i.size, i.footer);
    case 1: return Bytes(i.size, '\0');
    default: return Bytes(i.size, 'x');
    }
}
std::vector<Item> items(bool deep)
{
    std::vector<Item> r;
    const std::size_t base = 10 + 1 + 5; // size of frames
    for (std::size_t n : { std::size_t(0), 127 - base, 128 - base, std::size_t(1000) })
        for (int v : { 2, 3, 4 })
            if (v == 4 || n == 0 || deep)
                r.push_back({ 0, n, false, v });
    r.push_back({ 0, 0, true, 4 });
    r.push_back({ 0, 300, true, 4 });
    if (deep)
        for (std::size_t n : { 16383 - base, 16384 - base, 2097151 - base, 2097152 - base })
            r.push_back({ 0, n, false, 4 });
    for (std::size_t n : { 1, 2, 3, 4, 5, 12, 15, 16, 17, 100, 2047, 2048, 2049 })
        r.push_back({ 1, n });
    for (std::size_t n : { 1, 2, 15, 16, 17, 2047, 2048 })
        r.push_back({ 2, n });
    return r;
}
struct Parsed {
    bool thrown = false;
    Bytes what;
};
Parsed parseAll(Session &s)
{
    Parsed p;
    try {
        s.parse(true);
    } catch (const std::exception &e) {
        p.thrown = true;
        p.what = e.what();
    }
    return p;
}
} // namespace

VT_SUITE(signatures, sigs().size())
{
    const auto &s = sigs()[c.top];
    Bytes exact(16, 'z');
    exact.replace(s.offset, s.bytes.size(), s.bytes);
    if (!s.more.empty())
        exact.replace(s.moreOffset, s.more.size(), s.more);
    const auto fill = c.choose(3, "filler");
    for (std::size_t i = 0; i != 16; ++i)
        if (!(i >= s.offset && i < s.offset + s.bytes.size()) && !(i >= s.moreOffset && i < s.moreOffset + s.more.size()))
            exact[i] = fill == 0 ? 'z' : fill == 1 ? '\0' : '\xFF';
    const auto at = c.choose(16, "position");
    for (int v = 0; v < 256; ++v) {
        auto b = exact;
        b[at] = static_cast<char>(v);
        for (std::size_t n = 8; n <= 16; ++n) {
            const auto x = b.substr(0, n);
            const auto got = parseSignature(x), want = reference(x);
            c.step();
            c.check(got == want, "signature", "%s is taken for %s instead of %s", hex(x).c_str(), formatName(got), formatName(want));
            c.check(parseSignature(x.data(), x.size()) == got, "signature", "overloads of parseSignature() differ");
        }
        // small buffers: must not be taken for something else
        for (std::size_t n = 0; n < 8; ++n) {
            const auto got = parseSignature(b.substr(0, n));
            const auto x = b.substr(0, n / 4 ? 4 : n / 2 * 2); // remaining bytes may be ignored
            const auto want = reference(x);
            c.step();
            bool compatible = got == F::Unknown || got == want;
            for (auto &k : sigs())
                compatible = compatible || (k.format == got && x.size() > k.offset && (k.bytes + Bytes(16, '\0')).compare(0, x.size() - k.offset, x, k.offset, Bytes::npos) == 0);
            c.check(compatible, "small-buffer", "%s is taken for %s", hex(x).c_str(), formatName(got));
            for (auto &k : sigs())
                if (k.format == want && !k.offset && (k.bytes.size() == 2 || (k.bytes.size() == 4 && n >= 4)) && want != F::Riff && want != F::Utf16Text)
                    c.check(got == want, "small-buffer", "%s is taken for %s instead of %s", hex(x).c_str(), formatName(got), formatName(want));
        }
    }
    c.state(c.top * 100 + fill * 16 + at);
}

// all pairs of leading bytes
VT_SUITE(leading, 256)
{
    const char *const rest[] = { "zzzzzzzzzzzzzz", "\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF", "aC1234ftyp1234", "D34567moov9012" };
    const auto k = c.choose(5, "rest");
    for (int v = 0; v < 256; ++v) {
        const Bytes x = Bytes(1, static_cast<char>(c.top)) + Bytes(1, static_cast<char>(v)) + (k < 4 ? Bytes(rest[k]) : Bytes(14, '\0'));
        const auto got = parseSignature(x), want = reference(x);
        c.step();
        c.check(got == want, "signature", "%s is taken for %s instead of %s", hex(x).c_str(), formatName(got), formatName(want));
    }
    c.state(c.top * 5 + k);
}

VT_SUITE(prefixes, kinds.size() * 4)
{
    const auto &k = kinds[c.top / 4];
    const auto depth = c.top % 4;
    if (depth == 3 && !vt::thorough())
        c.skip();
    static const auto shallow = items(true), deep = items(false);
    Bytes prefix;
    std::size_t skipped = 0, tags = 0, pending = 0;
    bool small = false; // whether fewer than 4 zero bytes or junk are involved
    for (std::size_t i = 0; i != depth; ++i) {
        const auto &item = c.pickFrom(depth == 1 ? shallow : deep, "item");
        if (item.kind && (k.format == F::Mp4 || k.format == F::QuickTime) && item.kind == 1)
            c.skip();
        if (item.kind == 0)
            ++tags;
        else
            skipped += item.size;
        small = small || item.kind;
        prefix += make(item);
    }
    (void)pending;
    const auto make = [&](std::size_t base) {
        switch (k.id) {
        case fmts::Mp4: return fmts::makeMp4At(base, "fmd", 400, "title");
        case fmts::Mp4Back: return fmts::makeMp4At(base, "fdm", 400, "title");
        case fmts::Mp4Dash: return fmts::makeMp4At(base, "fmiodod", 400, "title");
        default: return k.make(400);
        }
    };
    const auto container = make(prefix.size());
    // bytes of the prefix together with following bytes must not look like a signature themselves
    const auto whole = prefix + container;
    if (small) {
        std::size_t at = 0;
        bool misleading = false;
        while (at < prefix.size()) {
            if (whole.compare(at, 3, "ID3") == 0) {
                at += 10 + rdSyncsafe(whole, at + 6) + (whole[at + 5] & 0x10 ? 10 : 0);
                continue;
            }
            misleading = misleading || startsAnything(whole.substr(at, 16));
            ++at;
        }
        if (misleading)
            c.skip();
    }
    const auto path = c.file((Bytes("f") + (k.id >= 0 ? fmts::formats[k.id].ext : ".bin")).c_str());
    vt::writeFile(path, whole);
    Session s(path);
    const auto p = parseAll(s);
    c.step();
    const auto what = fmt("%s preceded by %zu bytes (%zu tags, %zu skipped)", k.name, prefix.size(), tags, skipped);
    c.check(!p.thrown, "thrown", "%s: %s", what.c_str(), p.what.c_str());
    c.state(vt::hashStr(what, skipped >= 0x800));
    if (skipped >= 0x800) { // out of reach
        c.check(s.file.containerFormat() == F::Unknown, "junk", "%s: recognised as %s", what.c_str(), formatName(s.file.containerFormat()));
        c.check(!s.file.container() && !s.file.trackCount() && s.file.containerParsingStatus() == ParsingStatus::NotSupported, "junk", "%s: not recognised but there is a container or tracks", what.c_str());
        return;
    }
    c.check(s.file.containerFormat() == k.format, "format", "%s: recognised as %s", what.c_str(), formatName(s.file.containerFormat()));
    c.check(static_cast<std::size_t>(s.file.containerOffset()) == prefix.size(), "offset", "%s: container is said to start at %zu", what.c_str(), static_cast<std::size_t>(s.file.containerOffset()));
    c.check(s.file.containerParsingStatus() == ParsingStatus::Ok, "status", "%s: container parsing status is %d", what.c_str(), static_cast<int>(s.file.containerParsingStatus()));
    c.check(s.file.id3v2Tags().size() == tags, "id3v2", "%s: %zu ID3v2 tags found", what.c_str(), s.file.id3v2Tags().size());
    for (auto &t : s.file.id3v2Tags())
        c.check(t->value(KnownField::Title).toString(TagTextEncoding::Utf8) == "other", "id3v2", "%s: ID3v2 tag has wrong title", what.c_str());
    c.check(!k.tracks || (s.file.tracksParsingStatus() == ParsingStatus::Ok && s.file.trackCount()), "tracks", "%s: tracks are not parsed: %s", what.c_str(), Bytes(s.diag.empty() ? "" : s.diag.back().message()).c_str());
    if (k.id != fmts::Mp3 && k.tags) {
        c.check(s.file.tagsParsingStatus() == ParsingStatus::Ok, "tags", "%s: tags parsing status is %d", what.c_str(), static_cast<int>(s.file.tagsParsingStatus()));
        bool found = false;
        for (auto *t : s.file.tags())
            found = found || (t->type() != TagType::Id3v2Tag && t->value(KnownField::Title).toString(TagTextEncoding::Utf8) == "title");
        c.check(found, "tags", "%s: the tag of the container is not found", what.c_str());
    }
    if (k.id == fmts::Mp3)
        c.check(s.file.id3v1Tag(), "tags", "%s: the ID3v1 tag is not found", what.c_str());
    if (k.abbreviation)
        c.check(s.file.containerFormatAbbreviation() == k.abbreviation || (k.format == F::Mp4 && s.file.containerFormatAbbreviation() == "mp4"), "abbreviation", "%s: abbreviation is %s", what.c_str(),
            Bytes(s.file.containerFormatAbbreviation()).c_str());
    s.file.close();
    c.check(vt::readFile(path) == whole, "modified", "%s: the file has been modified", what.c_str());
    // save (prefixes of one item)
    if (k.id < 0 || depth > 1 || prefix.size() > 40000)
        return;
    Layout l;
    l.force = c.flip("force rewrite");
    l.preferred = 64;
    if (!l.force && c.flip("large limits"))
        l.max = 4096;
    Session w(path);
    w.parse();
    fmts::setTitle(w.file, "new title");
    applyLayout(w.file, l);
    Bytes error;
    const bool ok = save(c, w, &error);
    w.file.close();
    c.check(ok, "save", "%s: %s: unable to save: %s (%s)", what.c_str(), str(l).c_str(), error.c_str(), [&] { static Bytes all; all.clear(); for (auto &m : w.diag) if (m.level() >= DiagLevel::Critical) all += m.message() + " / "; return all.c_str(); }());
    const auto saved = vt::readFile(path);
    vt::removeAllIn(c.scratch());
    const auto before = fmts::content(c, static_cast<fmts::Id>(k.id), make(0));
    const auto id = static_cast<fmts::Id>(k.id);
    const auto after = fmts::content(c, id, saved);
    if (id == fmts::Mp3 || id == fmts::Vorbis || id == fmts::Opus || id == fmts::Flac)
        c.check(before.rest == after.rest || (id == fmts::Mp3 && after.rest == fmts::content(c, id, whole).rest), "saved", "%s: %s: media has changed from %s to %s", what.c_str(), str(l).c_str(), before.rest.c_str(), after.rest.c_str());
    else
        c.check(before.rest == after.rest, "saved", "%s: %s: media or tracks have changed from %s to %s", what.c_str(), str(l).c_str(), before.rest.c_str(), after.rest.c_str());
    std::size_t news = 0;
    for (auto &t : after.titles)
        news += t == "new title";
    c.check(news >= 1, "saved", "%s: %s: the new title is not in the saved file", what.c_str(), str(l).c_str());
}

// the size an ID3v2 header declares
VT_SUITE(declaredSize, 3 * 6)
{
    const auto kind = c.top % 6;
    const auto version = 2 + static_cast<int>(c.top / 6);
    const Bytes audio = kind == 0 ? Bytes() : kind == 1 ? mp3::audio(5) : kind == 2 ? mp3::audio(600) : kind == 3 ? fmts::formats[fmts::Flac].make(300, "title", 0) : kind == 4 ? fmts::formats[fmts::Vorbis].make(300, "title", 0) : mp3Only(600);
    auto tag = mp3::tag(version, mp3::textFrame(version, "TT2", "TIT2", "other"), 20);
    const auto actual = rdSyncsafe(tag, 6);
    const auto total = tag.size() + audio.size();
    const bool footer = version == 4 && c.flip("footer flag");
    std::set<std::uint32_t> sizes;
    for (std::uint32_t n = 0; n <= 60; ++n)
        sizes.insert(n);
    for (std::int64_t d = -140; d <= 40; ++d)
        if (static_cast<std::int64_t>(total) + d - 10 > 0)
            sizes.insert(static_cast<std::uint32_t>(static_cast<std::int64_t>(total) + d - 10));
    for (std::uint32_t n : { 0x7Fu, 0x80u, 0x3FFFu, 0x4000u, 0x1FFFFFu, 0x200000u, 0x0FFFFFFFu, 0x0FFFFFF5u, 0x0FFFFFF6u })
        sizes.insert(n);
    const std::vector<std::uint32_t> all(sizes.begin(), sizes.end());
    const auto declared = c.pickFrom(all, "declared size");
    tag.replace(6, 4, syncsafe(declared));
    if (footer)
        tag[5] = static_cast<char>(tag[5] | 0x10);
    const auto whole = tag + audio;
    const auto path = c.file("f.mp3");
    vt::writeFile(path, whole);
    Session s(path);
    const auto p = parseAll(s);
    c.step();
    const auto what = fmt("ID3v2.%d header declaring %u bytes%s in a file of %zu bytes", version, declared, footer ? " and a footer" : "", whole.size());
    c.check(!p.thrown, "thrown", "%s: %s", what.c_str(), p.what.c_str());
    c.check(static_cast<std::uint64_t>(s.file.containerOffset()) <= whole.size() + 0x10000000ull + 20, "offset", "container offset");
    if (declared == actual && !footer && !audio.empty() && audio.size() > 16)
        c.check(s.file.containerFormat() == (kind == 3 ? F::Flac : kind == 4 ? F::Ogg : F::MpegAudioFrames), "format", "%s: recognised as %s", what.c_str(), formatName(s.file.containerFormat()));
    if (declared + 10 > whole.size()) {
        c.check(s.file.containerFormat() == F::Id3v2Tag || s.file.containerFormat() == F::Unknown, "format", "%s: recognised as %s", what.c_str(), formatName(s.file.containerFormat()));
        c.check(s.file.tagsParsingStatus() != ParsingStatus::Ok || !s.file.id3v2Tags().empty(), "tags", "%s: no tag and no error", what.c_str());
    }
    c.check(s.file.effectiveSize() <= whole.size(), "effective-size", "%s: effective size is %llu", what.c_str(), static_cast<unsigned long long>(s.file.effectiveSize()));
    c.check(s.file.tagsParsingStatus() != ParsingStatus::NotParsedYet && s.file.containerParsingStatus() != ParsingStatus::NotParsedYet, "status", "%s: status is not set", what.c_str());
    s.file.close();
    c.check(vt::readFile(path) == whole, "modified", "%s: the file has been modified", what.c_str());
    c.state(vt::hashStr(what, static_cast<unsigned>(s.file.containerFormat())));
}

// what follows the media data
Bytes apeTag(std::size_t content, bool header, std::uint32_t moreFlags)
{
    const auto part = [&](std::uint32_t flags) { return Bytes("APETAGEX") + LE(2000, 4) + LE(content + 32, 4) + LE(content ? 1 : 0, 4) + LE(flags, 4) + Bytes(8, '\0'); };
    const std::uint32_t flags = (header ? 0x80000000u : 0u) | moreFlags;
    return (header ? part(flags | 0x20000000u) : Bytes()) + Bytes(content, 'a') + part(flags);
}
VT_SUITE(trailing, 4 * 2 * 2)
{
    const auto kind = c.top % 4, front = c.top / 4 % 2, id3v1 = c.top / 8;
    const auto media = kind == 0 ? mp3::audio(2000) : kind == 1 ? mp3::audio(600) : kind == 2 ? Bytes(3000, 'x') : fmts::formats[fmts::Flac].make(300, "title", 0);
    const auto prefix = front ? mp3::tag(3, mp3::textFrame(3, "TT2", "TIT2", "other"), 20) : Bytes();
    Bytes trailer;
    auto what = fmt("media %zu bytes, %s", media.size(), front ? "ID3v2 tag" : "");
    if (c.flip("APE")) {
        static const std::size_t sizes[] = { 0, 1, 33, 200 };
        static const std::uint32_t more[] = { 0, 0x40000000u, 1, 0x1FFFFFFEu };
        const auto n = c.pick(sizes, "APE size");
        const auto header = c.flip("APE header");
        const auto flags = c.pick(more, "APE flags");
        trailer += apeTag(n, header, flags);
        what += fmt(", APE tag with %zu bytes%s, flags %x", n, header ? " and header" : "", flags);
    }
    if (id3v1) {
        trailer += Bytes("TAGold title") + Bytes(128 - 12, '\0');
        what += ", ID3v1 tag";
    }
    const auto whole = prefix + media + trailer;
    const auto path = c.file("f.mp3");
    vt::removeAllIn(c.scratch());
    vt::writeFile(path, whole);
    Session s(path);
    const auto p = parseAll(s);
    c.step();
    c.check(!p.thrown, "thrown", "%s: %s", what.c_str(), p.what.c_str());
    c.check(s.file.effectiveSize() == media.size(), "effective-size", "%s: effective size is %llu", what.c_str(), static_cast<unsigned long long>(s.file.effectiveSize()));
    c.check(static_cast<std::size_t>(s.file.containerOffset()) == prefix.size(), "offset", "%s: container is said to start at %zu", what.c_str(), static_cast<std::size_t>(s.file.containerOffset()));
    c.check((s.file.id3v1Tag() != nullptr) == (id3v1 != 0), "tags", "%s: wrong ID3v1 tag", what.c_str());
    s.file.close();
    c.check(vt::readFile(path) == whole, "modified", "%s: the file has been modified", what.c_str());
    c.state(vt::hashStr(what));
}
// content which is none of the supported formats
VT_SUITE(foreign, 256 + sigs().size() + 7)
{
    Bytes content;
    F expected = F::Unknown;
    if (c.top < 256) {
        static const std::vector<std::size_t> sizes{ 0, 1, 15, 16, 17, 31, 127, 128, 263, 264, 265, 2047, 2048, 2049, 2063, 2064, 2065, 4100 };
        const auto n = c.pickFrom(sizes, "size");
        const auto second = c.choose(vt::thorough() ? 256 : 8, "second byte");
        content = Bytes(n, static_cast<char>(c.top));
        for (std::size_t i = 1; i < n; i += 2)
            content[i] = static_cast<char>(vt::thorough() ? second : (second * 36));
        for (std::size_t i = 0; i < 2 && i < n; ++i)
            if (startsAnything((content + Bytes(16, 'z')).substr(i, 16)))
                c.skip();
    } else if (c.top >= 256 + sigs().size()) {
        // the signature of tar is only at offset 0x101; one byte is altered
        const auto altered = c.top - 256 - sigs().size();
        static const std::size_t sizes[] = { 0x108, 0x109, 512, 2100, 3000, 0x107, 0x106, 0x102 };
        const auto size = c.pick(sizes, "size");
        content = Bytes(std::max<std::size_t>(size, 0x107), c.flip("text") ? 'z' : '\x05');
        content.replace(0x101, 6, Bytes("ustar\0", 6));
        if (altered < 6)
            content[0x101 + altered] = static_cast<char>(content[0x101 + altered] ^ (1 << c.choose(8, "bit")));
        else if (size > 0x107)
            expected = F::Tar;
        content.resize(size);
    } else {
        const auto &g = sigs()[c.top - 256];
        expected = g.format;
        switch (expected) { // formats which are supported or not unique enough
        case F::Mp4: case F::QuickTime: case F::Ebml: case F::Ogg: case F::Flac: case F::Ivf: case F::RiffWave: case F::Id3v2Tag: case F::ApeTag: case F::Aiff: case F::WavPack:
            c.skip();
        default:;
        }
        content = Bytes(c.flip("long") ? 3000 : 20, 'z');
        content.replace(g.offset, g.bytes.size(), g.bytes);
        if (!g.more.empty())
            content.replace(g.moreOffset, g.more.size(), g.more);
    }
    const auto path = c.file("f.bin");
    vt::writeFile(path, content);
    Session s(path);
    try {
        s.parse();
    } catch (const std::exception &e) {
        c.fail("thrown", "parsing %zu bytes: %s", content.size(), e.what());
    }
    c.step();
    c.check(s.file.containerFormat() == expected, "foreign", "%zu bytes starting with %s are taken for %s", content.size(), hex(content.substr(0, 16)).c_str(), formatName(s.file.containerFormat()));
    c.check(!s.file.container() && !s.file.trackCount() && s.file.tags().empty(), "foreign", "there are tracks or tags in foreign content");
    c.check(s.file.tracksParsingStatus() == ParsingStatus::NotSupported && s.file.tagsParsingStatus() == ParsingStatus::NotSupported, "status", "parsing status of foreign content is %d/%d",
        static_cast<int>(s.file.tracksParsingStatus()), static_cast<int>(s.file.tagsParsingStatus()));
    TagCreationSettings settings;
    settings.flags = settings.flags; // default: unknown files are not treated as MP3 files
    c.check(!s.file.createAppropriateTags(settings) && s.file.tags().empty(), "refused", "tags are created for foreign content");
    try {
        s.file.applyChanges(s.diag, s.progress);
    } catch (const std::exception &) {
    }
    s.file.close();
    c.check(vt::readFile(path) == content, "modified", "the file has been modified");
    vt::removeAllIn(c.scratch());
    c.state(vt::hashStr(content.substr(0, 16), content.size()));
}
