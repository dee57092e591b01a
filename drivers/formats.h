// a small file of every supported (writable) format, for drivers which explore behaviour common to all formats
#pragma once
#include "flac.h"
#include "mkvfile.h"
#include "mp3.h"
#include "mp4file.h"
#include "oggfile.h"
#include "save.h"

namespace fmts {
using ref::Bytes;
struct Format {
    const char *name;
    const char *ext;
    Bytes (*make)(std::size_t media, const Bytes &title, std::size_t padding);
    bool rewriteOnly; // whether saving always rewrites the whole file
};
inline std::vector<std::size_t> split(std::size_t n)
{
    return { n / 4 + 1, n / 4 + 3, n / 4 + 2, n / 4 };
}
inline Bytes makeMp3(std::size_t media, const Bytes &title, std::size_t padding)
{
    return mp3::tag(3, mp3::textFrame(3, "TT2", "TIT2", title) + mp3::textFrame(3, "TP1", "TPE1", "artist"), padding) + mp3::audio(media) + mp3::v1(title.substr(0, 30), "artist");
}
inline Bytes makeFlac(std::size_t media, const Bytes &title, std::size_t padding)
{
    std::vector<flac::Block> b{ { flac::StreamInfo, flac::streamInfo() }, { flac::SeekTable, ref::filler(36, 5) },
        { flac::Comment, vorbis::comment("vendor", { { "ARTIST", "artist" }, { "TITLE", title } }) } };
    if (padding >= 4)
        b.push_back({ flac::Padding, Bytes(padding - 4, '\0') });
    return flac::blocks(b) + flac::frames(media);
}
inline mp4::File mp4Spec(const char *order, std::size_t media, const Bytes &title, std::size_t padding)
{
    mp4::File f;
    f.order = order;
    f.title = title;
    f.freeSize = std::max<std::size_t>(padding, 8);
    mp4::TrackSpec t, v;
    for (auto n : split(media / 2)) {
        t.chunks.push_back({ n, 7 });
        v.chunks.push_back({ n });
    }
    f.tracks = { t, v };
    if (f.order.find('o') != std::string::npos) {
        f.tracks[0].chunks.clear();
        f.tracks[1].chunks.clear();
        f.fragments.resize(static_cast<std::size_t>(std::count(f.order.begin(), f.order.end(), 'o')));
        for (auto &g : f.fragments)
            g.samples = { media / 2 / f.fragments.size() + 1, media / 2 / f.fragments.size() + 2 };
    }
    return f;
}
inline Bytes makeMp4(std::size_t media, const Bytes &title, std::size_t padding)
{
    return mp4::build(mp4Spec(padding ? "fmFd" : "fmd", media, title, padding));
}
inline Bytes makeMp4Back(std::size_t media, const Bytes &title, std::size_t padding)
{
    return mp4::build(mp4Spec(padding ? "fFdm" : "fdm", media, title, padding));
}
inline Bytes makeMp4Dash(std::size_t media, const Bytes &title, std::size_t padding)
{
    return mp4::build(mp4Spec(padding ? "fmFiodod" : "fmiodod", media, title, padding));
}
inline mkv::File mkvSpec(const char *order, std::size_t media, const Bytes &title)
{
    mkv::File f;
    f.segments.emplace_back();
    auto &s = f.segments[0];
    s.order = order;
    s.tagTitle = title;
    const auto n = static_cast<std::size_t>(std::count(s.order.begin(), s.order.end(), 'K'));
    for (std::size_t i = 0; i < n; ++i) {
        s.clusters.emplace_back();
        s.clusters.back().timecode = i * 1000;
        s.clusters.back().blocks = { media / n / 2 + i, media / n / 2 + 1 };
    }
    return f;
}
inline Bytes makeMkv(std::size_t media, const Bytes &title, std::size_t padding)
{
    auto f = mkvSpec(padding ? "SITVHGACKKK" : "SITHGACKKK", media, title);
    f.segments[0].voidSize = std::max<std::size_t>(padding, 2);
    return mkv::build(f);
}
inline Bytes makeMkvBack(std::size_t media, const Bytes &title, std::size_t padding)
{
    auto f = mkvSpec(padding ? "SVITHKKKCAG" : "SITHKKKCAG", media, title);
    f.segments[0].voidSize = std::max<std::size_t>(padding, 2);
    return mkv::build(f);
}
inline ogg::Stream oggStream(int kind, std::uint32_t serial, std::size_t media, const Bytes &title)
{
    ogg::Stream s;
    s.kind = kind;
    s.serial = serial;
    s.headers = kind == ogg::Vorbis ? 3 : 2;
    s.packets.push_back({ ogg::identification(kind), 0 });
    s.packets.push_back({ ogg::commentPacket(kind, "vendor", { { "ARTIST", "artist" }, { "TITLE", title } }), 0 });
    if (kind == ogg::Vorbis)
        s.packets.push_back({ "\x05vorbis" + ref::filler(300, 5), 0 });
    ogg::Granule g = 0;
    for (std::size_t n = 0, i = 0; n < media; n += 1000, ++i)
        s.packets.push_back({ ref::filler(1000 + i, 50 + static_cast<unsigned>(i)), g += 960 });
    return s;
}
inline Bytes makeOgg(int kind, std::size_t media, const Bytes &title)
{
    ogg::Paging paging;
    paging.perPage = 16;
    Bytes b;
    for (auto &p : ogg::paginate(oggStream(kind, 77, media, title), paging))
        b += ogg::str(p);
    return b;
}
inline Bytes makeVorbis(std::size_t media, const Bytes &title, std::size_t)
{
    return makeOgg(ogg::Vorbis, media, title);
}
inline Bytes makeOpus(std::size_t media, const Bytes &title, std::size_t)
{
    return makeOgg(ogg::Opus, media, title);
}
// a file of an MP4 format for being appended to base bytes
inline Bytes makeMp4At(std::size_t base, const char *order, std::size_t media, const Bytes &title)
{
    auto f = mp4Spec(order, media, title, 0);
    f.base = base;
    return mp4::build(f);
}
enum Id { Mp3, Flac, Mp4, Mp4Back, Mp4Dash, Mkv, MkvBack, Vorbis, Opus, Count };
inline const Format formats[Count] = { { "MP3", ".mp3", makeMp3, false }, { "FLAC", ".flac", makeFlac, false }, { "MP4", ".m4a", makeMp4, false }, { "MP4 (moov last)", ".m4a", makeMp4Back, false },
    { "MP4 (fragmented)", ".mp4", makeMp4Dash, false }, { "Matroska", ".mkv", makeMkv, false }, { "Matroska (tags last)", ".mkv", makeMkvBack, false }, { "Ogg/Vorbis", ".ogg", makeVorbis, true },
    { "Ogg/Opus", ".opus", makeOpus, true } };
// returns the ranges of the file which hold the actual media data
using Ranges = std::vector<std::pair<std::size_t, std::size_t>>;
inline Ranges mediaRanges(Id id, const Bytes &b)
{
    const auto byte = [&b](std::size_t i) { return i < b.size() ? static_cast<std::size_t>(static_cast<unsigned char>(b[i])) : 0; };
    const auto be = [&byte](std::size_t at, std::size_t n) {
        std::size_t r = 0;
        for (std::size_t k = 0; k < n; ++k)
            r = r << 8 | byte(at + k);
        return r;
    };
    const auto vint = [&byte](std::size_t &at, bool keepMarker) {
        std::size_t n = 1;
        while (n < 8 && !(byte(at) & (0x100u >> n)))
            ++n;
        std::size_t r = keepMarker ? byte(at) : byte(at) & ((0x100u >> n) - 1);
        for (std::size_t k = 1; k < n; ++k)
            r = r << 8 | byte(at + k);
        at += n;
        return r;
    };
    Ranges r;
    std::size_t at = 0;
    if (b.compare(0, 3, "ID3") == 0)
        at = 10 + (byte(6) << 21 | byte(7) << 14 | byte(8) << 7 | byte(9));
    switch (id) {
    case Mp3:
        r.emplace_back(at, b.size() - (b.size() >= 128 && b.compare(b.size() - 128, 3, "TAG") == 0 ? 128 : 0));
        break;
    case Flac:
        for (at += 4; at < b.size();) {
            const auto head = byte(at);
            at += 4 + be(at + 1, 3);
            if (head & 0x80)
                break;
        }
        r.emplace_back(at, b.size());
        break;
    case Mp4:
    case Mp4Back:
    case Mp4Dash:
        for (std::size_t size; at + 8 <= b.size(); at += size) {
            size = be(at, 4);
            if (size == 1)
                size = be(at + 8, 8);
            else if (!size)
                size = b.size() - at;
            if (size < 8)
                break;
            if (b.compare(at + 4, 4, "mdat") == 0)
                r.emplace_back(at, std::min(at + size, b.size()));
        }
        break;
    case Mkv:
    case MkvBack:
        while (at < b.size()) {
            const auto start = at;
            const auto id = vint(at, true);
            const auto size = vint(at, false);
            if (id == 0x18538067)
                continue; // proceed with the children of the segment
            at += size;
            if (id == 0x1F43B675)
                r.emplace_back(start, std::min(at, b.size()));
        }
        break;
    default:;
    }
    return r;
}
// sets the title of all tags
inline void setTitle(TagParser::MediaFileInfo &f, const Bytes &title)
{
    for (auto *t : f.tags())
        if (t->supportsField(TagParser::KnownField::Title) && !t->value(TagParser::KnownField::Title).isEmpty())
            t->setValue(TagParser::KnownField::Title, ref::text(title, t->type() == TagParser::TagType::Id3v1Tag ? TagParser::TagTextEncoding::Latin1 : TagParser::TagTextEncoding::Utf8));
}
} // namespace fmts
