// small files which make use of as many structures of each supported format as possible
#pragma once
#include "codecs.h"
#include "formats.h"

#include <zlib.h>

namespace corpus {
using namespace ref;
using namespace codecs;
template <std::size_t N> Bytes lit(const char (&s)[N]) // may contain zero bytes
{
    return Bytes(s, N - 1);
}
struct Sample {
    const char *name, *ext;
    Bytes data;
};
// a frame with arbitrary flags
inline Bytes frame(int version, const Bytes &id, const Bytes &data, unsigned flags = 0)
{
    if (version == 2)
        return id + BE(data.size(), 3) + data;
    return id + (version == 4 ? syncsafe(static_cast<std::uint32_t>(data.size())) : BE(data.size(), 4)) + BE(flags, 2) + data;
}
inline Bytes deflated(const Bytes &b)
{
    uLongf n = compressBound(b.size());
    Bytes r(n, '\0');
    compress2(reinterpret_cast<Bytef *>(r.data()), &n, reinterpret_cast<const Bytef *>(b.data()), b.size(), 9);
    r.resize(n);
    return r;
}
inline Bytes frames(int v)
{
    const auto id = [v](const char *s, const char *l) { return Bytes(v == 2 ? s : l); };
    const auto image = v == 2 ? lit("\0PNG\3") + lit("cover\0") + "image data" : lit("\0image/png\0\3") + lit("cover\0") + "image data";
    Bytes r = frame(v, id("TT2", "TIT2"), lit("\1\xFF\xFEt\0i\0t\0")) + frame(v, id("TP1", "TPE1"), "\1" + lit("\xFE\xFF\0a\0r\0\0\0b")) + frame(v, id("TAL", "TALB"), lit("\0album\0second\0"))
        + frame(v, id("TCO", "TCON"), lit("\0(17)(4)x")) + frame(v, id("TRK", "TRCK"), lit("\0" "3/12")) + frame(v, id("TPA", "TPOS"), lit("\0" "1/2")) + frame(v, id("TLE", "TLEN"), lit("\0" "12345"))
        + frame(v, id("TYE", v == 4 ? "TDRC" : "TYER"), lit("\0" "2014")) + frame(v, id("TLA", "TLAN"), lit("\0ger")) + frame(v, id("COM", "COMM"), lit("\0engdesc\0a comment"))
        + frame(v, id("ULT", "USLT"), lit("\1ger\xFF\xFE" "d\0\0\0\xFF\xFEl\0")) + frame(v, id("PIC", "APIC"), image) + frame(v, id("TXX", "TXXX"), lit("\0key\0value")) + frame(v, id("POP", "POPM"), lit("user\0\x80\0\0\0\5"))
        + frame(v, id("CNT", "PCNT"), lit("\0\0\1\2")) + frame(v, id("UFI", "UFID"), lit("owner\0id")) + frame(v, id("WXX", "WXXX"), lit("\0d\0http://x"));
    if (v == 3)
        r += frame(v, "TBPM", BE(4, 4) + deflated(lit("\0" "120")), 0x0080) + frame(v, "TCOM", lit("\x55\0grouped"), 0x0020) + frame(v, "TENC", "\x01secret", 0x0040);
    if (v == 4)
        r += frame(v, "TBPM", syncsafe(4) + deflated(lit("\0" "120")), 0x0009) + frame(v, "TCOM", lit("\x55\3grouped"), 0x0040) + frame(v, "TENC", "\x01secret", 0x0004) + frame(v, "TSRC", syncsafe(4) + lit("\3a\xFF\0b"), 0x0003)
            + frame(v, "TDRL", lit("\3" "2014-05-06T10:11:12"));
    return r;
}
inline Bytes mpegAudio(bool xing)
{
    // 32 kbit/s, 44.1 kHz, mono
    Bytes first = "\xFF\xFB\x10\xC4" + (xing ? Bytes(17, '\0') + "Xing" + BE(7, 4) + BE(3, 4) + BE(312, 4) + filler(30, 7) : Bytes());
    first.resize(104, 'x');
    Bytes next = "\xFF\xFB\x10\xC4";
    next.resize(30, 'y'); // truncated
    return first + next;
}
inline std::vector<Sample> make()
{
    std::vector<Sample> r;
    const auto add = [&r](const char *name, const char *ext, const Bytes &data) { r.push_back({ name, ext, data }); };
    add("ID3v2.2", ".mp3", mp3::tag(2, frames(2), 5) + mpegAudio(true));
    add("ID3v2.3", ".mp3", mp3::tag(3, frames(3), 12) + mpegAudio(false) + mp3::v1("title", "artist"));
    add("ID3v2.3 extended header", ".mp3", mp3::tag(3, mp3::textFrame(3, "", "TIT2", "title"), 3, false, BE(6, 4) + BE(0, 2) + BE(3, 4)) + mp3::tag(4, mp3::textFrame(4, "", "TPE1", "second"), 0) + mpegAudio(true) + mp3::v1("t", "a"));
    add("ID3v2.4", ".mp3", mp3::tag(4, frames(4), 0, true, syncsafe(6) + lit("\1\0")) + mpegAudio(true));
    auto unsync = mp3::tag(3, mp3::textFrame(3, "", "TIT2", lit("a\xFF\0b\xFF\0\xE0")) + frame(3, "APIC", lit("\0image/png\0\3\0\xFF\0\xFF\0")), 4);
    unsync[5] = '\x80';
    add("ID3v2.3 unsynchronised", ".mp3", unsync + mpegAudio(false));
    add("FLAC", ".flac", mp3::tag(4, mp3::textFrame(4, "", "TIT2", "title"), 6) + flac::blocks({ { flac::StreamInfo, flac::streamInfo() }, { flac::SeekTable, filler(18, 5) }, { flac::Application, "APPLabc" },
        { flac::Comment, vorbis::comment("vendor", { { "TITLE", "title" }, { "TRACKNUMBER", "3/12" }, { "WAVEFORMATEXTENSIBLE_CHANNEL_MASK", "0x3" }, { "DATE", "2014" }, { "METADATA_BLOCK_PICTURE", "AAAAAwAAAAlpbWFnZS9wbmcAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAEZGF0YQ==" } }) },
        { flac::Picture, vorbis::encode({ 3, "image/png", "cover", "picture" }) }, { flac::CueSheet, filler(30, 8) }, { flac::Padding, Bytes(9, '\0') } }) + flac::frames(20));
    auto aac = codecs::adts(false, false, 1, 4, 2, 40);
    aac.resize(40, 'x');
    auto aac2 = codecs::adts(false, true, 1, 4, 2, 40);
    aac2.resize(35, 'x');
    add("ADTS", ".aac", aac + aac2);
    codecs::Fmt pcm;
    pcm.tag = 0xFFFE;
    pcm.valid = 16;
    add("WAVE", ".wav", codecs::wave(codecs::chunk("LIST", "INFOabcdefg") + codecs::chunk("fmt ", pcm.build(true)) + codecs::chunk("data", filler(20, 3)) + codecs::chunk("id3 ", "abc")));
    codecs::Fmt layer3;
    layer3.tag = 0x55;
    layer3.bits = 0;
    add("WAVE/MPEG", ".wav", codecs::wave(codecs::chunk("fmt ", layer3.build(true)) + codecs::chunk("data", mpegAudio(true))));
    add("IVF", ".ivf", "DKIF" + LE(0, 2) + LE(32, 2) + "VP80" + LE(320, 2) + LE(240, 2) + LE(30, 4) + LE(1, 4) + LE(2, 4) + LE(0, 4) + LE(5, 4) + LE(0, 8) + "abcde" + LE(3, 4) + LE(1, 8) + "xyz");
    {
        mp4::File f;
        f.order = "fpmFd";
        f.freeSize = 12;
        f.udta = 0;
        mp4::TrackSpec a, v;
        a.chunks = { { 5, 3 }, { 4 } };
        v.chunks = { { 6 }, { 2, 2 } };
        Asc asc;
        asc.extension = 4;
        a.sampleEntry = soundEntry("mp4a", 2, 16, 44100u << 16, mp4::atom("wave", mp4::atom("frma", "mp4a") + mp4::atom("mp4a", BE(0, 4)) + esds(0x40, 160000, 128000, asc.build(), 2, 0xE0)), 1);
        a.extras = 0xFF;
        a.version = 1;
        a.sampleTable = 4;
        Avc avc;
        avc.vui = 15;
        avc.sar = 255;
        avc.scaling = 2;
        v.sampleEntry = videoEntry("avc1", 320, 240, 72, 1, "name", 24, mp4::atom("avcC", avc.build()) + mp4::atom("pasp", BE(1, 4) + BE(1, 4)));
        v.co64 = true;
        v.sampleTable = 2;
        f.tracks = { a, v };
        add("MP4", ".mp4", mp4::build(f));
    }
    {
        const auto data = [](unsigned type, const Bytes &d) { return mp4::atom("data", BE(type, 4) + BE(0, 4) + d); };
        const auto field = [&](const char *id, const Bytes &d) { return mp4::atom(id, d); };
        const auto ilst = field("\xA9nam", data(1, "title")) + field("\xA9""ART", data(2, lit("\0a\0b"))) + field("trkn", data(0, lit("\0\0\0\3\0\x0C\0\0"))) + field("disk", data(0, lit("\0\0\0\1\0\2"))) + field("gnre", data(0, BE(18, 2)))
            + field("covr", data(13, "jpeg data") + data(14, "png data") + mp4::atom("name", "cover")) + field("tmpo", data(21, BE(120, 2))) + field("rtng", data(21, BE(1, 1)))
            + field("----", mp4::atom("mean", BE(0, 4) + "com.apple.iTunes") + mp4::atom("name", BE(0, 4) + "LABEL") + data(1, "label")) + field("\xA9""day", data(1, "2014")) + field("\xA9""cmt", data(3, "sjis"));
        const auto meta = mp4::atom("meta", BE(0, 4) + mp4::atom("hdlr", BE(0, 8) + "mdirappl" + BE(0, 9)) + mp4::atom("ilst", ilst) + mp4::atom("free", "free"));
        mp4::File f;
        f.order = "fmd";
        f.udta = 0;
        f.moovExtras = false;
        mp4::TrackSpec a;
        a.chunks = { { 5 } };
        a.sampleEntry = soundEntry("mp4a", 2, 16, 44100u << 16, esds(0x40, 1, 2, Asc().build(), 4));
        f.tracks = { a };
        auto b = mp4::build(f);
        // put the tag at the end of the moov atom (chunk offsets do not matter here)
        const auto moov = b.find("moov") - 4;
        const auto size = rdBE(b, moov, 4);
        const auto udta = mp4::atom("udta", mp4::atom("XYZ0", "before") + meta);
        b.insert(moov + size, udta);
        b.replace(moov, 4, BE(size + udta.size(), 4));
        add("MP4 tag", ".m4a", b);
    }
    {
        mp4::File f;
        f.order = "fmiodod";
        mp4::TrackSpec a, v;
        a.sampleEntry = soundEntry("esd", 2, 16, 44100u << 16, Bytes());
        f.tracks = { a, v };
        f.fragments.resize(2);
        f.fragments[0].samples = { 4, 3 };
        f.fragments[1].samples = { 5 };
        f.fragments[1].base = 2;
        f.fragments[1].runs = 2;
        f.fragments[1].trafs = 2;
        f.udta = 0;
        add("MP4 fragmented", ".mp4", mp4::build(f));
    }
    {
        using namespace ebml;
        mkv::File f;
        f.segments.emplace_back();
        auto &s = f.segments[0];
        s.order = "RSIVTHAGCKK";
        s.crcChildren = true;
        s.voidSize = 9;
        s.clusters.resize(2);
        s.clusters[0].blocks = { 6, 4 };
        s.clusters[1].blocks = { 3 };
        s.clusters[1].timecode = 1000;
        s.clusters[1].prevSize = s.clusters[0].position = s.clusters[1].position = true;
        s.relative = s.blockNumber = s.reference = s.duration = true;
        s.chapterVariant = 1;
        s.attachmentSize = 12;
        const auto track = [](unsigned no, unsigned type, const char *codec, const Bytes &priv, const Bytes &rest) {
            return el(TrackEntry, elU(TrackNumber, no) + elU(TrackUID, no) + elU(ebml::TrackType, type) + el(CodecID, codec) + el(CodecPrivate, priv) + rest);
        };
        Avc avc;
        avc.profile = 66;
        Asc asc;
        asc.extension = 2;
        codecs::Fmt acm;
        acm.tag = 0xFFFE, acm.valid = 16;
        const auto bitmap = LE(40, 4) + LE(320, 4) + LE(240, 4) + LE(1, 2) + LE(24, 2) + "XVID" + LE(1000, 4) + LE(0, 16);
        s.trackEntries = { track(1, 1, "V_MPEG4/ISO/AVC", avc.build(), elU(DefaultDuration, 40000000) + el(Video, elU(PixelWidth, 320) + elU(PixelHeight, 240) + elU(DisplayWidth, 2) + elU(0x9A, 1)) + el(Name, "name") + el(LanguageIETF, "de-AT")),
            track(2, 2, "A_AAC", asc.build(), el(Audio, el(SamplingFrequency, BE(0x40E7700000000000ull, 8)) + el(OutputSamplingFrequency, BE(0x47000000, 4)) + elU(Channels, 2) + elU(BitDepth, 16))),
            track(3, 2, "A_MS/ACM", acm.build(true), el(Language, "ger") + elU(FlagEnabled, 0)), track(4, 1, "V_MS/VFW/FOURCC", bitmap, elU(FlagForced, 1)) };
        add("Matroska", ".mkv", mkv::build(f));
    }
    {
        using namespace ebml;
        mkv::File f;
        f.docType = "webm";
        f.segments.resize(2);
        auto &s = f.segments[0];
        s.order = "ITKG";
        s.unknown = true;
        s.sizeLen = 8;
        s.clusters.resize(1);
        s.clusters[0].blocks = { 4, 3 };
        s.clusters[0].unknown = true;
        s.trackEntries = { el(TrackEntry, elU(TrackNumber, 1) + elU(TrackUID, 5) + elU(ebml::TrackType, 17) + el(CodecID, "S_TEXT/UTF8")) };
        auto &t = f.segments[1];
        t.order = "IHHTA";
        t.trackEntries = s.trackEntries;
        t.chapterVariant = 1;
        t.attachmentSize = 3;
        const auto tag = el(Tags,
            el(ebml::Tag, el(Targets, elU(TargetTypeValue, 30) + el(TargetType, "TRACK") + elU(TagTrackUID, 5) + elU(TagEditionUID, 1) + elU(TagChapterUID, 2) + elU(TagAttachmentUID, 3))
                    + el(SimpleTag, el(TagName, "TITLE") + el(TagLanguage, "ger") + el(TagLanguageIETF, "de") + elU(TagDefault, 1) + el(TagString, "title") + el(SimpleTag, el(TagName, "SORT_WITH") + el(TagString, "nested")))
                    + el(SimpleTag, el(TagName, "COVER") + el(TagBinary, "binary")))
                + el(ebml::Tag, el(SimpleTag, el(TagName, "NUMBER_OF_BYTES") + el(TagString, "17")) + el(SimpleTag, el(TagName, "PART_NUMBER") + el(TagString, "3")) + el(SimpleTag, el(TagName, "BPS") + el(TagString, "12")) + el(Targets, elU(TagTrackUID, 5))));
        auto b = mkv::build(f);
        add("Matroska unknown sizes", ".webm", b);
        mkv::File g;
        g.segments.emplace_back();
        g.segments[0].order = "IT";
        g.segments[0].trackEntries = s.trackEntries;
        g.segments[0].sizeLen = 1;
        b = mkv::build(g);
        // append the tags to the segment
        const auto seg = b.find(id(Segment)) + 4;
        b[seg] = static_cast<char>(0x40 | ((b.size() - seg - 1 + tag.size()) >> 8));
        b.insert(seg + 1, 1, static_cast<char>((b.size() - seg - 1 + tag.size()) & 0xFF));
        add("Matroska tags", ".mka", b + tag);
    }
    {
        const auto build = [](const std::vector<ogg::Stream> &streams, std::size_t perPage) {
            Bytes b;
            std::vector<std::vector<ogg::Page>> pages;
            ogg::Paging paging;
            paging.perPage = perPage;
            std::size_t n = 0;
            for (auto &s : streams) {
                pages.push_back(ogg::paginate(s, paging));
                n = std::max(n, pages.back().size());
            }
            for (std::size_t i = 0; i < n; ++i)
                for (auto &p : pages)
                    if (i < p.size())
                        b += ogg::str(p[i]);
            return b;
        };
        const auto stream = [](int kind, std::uint32_t serial, const Bytes &vendor, const vorbis::Entries &entries) {
            ogg::Stream s;
            s.kind = kind;
            s.serial = serial;
            s.headers = kind == ogg::Vorbis ? 3 : 2;
            s.packets.push_back({ ogg::identification(kind), 0 });
            s.packets.push_back({ ogg::commentPacket(kind, vendor, entries, true), 0 });
            if (kind == ogg::Vorbis)
                s.packets.push_back({ "\x05vorbis" + filler(6, 5), 0 });
            s.packets.push_back({ filler(5, 50), 960 });
            s.packets.push_back({ filler(4, 51), 1920 });
            return s;
        };
        const vorbis::Entries entries{ { "TITLE", "title" }, { "ARTIST", "artist" }, { "METADATA_BLOCK_PICTURE", "AAAAAwAAAAlpbWFnZS9wbmcAAAABeAAAAAAAAAAAAAAAAAAAAAAAAAAEZGF0YQ==" } };
        add("Ogg/Vorbis", ".ogg", build({ stream(ogg::Vorbis, 1, "vendor", entries) }, 2));
        add("Ogg/Opus", ".opus", build({ stream(ogg::Opus, 1, Bytes(270, 'v'), { { "TITLE", "title" } }) }, 1));
        auto other = stream(ogg::Theora, 7, "v", {});
        add("Ogg multiplexed", ".ogg", build({ stream(ogg::Flac, 3, "v", { { "TITLE", "title" } }), other, stream(ogg::Vorbis, 5, "v", {}) }, 255));
    }
    return r;
}
} // namespace corpus
