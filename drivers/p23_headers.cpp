// P23: technical information equals what the headers encode.
#include "codecs.h"
#include "digest.h"
#include "flac.h"
#include "mkvfile.h"
#include "mp3.h"
#include "mp4file.h"
#include "oggfile.h"
#include "save.h"

#include <tagparser/adts/adtsframe.h>
#include <tagparser/ivf/ivfstream.h>
#include <tagparser/localehelper.h>
#include <tagparser/mediaformat.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mpegaudio/mpegaudioframe.h>

#include <c++utilities/io/binaryreader.h>

#include <cmath>
#include <sstream>

using namespace ref;
using namespace codecs;

const char *vt::property = "P23";
const char *vt::rule = "all 2^21 MPEG audio frame headers and the whole product of ADTS header fields parsed directly; files of every format with the product of boundary values of the header fields (MPEG audio with and without "
                       "Xing header, ADTS, FLAC, Vorbis/Opus/FLAC in Ogg, MP4 track/media/sample entry/stream descriptor/AVC configuration, Matroska audio/video/codec private, RIFF/WAVE, IVF); the reported values are "
                       "compared with those put into the header by an own encoder; states = distinct sets of reported values";
const char *vt::assumptions = "free-format MPEG audio is not supported|the frame rate is an integer which is the true one rounded in either direction|times up to the year 9999|AVC configurations contain one sequence parameter set";

namespace {
using F = GeneralMediaFormat;
bool near(double a, double b, double tolerance = 1e-6)
{
    return std::fabs(a - b) <= tolerance * std::max(1.0, std::fabs(b));
}
double seconds(CppUtilities::TimeSpan s)
{
    return static_cast<double>(s.totalTicks()) / 1e7;
}
// the precision is 100 ns
bool sameDuration(CppUtilities::TimeSpan got, double want)
{
    return std::fabs(seconds(got) - want) <= 3e-7 + want * 1e-12;
}
struct Parsed {
    std::unique_ptr<Session> s;
    std::vector<AbstractTrack *> tracks;
};
Parsed parse(Ctx &c, const char *name, const Bytes &b, std::size_t tracks = 1)
{
    const std::string path = c.file(name);
    vt::writeFile(path, b);
    Parsed p;
    p.s = std::make_unique<Session>(path);
    auto &f = p.s->file;
    f.open(true);
    f.parseContainerFormat(p.s->diag, p.s->progress);
    f.parseTracks(p.s->diag, p.s->progress);
    c.check(f.tracksParsingStatus() == ParsingStatus::Ok, "parse", "the tracks of %s cannot be parsed: %s", name, diagText(p.s->diag).c_str());
    p.tracks = f.tracks();
    c.check(p.tracks.size() == tracks, "tracks", "%s has %zu tracks instead of %zu: %s", name, p.tracks.size(), tracks, diagText(p.s->diag).c_str());
    for (auto *t : p.tracks)
        c.state(vt::hashStr(dumpTrack(*t), 23));
    return p;
}

// MPEG audio
struct Mpeg {
    double version = 0;
    int layer = 0;
    unsigned bitrate = 0, frequency = 0, samples = 0, size = 0, padding = 0, channels = 2;
    bool usable() const
    {
        return size;
    }
};
Mpeg mpeg(std::uint32_t h)
{
    static const unsigned rates[2][3][16] = { { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448, 0 }, { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 0 },
                                                  { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0 } },
        { { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256, 0 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0 } } };
    Mpeg m;
    const auto v = (h >> 19) & 3, l = (h >> 17) & 3, r = (h >> 12) & 15, f = (h >> 10) & 3;
    m.version = v == 3 ? 1.0 : v == 2 ? 2.0 : v == 0 ? 2.5 : 0.0;
    m.layer = l ? 4 - static_cast<int>(l) : 0;
    if (v != 1 && l)
        m.bitrate = rates[v != 3][m.layer - 1][r];
    static const unsigned base[] = { 44100, 48000, 32000, 0 };
    if (v != 1)
        m.frequency = base[f] / (v == 3 ? 1 : v == 2 ? 2 : 4);
    m.samples = m.layer == 1 ? 384 : m.layer == 2 ? 1152 : m.layer == 3 ? (v == 3 ? 1152 : v != 1 ? 576 : 0) : 0;
    m.padding = (h >> 9) & 1 ? (m.layer == 1 ? 4 : 1) : 0;
    if (m.bitrate && m.frequency) {
        if (m.layer == 1)
            m.size = (12 * m.bitrate * 1000 / m.frequency + (m.padding ? 1 : 0)) * 4;
        else
            m.size = m.samples / 8 * m.bitrate * 1000 / m.frequency + m.padding;
    }
    m.channels = ((h >> 6) & 3) == 3 ? 1 : 2;
    return m;
}
VT_SUITE(mpegHeaders, 256)
{
    Diagnostics diag;
    std::uint64_t hash = 0;
    std::string buffer(2000, '\0');
    for (std::uint32_t low = 0; low < (1u << 13); ++low) {
        const auto h = 0xFFE00000u | static_cast<std::uint32_t>(c.top) << 13 | low;
        const auto m = mpeg(h);
        buffer.replace(0, 4, BE(h, 4));
        std::istringstream stream(buffer);
        stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        CppUtilities::BinaryReader reader(&stream);
        MpegAudioFrame f;
        f.parseHeader(reader, diag);
        c.check(f.isValid() && f.mpegVersion() == m.version && f.layer() == m.layer && f.isProtectedByCrc() == !(h & 0x10000), "mpeg-version", "header %08X is read as version %.1f layer %d", h, f.mpegVersion(), f.layer());
        c.check(f.samplingFrequency() == m.frequency, "mpeg-frequency", "header %08X: sampling frequency %u instead of %u", h, f.samplingFrequency(), m.frequency);
        c.check(f.bitrate() == m.bitrate, "mpeg-bitrate", "header %08X: bitrate %u instead of %u", h, f.bitrate(), m.bitrate);
        c.check(static_cast<unsigned>(f.channelMode()) == ((h >> 6) & 3), "mpeg-channels", "header %08X: channel mode %u", h, static_cast<unsigned>(f.channelMode()));
        c.check(f.hasCopyright() == !!(h & 8) && f.isOriginal() == !!(h & 4), "mpeg-flags", "header %08X: flags are wrong", h);
        if (m.layer && m.version > 0.0)
            c.check(f.sampleCount() == m.samples && f.paddingSize() == m.padding, "mpeg-samples", "header %08X: %u samples and padding of %u", h, f.sampleCount(), f.paddingSize());
        c.check(f.size() == m.size, "mpeg-size", "header %08X: frame of %u bytes instead of %u", h, f.size(), m.size);
        c.check(!f.isXingHeaderAvailable(), "mpeg-xing", "header %08X: Xing header is supposed to be present", h);
        hash = hash * 31 + f.size();
    }
    for (std::uint32_t i = 0; i < 2048; ++i) { // no sync
        const auto h = i == 2047 ? 0u : (i << 21) | static_cast<std::uint32_t>(c.top) << 13 | 0x9123;
        buffer.replace(0, 4, BE(h, 4));
        std::istringstream stream(buffer);
        stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        CppUtilities::BinaryReader reader(&stream);
        MpegAudioFrame f;
        bool thrown = false;
        try {
            f.parseHeader(reader, diag);
        } catch (const InvalidDataException &) {
            thrown = true;
        }
        c.check(thrown && !f.isValid(), "mpeg-invalid", "header %08X is not rejected", h);
    }
    c.state(hash);
}
std::uint32_t mpegHeader(Ctx &c, unsigned version, unsigned layer, unsigned rate, unsigned frequency, unsigned mode)
{
    const auto crc = c.flip("crc"), padding = c.flip("padding");
    return 0xFFE00000u | version << 19 | layer << 17 | (crc ? 0 : 1u << 16) | rate << 12 | frequency << 10 | (padding ? 1u << 9 : 0) | mode << 6 | 0x4;
}
void checkMpeg(Ctx &c, AbstractTrack &t, const Mpeg &m)
{
    c.check(t.version() == m.version && t.format() == F::Mpeg1Audio && t.format().sub == m.layer, "mpeg-file-format", "version %.1f, layer %u instead of %.1f, %d", t.version(), t.format().sub, m.version, m.layer);
    c.check(t.samplingFrequency() == m.frequency && t.channelCount() == m.channels, "mpeg-file-frequency", "%u Hz, %u channels instead of %u, %u", t.samplingFrequency(), t.channelCount(), m.frequency, m.channels);
}
VT_SUITE(mpegFiles, 9)
{
    static const unsigned versions[] = { 0, 2, 3 };
    const auto version = versions[c.top % 3], layer = static_cast<unsigned>(1 + c.top / 3);
    const auto rate = 1 + c.choose(14, "bitrate"), frequency = c.choose(3, "frequency"), mode = c.choose(4, "channel mode");
    const auto h = mpegHeader(c, version, layer, static_cast<unsigned>(rate), static_cast<unsigned>(frequency), static_cast<unsigned>(mode));
    const auto m = mpeg(h);
    if (h >> 16 == 0xFFFE)
        c.skip(); // the signature of UTF-16 text
    const auto variant = c.choose(4, "surroundings"); // 0 = plain, 1 = ID3v2 and ID3v1, 2 = ID3v2 and some junk, 3 = Xing header
    Bytes xing;
    std::uint32_t frames = 0;
    const auto side = m.version == 1.0 ? (m.channels == 1 ? 17u : 32u) : (m.channels == 1 ? 9u : 17u);
    if (variant == 3) {
        if (layer != 1 || m.size < side + 4 + 16 || !(h & 0x10000))
            c.skip();
        static const std::uint32_t counts[] = { 1, 777, 0x00FFFFFFu, 0x10000000u };
        frames = counts[c.choose(4, "frames")];
        const auto flags = static_cast<std::uint32_t>(c.choose(16, "Xing fields"));
        xing = (c.flip("Info") ? Bytes("Info") : Bytes("Xing")) + BE(flags, 4) + (flags & 1 ? BE(frames, 4) : Bytes()) + (flags & 2 ? BE(4711, 4) : Bytes()) + (flags & 4 ? filler(100, 4) : Bytes()) + (flags & 8 ? BE(57, 4) : Bytes());
        if (!(flags & 1))
            frames = 0;
        c.log("Xing header with flags %X", flags);
    }
    c.log("header %08X, surroundings %zu", h, variant);
    Bytes audio = BE(h, 4) + (variant == 3 ? Bytes(side, '\0') + xing : Bytes());
    audio.resize(std::max<std::size_t>(audio.size(), m.size), 'x');
    for (int i = 0; i < 2; ++i)
        audio += BE(h, 4) + Bytes(m.size - 4, 'x');
    const auto p = parse(c, "a.mp3",
        variant == 0 || variant == 3 ? audio
                                     : mp3::tag(4, mp3::textFrame(4, "", "TIT2", "title"), 20) + (variant == 2 ? Bytes("\x01\x02\xFF\x03\x05", 5) : Bytes()) + audio + (variant == 1 ? mp3::v1("a", "b") : Bytes()));
    auto &t = *p.tracks[0];
    checkMpeg(c, t, m);
    const auto size = audio.size();
    c.check(t.size() == size, "mpeg-file-size", "size of %llu instead of %zu", static_cast<unsigned long long>(t.size()), size);
    if (frames) {
        const auto d = static_cast<double>(frames) * m.samples / m.frequency;
        c.check(sameDuration(t.duration(), d), "xing-duration", "header %08X with %u frames: duration of %f instead of %f seconds", h, frames, seconds(t.duration()), d);
        c.check(near(t.bitrate(), static_cast<double>(size) / d / 125), "xing-bitrate", "bitrate is %f instead of %f", t.bitrate(), static_cast<double>(size) / d / 125);
    } else {
        c.check(t.bitrate() == m.bitrate && sameDuration(t.duration(), static_cast<double>(size) / (m.bitrate * 125.0)), "mpeg-duration", "header %08X: bitrate of %f and duration of %f", h, t.bitrate(), seconds(t.duration()));
    }
}

// ADTS
const unsigned frequencies[16] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 0, 0, 0 };
const unsigned aacChannels[] = { 0, 1, 2, 3, 4, 5, 6, 8 };
VT_SUITE(adtsHeaders, 16)
{
    std::uint64_t hash = 0;
    for (unsigned rest = 0; rest < 4 * 8 * 4; ++rest) {
        const auto profile = rest % 4, channels = rest / 4 % 8;
        const bool mpeg2 = rest / 32 % 2, crc = rest / 64;
        for (unsigned size : { 0u, 6u, 7u, 8u, 9u, 200u, 255u, 256u, 257u, 263u, 264u, 511u, 512u, 1024u, 4096u, 8191u })
            for (unsigned extra : { 0u, 1u, 0x7FEu, 0x7FFu }) {
                std::istringstream stream(adts(mpeg2, crc, profile, static_cast<unsigned>(c.top), channels, size, extra, extra & 3) + "xxxxxx");
                stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                CppUtilities::BinaryReader reader(&stream);
                AdtsFrame f;
                bool thrown = false;
                try {
                    f.parseHeader(reader);
                } catch (const InvalidDataException &) {
                    thrown = true;
                }
                const bool valid = size >= (crc ? 9 : 7);
                c.check(thrown == !valid && f.isValid() == valid, "adts-valid", "frame of %u bytes is %s", size, thrown ? "rejected" : "accepted");
                if (!valid)
                    continue;
                c.check(f.isMpeg4() == !mpeg2 && f.hasCrc() == crc && f.headerSize() == (crc ? 9 : 7), "adts-flags", "MPEG-4: %d, CRC: %d, header of %d bytes for frame of MPEG-%d with%s CRC", f.isMpeg4(), f.hasCrc(), f.headerSize(),
                    mpeg2 ? 2 : 4, crc ? "" : "out");
                c.check(f.mpeg4AudioObjectId() == profile + 1 && f.mpeg4SamplingFrequencyIndex() == c.top && f.mpeg4ChannelConfig() == channels, "adts-fields", "object ID %u, frequency %u, channels %u", f.mpeg4AudioObjectId(),
                    f.mpeg4SamplingFrequencyIndex(), f.mpeg4ChannelConfig());
                c.check(f.totalSize() == size && f.dataSize() == size - (crc ? 9 : 7), "adts-size", "frame of %u bytes is read as %u bytes", size, f.totalSize());
                c.check(f.bufferFullness() == extra && f.frameCount() == (extra & 3) + 1, "adts-rest", "fullness %X, %u frames", f.bufferFullness(), f.frameCount());
                hash = hash * 31 + f.totalSize() + profile;
            }
    }
    c.state(hash + c.top);
}
VT_SUITE(adtsFiles, 16)
{
    const auto profile = static_cast<unsigned>(c.choose(4, "profile")), channels = static_cast<unsigned>(c.choose(8, "channels"));
    static const unsigned sizes[] = { 60, 256, 1025 };
    const auto size = c.pick(sizes);
    const auto mpeg2 = c.flip("MPEG-2"), crc = c.flip("CRC"), tag = c.flip("ID3v2");
    auto frame = adts(mpeg2, crc, profile, static_cast<unsigned>(c.top), channels, size);
    frame.resize(size, 'x');
    const auto p = parse(c, "a.aac", (tag ? mp3::tag(4, mp3::textFrame(4, "", "TIT2", "title"), 20) : Bytes()) + frame + frame);
    auto &t = *p.tracks[0];
    c.log("profile %u, channels %u, size %u", profile, channels, size);
    static const unsigned subs[] = { SubFormats::AacMpeg4MainProfile, SubFormats::AacMpeg4LowComplexityProfile, SubFormats::AacMpeg4ScalableSamplingRateProfile, SubFormats::AacMpeg4LongTermPrediction };
    c.check(t.format() == F::Aac && t.format().sub == subs[profile], "adts-format", "format is %u/%u", static_cast<unsigned>(t.format().general), t.format().sub);
    c.check(t.samplingFrequency() == frequencies[c.top], "adts-frequency", "sampling frequency is %u instead of %u", t.samplingFrequency(), frequencies[c.top]);
    c.check(t.channelConfig() == channels && t.channelCount() == aacChannels[channels], "adts-channels", "%u channels for config %u", t.channelCount(), channels);
}

// FLAC
const unsigned flacRates[] = { 1, 8000, 44100, 48000, 65535, 65536, 96000, 192000, 655350, 0xFFFFF };
const std::uint64_t flacSamples[] = { 0, 1, 44100, 0xFFFFFFFFull, 0x100000000ull, 0xFFFFFFFFFull };
void checkFlac(Ctx &c, AbstractTrack &t, unsigned rate, unsigned channels, unsigned bits, std::uint64_t samples)
{
    c.check(t.format() == F::Flac && t.mediaType() == MediaType::Audio, "flac-format", "not recognised as FLAC audio");
    c.check(t.samplingFrequency() == rate && t.channelCount() == channels && t.bitsPerSample() == bits && t.sampleCount() == samples, "flac-fields", "%u Hz, %u channels, %u bits, %llu samples instead of %u, %u, %u, %llu", t.samplingFrequency(),
        t.channelCount(), t.bitsPerSample(), static_cast<unsigned long long>(t.sampleCount()), rate, channels, bits, static_cast<unsigned long long>(samples));
    if (samples && static_cast<double>(samples) / rate < 9e11)
        c.check(sameDuration(t.duration(), static_cast<double>(samples) / rate), "flac-duration", "duration is %f", seconds(t.duration()));
}
VT_SUITE(flac, std::size(flacRates))
{
    const auto rate = flacRates[c.top];
    const auto channels = static_cast<unsigned>(1 + c.choose(8, "channels")), bits = static_cast<unsigned>(4 + c.choose(29, "bits"));
    const auto samples = c.pick(flacSamples);
    c.log("%u channels, %u bits, %llu samples", channels, bits, static_cast<unsigned long long>(samples));
    const auto p = parse(c, "a.flac", flac::blocks({ { flac::StreamInfo, flac::streamInfo(rate, channels, bits, samples) } }) + flac::frames(100));
    checkFlac(c, *p.tracks[0], rate, channels, bits, samples);
    c.check(sameDuration(p.s->file.duration(), samples ? static_cast<double>(samples) / rate : seconds(p.s->file.duration())), "flac-file-duration", "duration of the file is %f", seconds(p.s->file.duration()));
}

// Ogg
VT_SUITE(ogg, 3)
{
    static const unsigned rates[] = { 1, 8000, 44100, 48000, 0xFFFFFFFF, 0 };
    static const ogg::Granule ends[] = { 1, 313, 48000, 0x100000000ull, 0xFFFFFFFFFFull };
    static const std::uint32_t serials[] = { 1, 0xFFFFFFFF };
    ogg::Stream s;
    s.kind = static_cast<int>(c.top);
    s.serial = c.pick(serials);
    const auto end = c.pick(ends);
    unsigned rate = 0, channels = 0, nominal = 0, minimum = 0, maximum = 0, skip = 0, bits = 0;
    std::uint64_t samples = 0;
    Bytes id;
    if (s.kind == ogg::Vorbis) {
        rate = c.pick(rates);
        if (!rate)
            c.skip();
        static const unsigned counts[] = { 1, 2, 6, 255 };
        static const unsigned bitrates[] = { 0, 1, 128000, 0x7FFFFFFF };
        channels = c.pick(counts), nominal = c.pick(bitrates), minimum = c.pick(bitrates), maximum = c.pick(bitrates);
        id = Bytes("\x01vorbis", 7) + LE(0, 4) + LE(channels, 1) + LE(rate, 4) + LE(maximum, 4) + LE(nominal, 4) + LE(minimum, 4) + "\xB8\x01";
    } else if (s.kind == ogg::Opus) {
        rate = c.pick(rates);
        static const unsigned counts[] = { 1, 2, 255 }, skips[] = { 0, 312, 0xFFFF }, families[] = { 0, 1 };
        channels = c.pick(counts), skip = c.pick(skips);
        const auto family = c.pick(families);
        id = Bytes("OpusHead\x01", 9) + LE(channels, 1) + LE(skip, 2) + LE(rate, 4) + LE(0xFF00, 2) + LE(family, 1) + (family ? "\x01\x00" + Bytes(channels, '\x01') : Bytes());
    } else {
        rate = flacRates[c.choose(std::size(flacRates), "rate")];
        channels = static_cast<unsigned>(1 + c.choose(8, "channels"));
        static const unsigned depths[] = { 4, 16, 24, 32 };
        bits = c.pick(depths);
        samples = c.pick(flacSamples);
        id = Bytes("\x7F" "FLAC\x01", 6) + Bytes(1, '\0') + BE(1, 2) + "fLaC" + flac::block({ flac::StreamInfo, flac::streamInfo(rate, channels, bits, samples) }, false);
    }
    s.packets = { { id, 0 }, { ogg::commentPacket(s.kind, "v", { { "TITLE", "t" } }, true), 0 } };
    s.headers = 2;
    if (s.kind == ogg::Vorbis) {
        s.packets.push_back({ "\x05vorbis" + filler(40, 5), 0 });
        s.headers = 3;
    }
    s.packets.push_back({ filler(50, 6), end / 2 });
    s.packets.push_back({ filler(60, 7), end });
    ogg::Paging g;
    g.flushAfter = { s.headers };
    Bytes b;
    for (auto &p : ogg::paginate(s, g))
        b += ogg::str(p);
    c.log("serial %X, end %llu, rate %u, channels %u, pre-skip %u, samples %llu", s.serial, static_cast<unsigned long long>(end), rate, channels, skip, static_cast<unsigned long long>(samples));
    const auto p = parse(c, "a.ogg", b);
    auto &t = *p.tracks[0];
    c.check(t.id() == s.serial, "ogg-id", "ID is %llu", static_cast<unsigned long long>(t.id()));
    if (s.kind == ogg::Flac) {
        checkFlac(c, t, rate, channels, bits, samples ? samples : end);
        return;
    }
    c.check(t.format() == (s.kind == ogg::Vorbis ? F::Vorbis : F::Opus) && t.mediaType() == MediaType::Audio, "ogg-format", "format is not recognised");
    c.check(t.samplingFrequency() == rate && t.channelCount() == channels, "ogg-fields", "%u Hz, %u channels instead of %u, %u", t.samplingFrequency(), t.channelCount(), rate, channels);
    const auto count = end > skip ? end - skip : 0;
    c.check(t.sampleCount() == count, "ogg-samples", "%llu samples instead of %llu", static_cast<unsigned long long>(t.sampleCount()), static_cast<unsigned long long>(count));
    if (const auto d = static_cast<double>(count) / (s.kind == ogg::Opus ? 48000 : rate); d > 1e-6 && d < 9e11)
        c.check(sameDuration(t.duration(), static_cast<double>(count) / (s.kind == ogg::Opus ? 48000 : rate)), "ogg-duration", "duration is %f instead of %f", seconds(t.duration()),
            static_cast<double>(count) / (s.kind == ogg::Opus ? 48000 : rate));
    if (nominal)
        c.check(near(t.bitrate(), nominal / 1000.0), "ogg-bitrate", "bitrate is %f instead of %f", t.bitrate(), nominal / 1000.0);
    else if (s.kind == ogg::Vorbis && minimum == maximum)
        c.check(near(t.bitrate(), minimum / 1000.0), "ogg-bitrate", "bitrate is %f instead of %f", t.bitrate(), minimum / 1000.0);
}

// AVC configuration
void checkAvc(Ctx &c, AbstractTrack &t, const Avc &a)
{
    c.check(t.format() == F::Avc && t.format().sub == a.profile && near(t.version(), a.level / 10.0), "avc-profile", "profile %u, level %f instead of %u, %f", t.format().sub, t.version(), a.profile, a.level / 10.0);
    c.check(t.pixelSize().width() == a.pixelWidth() && t.pixelSize().height() == a.pixelHeight(), "avc-size", "size is %ux%u instead of %ux%u", t.pixelSize().width(), t.pixelSize().height(), a.pixelWidth(), a.pixelHeight());
    static const char *const names[] = { "monochrome", "YUV 4:2:0", "YUV 4:2:2", "YUV 4:4:4" };
    c.check(t.chromaFormat() == names[a.format()], "avc-chroma", "chroma format is %s instead of %s", Bytes(t.chromaFormat()).c_str(), names[a.format()]);
    static const unsigned ratios[17][2] = { { 0, 0 }, { 1, 1 }, { 12, 11 }, { 10, 11 }, { 16, 11 }, { 40, 33 }, { 24, 11 }, { 20, 11 }, { 32, 11 }, { 80, 33 }, { 18, 11 }, { 15, 11 }, { 64, 33 }, { 160, 99 }, { 4, 3 }, { 3, 2 }, { 2, 1 } };
    const auto sar = a.vui ? a.sar : 0;
    const auto n = sar == 255 ? 1000 : ratios[sar][0], d = sar == 255 ? 3 : ratios[sar][1];
    c.check(t.pixelAspectRatio().numerator == n && t.pixelAspectRatio().denominator == d, "avc-aspect-ratio", "aspect ratio is %u:%u instead of %u:%u", t.pixelAspectRatio().numerator, t.pixelAspectRatio().denominator, n, d);
}
Avc chooseAvc(Ctx &c)
{
    Avc a;
    static const unsigned profiles[] = { 66, 77, 100, 244 };
    a.profile = c.pick(profiles);
    if (a.high()) {
        a.chroma = static_cast<unsigned>(c.choose(4, "chroma format"));
        a.scaling = static_cast<unsigned>(c.choose(3, "scaling"));
    }
    static const unsigned sizes[][2] = { { 1, 1 }, { 20, 15 }, { 120, 68 }, { 256, 144 } };
    const auto size = c.choose(std::size(sizes), "size");
    a.width = sizes[size][0], a.height = sizes[size][1];
    a.poc = static_cast<unsigned>(c.choose(3, "picture order"));
    a.progressive = c.flip("progressive");
    switch (c.choose(3, "cropping")) {
    case 1: a.crop[3] = size ? 4 : 1; break;
    case 2: a.crop[0] = 1, a.crop[1] = 2, a.crop[2] = 1, a.crop[3] = 0; break;
    default:;
    }
    a.vui = static_cast<unsigned>(c.choose(5, "VUI"));
    static const unsigned vuis[] = { 0, 1, 1 | 8, 15, 1 | 8 };
    const auto v = a.vui;
    a.vui = vuis[v];
    if (v == 1) {
        static const unsigned sars[] = { 0, 1, 2, 13, 16, 255 };
        a.sar = c.pick(sars);
    }
    if (v == 4)
        a.units = 1001, a.scale = 60000;
    return a;
}

// MP4
Parsed parseMp4(Ctx &c, const mp4::TrackSpec &t, bool video)
{
    mp4::File f;
    f.order = "fmd";
    if (video)
        f.tracks.push_back(mp4::TrackSpec());
    f.tracks.push_back(t);
    return parse(c, "a.mp4", mp4::build(f), f.tracks.size());
}
VT_SUITE(mp4Headers, 2)
{
    mp4::TrackSpec t;
    t.chunks = { { 10, 20, 10 }, { 15, 15 } };
    t.version = static_cast<int>(c.top);
    static const std::uint32_t scales[] = { 1, 600, 44100, 90000, 10000000, 0xFFFFFFFF };
    t.timeScale = c.pick(scales);
    static const std::uint64_t durations[] = { 0, 1, 44100, 0xFFFFFFFEull, 0x100000000ull, 0x123456789ABull, 0x1000000000000ull };
    const auto duration = t.times[5] = c.pick(durations);
    if ((!t.version && duration > 0xFFFFFFFF) || static_cast<double>(duration) / t.timeScale > 3e11)
        c.skip();
    static const std::uint64_t times[] = { 0, 1, 3000000000u, 0xFFFFFFFFu, 0x200000000ull };
    t.times[3] = c.pick(times), t.times[4] = c.pick(times);
    if (!t.version && (t.times[3] > 0xFFFFFFFF || t.times[4] > 0xFFFFFFFF))
        c.skip();
    static const unsigned languages[] = { 0x15C7, 0x0421, 0x6B5A, 0 };
    t.language = c.pick(languages);
    t.sampleTable = static_cast<int>(c.choose(5, "sample table"));
    if (t.sampleTable == 1)
        t.chunks = { { 10, 10, 10 }, { 10, 10 } };
    if (t.sampleTable == 4)
        t.chunks = { { 10, 2, 15 }, { 1, 15 } };
    c.log("time scale %u, duration %llu, times %llu %llu, language %X, sample table %d", t.timeScale, static_cast<unsigned long long>(duration), static_cast<unsigned long long>(t.times[3]), static_cast<unsigned long long>(t.times[4]),
        t.language, t.sampleTable);
    const auto p = parseMp4(c, t, c.flip("second track"));
    auto &tr = *p.tracks.back();
    c.check(tr.timeScale() == t.timeScale && sameDuration(tr.duration(), static_cast<double>(duration) / t.timeScale), "mp4-duration", "time scale %u, duration %f instead of %u, %f", tr.timeScale(), seconds(tr.duration()), t.timeScale,
        static_cast<double>(duration) / t.timeScale);
    const auto epoch = CppUtilities::DateTime::fromDate(1904, 1, 1);
    c.check(static_cast<std::uint64_t>(tr.creationTime().totalTicks() - epoch.totalTicks()) == t.times[3] * 10000000 && static_cast<std::uint64_t>(tr.modificationTime().totalTicks() - epoch.totalTicks()) == t.times[4] * 10000000,
        "mp4-times", "creation time %s, modification time %s", tr.creationTime().toString().c_str(), tr.modificationTime().toString().c_str());
    std::size_t count = 0, size = 0;
    for (auto &ch : t.chunks)
        for (auto s : ch)
            ++count, size += s;
    c.check(tr.sampleCount() == count && tr.size() == size, "mp4-samples", "%llu samples with %llu bytes instead of %zu with %zu", static_cast<unsigned long long>(tr.sampleCount()), static_cast<unsigned long long>(tr.size()), count, size);
    c.check(tr.id() == p.tracks.size() && tr.name() == fmt("Handler %zu", p.tracks.size() - 1), "mp4-id", "ID %llu, name %s", static_cast<unsigned long long>(tr.id()), tr.name().c_str());
    c.check(tr.mediaType() == (p.tracks.size() == 2 ? MediaType::Video : MediaType::Audio), "mp4-media-type", "media type is wrong");
    const Bytes language = tr.locale().empty() ? Bytes() : Bytes(tr.locale().front());
    const auto want = t.language ? Bytes{ static_cast<char>((t.language >> 10) + 0x60), static_cast<char>(((t.language >> 5) & 31) + 0x60), static_cast<char>((t.language & 31) + 0x60) } : Bytes();
    c.check(language == want, "mp4-language", "language is %s instead of %s", language.c_str(), want.c_str());
}
VT_SUITE(mp4Sound, 9)
{
    struct Entry {
        const char *id;
        F format;
        bool fixed;
    };
    static const Entry entries[] = { { "mp4a", F::Aac, true }, { "alac", F::Alac, true }, { "ac-3", F::Ac3, true }, { "ec-3", F::EAc3, true }, { "Opus", F::Opus, true }, { "fLaC", F::Flac, true }, { "mlpa", F::DolbyMlp, false }, { "samr", F::Amr, true },
        { "dtse", F::Dts, true } };
    auto &e = entries[c.top];
    static const unsigned counts[] = { 0, 1, 2, 6, 0xFFFF }, depths[] = { 8, 16, 24, 0xFFFF };
    static const std::uint32_t rates[] = { 1, 8000, 44100, 48000, 65535, 96000, 192000 };
    const auto channels = c.pick(counts), bits = c.pick(depths), rate = c.pick(rates), version = static_cast<unsigned>(c.choose(2, "version"));
    if (e.fixed && rate > 0xFFFF)
        c.skip();
    mp4::TrackSpec t;
    t.chunks = { { 10 } };
    t.sampleEntry = soundEntry(e.id, channels, bits, e.fixed ? rate << 16 : rate, mp4::atom("XXxx", filler(9, 3)), version);
    const auto p = parseMp4(c, t, false);
    auto &tr = *p.tracks.back();
    c.check(tr.format() == e.format && tr.formatId() == e.id, "mp4-sound-format", "%s is read as %s", e.id, tr.formatId().c_str());
    c.check(tr.channelCount() == channels && tr.bitsPerSample() == bits, "mp4-sound-fields", "%u channels, %u bits instead of %u, %u", tr.channelCount(), tr.bitsPerSample(), channels, bits);
    c.check(tr.samplingFrequency() == rate, "mp4-sound-frequency", "sampling frequency is %u instead of %u", tr.samplingFrequency(), rate);
}
Asc chooseAsc(Ctx &c)
{
    Asc a;
    static const unsigned objects[] = { 1, 2, 4 };
    a.object = c.pick(objects);
    a.index = static_cast<unsigned>(c.choose(14, "frequency"));
    if (a.index == 13)
        a.index = 15, a.explicitRate = c.flip("rate") ? 0xFFFFFF : 37800;
    a.channels = static_cast<unsigned>(1 + c.choose(7, "channels"));
    a.extension = static_cast<int>(c.choose(6, "extension"));
    if (a.extension && a.extension < 5) {
        static const unsigned indexes[] = { 0, 3, 12, 15 };
        a.extensionIndex = c.pick(indexes);
        if (a.extensionIndex == 15)
            a.extensionRate = 54321;
    }
    c.log("object %u, frequency %u/%u, channels %u, extension %d with %u", a.object, a.index, a.explicitRate, a.channels, a.extension, a.extensionIndex);
    return a;
}
unsigned aacSub(unsigned object)
{
    return object == 1 ? SubFormats::AacMpeg4MainProfile : object == 2 ? SubFormats::AacMpeg4LowComplexityProfile : SubFormats::AacMpeg4LongTermPrediction;
}
void checkAsc(Ctx &c, AbstractTrack &t, const Asc &a)
{
    const bool sbr = a.extension && a.extension < 5, ps = a.extension == 2 || a.extension == 4;
    c.check(t.format() == F::Aac && t.format().sub == aacSub(a.object) && t.format().extension == (sbr ? ExtensionFormats::SpectralBandReplication : 0) + (ps ? ExtensionFormats::ParametricStereo : 0), "aac-format",
        "format is %u/%u/%u", static_cast<unsigned>(t.format().general), t.format().sub, t.format().extension);
    c.check(t.channelConfig() == a.channels, "aac-channels", "channel configuration is %u instead of %u", t.channelConfig(), a.channels);
}
VT_SUITE(mp4Aac, 8)
{
    const auto a = chooseAsc(c);
    static const unsigned rates[] = { 0, 1000, 128000, 0xFFFFFFFF };
    const auto average = rates[c.top % 4], maximum = rates[(c.top + 1) % 4];
    const auto width = c.top >= 4 ? 4 : 1;
    static const unsigned allFlags[] = { 0, 0x80, 0x40, 0xE0 };
    mp4::TrackSpec t;
    t.chunks = { { 10 } };
    const auto d = esds(0x40, maximum, average, a.build(), width, allFlags[c.top % 4]);
    t.sampleEntry = soundEntry("mp4a", 2, 16, 32000u << 16, c.top == 7 ? mp4::atom("wave", mp4::atom("frma", "mp4a") + d) + d : d, c.top == 5);
    const auto p = parseMp4(c, t, false);
    auto &tr = *p.tracks.back();
    checkAsc(c, tr, a);
    const auto rate = a.index == 15 ? a.explicitRate : frequencies[a.index];
    c.check(tr.samplingFrequency() == rate, "aac-frequency", "sampling frequency is %u instead of %u", tr.samplingFrequency(), rate);
    const auto extension = !a.extension || a.extension == 5 ? 0 : a.extensionIndex == 15 ? a.extensionRate : frequencies[a.extensionIndex];
    c.check(tr.extensionSamplingFrequency() == extension, "aac-extension-frequency", "extension sampling frequency is %u instead of %u", tr.extensionSamplingFrequency(), extension);
    c.check((!average || near(tr.bitrate(), average / 1000.0)) && near(tr.maxBitrate(), maximum / 1000.0), "aac-bitrate", "bitrates are %f, %f instead of %f, %f", tr.bitrate(), tr.maxBitrate(), average / 1000.0, maximum / 1000.0);
}
VT_SUITE(mp4Video, 4)
{
    static const char *const ids[] = { "avc1", "hev1", "mp4v", "av01" };
    static const F formats[] = { F::Avc, F::Hevc, F::Mpeg4Video, F::Av1 };
    static const unsigned sizes[] = { 0, 1, 1920, 0xFFFF };
    const auto width = c.pick(sizes), height = c.pick(sizes), frames = c.pick(sizes);
    static const unsigned resolutions[] = { 72, 300, 0xFFFF };
    const auto resolution = c.pick(resolutions);
    static const Bytes names[] = { Bytes(), "x", Bytes(31, 'n') };
    const auto name = c.pick(names);
    static const unsigned depths[] = { 24, 32, 0xFFFF };
    const auto depth = c.pick(depths);
    mp4::TrackSpec t;
    t.chunks = { { 10 } };
    t.sampleEntry = videoEntry(ids[c.top], width, height, resolution, frames, name, depth, mp4::atom("XXxx", filler(9, 3)));
    const auto p = parseMp4(c, t, true);
    auto &tr = *p.tracks.back();
    c.check(tr.format() == formats[c.top] && tr.formatId() == ids[c.top], "mp4-video-format", "%s is read as %s", ids[c.top], tr.formatId().c_str());
    c.check(tr.pixelSize().width() == width && tr.pixelSize().height() == height && tr.resolution().width() == resolution && tr.resolution().height() == resolution && tr.depth() == depth && tr.compressorName() == name, "mp4-video-fields",
        "%ux%u, resolution %u, depth %u, name %s instead of %ux%u, %u, %u, %s", tr.pixelSize().width(), tr.pixelSize().height(), tr.resolution().width(), tr.depth(), quote(tr.compressorName()).c_str(), width, height, resolution, depth,
        quote(name).c_str());
}
VT_SUITE(avc, 2)
{
    const auto a = chooseAvc(c);
    c.log("profile %u, chroma %u, scaling %u, %ux%u, order %u, progressive %d, VUI %u", a.profile, a.chroma, a.scaling, a.width, a.height, a.poc, a.progressive, a.vui);
    if (c.top) {
        mp4::TrackSpec t;
        t.chunks = { { 10 } };
        t.sampleEntry = videoEntry("avc1", 64, 48, 72, 1, "x", 24, mp4::atom("avcC", a.build()));
        const auto p = parseMp4(c, t, true);
        checkAvc(c, *p.tracks.back(), a);
    } else {
        mkv::File f;
        f.segments.emplace_back();
        auto &s = f.segments[0];
        s.order = "SITK";
        s.clusters.emplace_back();
        s.trackEntries = { ebml::el(ebml::TrackEntry, ebml::elU(ebml::TrackNumber, 1) + ebml::elU(ebml::TrackUID, 5) + ebml::elU(ebml::TrackType, 1) + ebml::el(ebml::CodecID, "V_MPEG4/ISO/AVC") + ebml::el(ebml::CodecPrivate, a.build())
            + ebml::el(ebml::Video, ebml::elU(ebml::PixelWidth, 64) + ebml::elU(ebml::PixelHeight, 48))) };
        const auto p = parse(c, "a.mkv", mkv::build(f));
        checkAvc(c, *p.tracks.back(), a);
    }
}

// Matroska
Parsed parseMkv(Ctx &c, const Bytes &entry, const Bytes &info = Bytes())
{
    mkv::File f;
    f.segments.emplace_back();
    auto &s = f.segments[0];
    s.order = "SITK";
    s.clusters.emplace_back();
    s.trackEntries = { ebml::el(ebml::TrackEntry, entry) };
    s.infoElements = info;
    return parse(c, "a.mkv", mkv::build(f));
}
const Bytes mkvStart = ebml::elU(ebml::TrackNumber, 1) + ebml::elU(ebml::TrackUID, 5);
VT_SUITE(mkvAudio, 8)
{
    struct Codec {
        const char *id;
        F format;
        unsigned sub;
    };
    static const Codec codecs[] = { { "A_VORBIS", F::Vorbis, 0 }, { "A_OPUS", F::Opus, 0 }, { "A_FLAC", F::Flac, 0 }, { "A_AC3", F::Ac3, 0 }, { "A_MPEG/L3", F::Mpeg1Audio, 3 }, { "A_PCM/INT/LIT", F::Pcm, SubFormats::PcmIntLe }, { "A_PCM/FLOAT/IEEE", F::Pcm, SubFormats::PcmFloatIeee },
        { "A_AAC/MPEG4/LC", F::Aac, SubFormats::AacMpeg4LowComplexityProfile } };
    auto &codec = codecs[c.top];
    static const double rates[] = { -1, 1, 8000, 22050, 44100, 192000, 16777216 };
    const auto rate = c.pick(rates), output = c.pick(rates);
    const auto width = c.flip("float") ? 4 : 8;
    static const unsigned counts[] = { 0, 1, 2, 6, 0xFFFF }; // 0 = not present
    const auto channels = c.pick(counts), bits = c.pick(counts);
    const auto late = c.flip("type after audio");
    const auto type = ebml::elU(ebml::TrackType, 2);
    const auto b = mkvStart + (late ? Bytes() : type) + ebml::el(ebml::CodecID, codec.id)
        + ebml::el(ebml::Audio, (rate > 0 ? ebml::el(ebml::SamplingFrequency, number(rate, width)) : Bytes()) + (output > 0 ? ebml::el(ebml::OutputSamplingFrequency, number(output, width)) : Bytes())
                + (channels ? ebml::elU(ebml::Channels, channels) : Bytes()) + (bits ? ebml::elU(ebml::BitDepth, bits) : Bytes()))
        + (late ? type : Bytes());
    c.log("%s, rate %f, output %f, channels %u, bits %u", codec.id, rate, output, channels, bits);
    const auto p = parseMkv(c, b);
    auto &t = *p.tracks[0];
    c.check(t.mediaType() == MediaType::Audio && t.format() == codec.format && t.format().sub == codec.sub && t.formatId() == codec.id, "mkv-audio-format", "%s is read as %u/%u", codec.id, static_cast<unsigned>(t.format().general), t.format().sub);
    c.check(t.samplingFrequency() == (rate > 0 ? static_cast<unsigned>(rate) : 8000u), "mkv-frequency", "sampling frequency is %u instead of %f", t.samplingFrequency(), rate);
    c.check(t.extensionSamplingFrequency() == (output > 0 ? static_cast<unsigned>(output) : 0), "mkv-output-frequency", "output sampling frequency is %u instead of %f", t.extensionSamplingFrequency(), output);
    c.check(t.channelCount() == (channels ? channels : 1) && t.bitsPerSample() == bits, "mkv-channels", "%u channels, %u bits instead of %u, %u", t.channelCount(), t.bitsPerSample(), channels, bits);
}
VT_SUITE(mkvVideo, 7)
{
    struct Codec {
        const char *id;
        F format;
    };
    static const Codec codecs[] = { { "V_VP8", F::Vp8 }, { "V_VP9", F::Vp9 }, { "V_AV1", F::Av1 }, { "V_MPEGH/ISO/HEVC", F::Hevc }, { "V_THEORA", F::Theora }, { "V_MPEG2", F::Mpeg2Video }, { "V_UNCOMPRESSED", F::UncompressedVideoFrames } };
    auto &codec = codecs[c.top];
    static const unsigned sizes[] = { 1, 255, 1920, 0x12345678 };
    const auto width = c.pick(sizes), height = c.pick(sizes);
    static const unsigned displays[] = { 0, 1280 };
    const auto displayWidth = c.pick(displays), displayHeight = c.pick(displays);
    static const std::uint64_t durations[] = { 0, 1000000000, 40000000, 41708333, 33366667, 16666667, 2000000 };
    const auto duration = c.pick(durations);
    const auto interlaced = c.choose(4, "interlaced"); // 0 = not present, 1.. = 0..
    const auto late = c.flip("type at the end");
    const auto type = ebml::elU(ebml::TrackType, 1);
    const auto b = mkvStart + (late ? Bytes() : type) + ebml::el(ebml::CodecID, codec.id) + (duration ? ebml::elU(ebml::DefaultDuration, duration) : Bytes())
        + ebml::el(ebml::Video, (interlaced ? ebml::elU(0x9A, interlaced - 1) : Bytes()) + ebml::elU(ebml::PixelWidth, width) + ebml::elU(ebml::PixelHeight, height) + (displayWidth ? ebml::elU(ebml::DisplayWidth, displayWidth) : Bytes())
                + (displayHeight ? ebml::elU(ebml::DisplayHeight, displayHeight) : Bytes()) + ebml::elU(0x54BB, 3) + ebml::elU(0x54AA, 4) + ebml::elU(0x54CC, 5) + ebml::elU(0x54DD, 6))
        + (late ? type : Bytes());
    c.log("%s, %ux%u, display %ux%u, duration %llu, interlaced %zu%s", codec.id, width, height, displayWidth, displayHeight, static_cast<unsigned long long>(duration), interlaced, late ? ", type at the end" : "");
    const auto p = parseMkv(c, b);
    auto &t = *p.tracks[0];
    c.check(t.mediaType() == MediaType::Video && t.format() == codec.format, "mkv-video-format", "%s is read as %u", codec.id, static_cast<unsigned>(t.format().general));
    c.check(t.pixelSize().width() == width && t.pixelSize().height() == height, "mkv-size", "%ux%u instead of %ux%u", t.pixelSize().width(), t.pixelSize().height(), width, height);
    c.check(t.displaySize().width() == (displayWidth ? displayWidth : width) && t.displaySize().height() == (displayHeight ? displayHeight : height), "mkv-display-size", "%ux%u", t.displaySize().width(), t.displaySize().height());
    c.check(t.cropping().top() == 3 && t.cropping().bottom() == 4 && t.cropping().left() == 5 && t.cropping().right() == 6, "mkv-cropping", "cropping is %u, %u, %u, %u", t.cropping().top(), t.cropping().bottom(), t.cropping().left(), t.cropping().right());
    const auto fps = duration ? 1e9 / static_cast<double>(duration) : 0.0;
    c.check(t.fps() == std::floor(fps) || t.fps() == std::ceil(fps), "mkv-fps", "frame rate is %u instead of %f", t.fps(), fps);
    c.check(t.isInterlaced() == (interlaced == 2), "mkv-interlaced", "interlaced is %d for %zu", t.isInterlaced(), interlaced - 1);
}
VT_SUITE(mkvDuration, 6)
{
    static const std::uint64_t scales[] = { 0, 1, 1000, 1000000, 10000000, 1000000000 }; // 0 = not present
    const auto scale = scales[c.top];
    static const double values[] = { 0, 1, 4096.5, 7200000, 86400000 };
    const auto value = c.pick(values);
    const auto width = c.flip("float") ? 4 : 8;
    const auto first = c.flip("duration first"), title = c.flip("title");
    const auto d = ebml::el(ebml::Duration, number(value, width)), s = scale ? ebml::elU(ebml::TimecodeScale, scale) : Bytes();
    c.log("scale %llu, value %f", static_cast<unsigned long long>(scale), value);
    const auto p = parseMkv(c, mkvStart + ebml::elU(ebml::TrackType, 1) + ebml::el(ebml::CodecID, "V_VP8"), (first ? d + s : s + d) + (title ? ebml::el(ebml::Title, "movie") : Bytes()));
    const auto want = value * static_cast<double>(scale ? scale : 1000000) / 1e9;
    c.check(sameDuration(p.s->file.duration(), want), "mkv-duration", "duration is %f instead of %f", seconds(p.s->file.duration()), want);
    c.check(p.s->file.container()->titles().size() == 1 && p.s->file.container()->titles()[0] == (title ? "movie" : ""), "mkv-title", "title is wrong");
}
VT_SUITE(mkvFlags, 3)
{
    // 0 = not present, otherwise the value plus one
    unsigned flags[4];
    for (auto &f : flags)
        f = static_cast<unsigned>(c.choose(3, "flag"));
    static const std::uint64_t uids[] = { 1, 0x80, 0xFFFFFFFF, ~0ull };
    const auto uid = c.pick(uids);
    static const unsigned numbers[] = { 1, 126, 127, 300 };
    const auto no = c.pick(numbers);
    static const struct {
        const char *language, *ietf;
    } languages[] = { { nullptr, nullptr }, { "ger", nullptr }, { "und", nullptr }, { nullptr, "pt-BR" }, { "chi", "zh-Hant" } };
    auto &l = languages[c.choose(std::size(languages), "language")];
    static const unsigned types[] = { 1, 2, 17, 18, 32 };
    static const MediaType mediaTypes[] = { MediaType::Video, MediaType::Audio, MediaType::Text, MediaType::Buttons, MediaType::Control };
    const auto type = c.choose(std::size(types), "type");
    static const std::uint64_t ids[] = { ebml::FlagEnabled, ebml::FlagDefault, ebml::FlagForced, ebml::FlagLacing };
    Bytes b = ebml::elU(ebml::TrackNumber, no, c.top ? 4 : 0) + ebml::elU(ebml::TrackUID, uid, c.top == 2 ? 8 : 0) + ebml::elU(ebml::TrackType, types[type]);
    for (int i = 0; i < 4; ++i)
        if (flags[i])
            b += ebml::elU(ids[i], flags[i] - 1);
    if (l.ietf)
        b += ebml::el(ebml::LanguageIETF, l.ietf);
    if (l.language)
        b += ebml::el(ebml::Language, l.language);
    b += ebml::el(ebml::Name, "n\xC3\xA4me");
    const auto p = parseMkv(c, b + ebml::el(ebml::CodecID, "X_TEST"));
    auto &t = *p.tracks[0];
    c.check(t.isEnabled() == (flags[0] != 1) && t.isDefault() == (flags[1] != 1) && t.isForced() == (flags[2] == 2), "mkv-flags", "flags %u%u%u are read as %s", flags[0], flags[1], flags[2], dumpTrack(t).c_str());
    if (flags[3])
        c.check(t.hasLacing() == (flags[3] == 2), "mkv-lacing", "lacing is %d", t.hasLacing());
    c.check(t.id() == uid && t.trackNumber() == no && t.mediaType() == mediaTypes[type] && t.name() == "n\xC3\xA4me", "mkv-id", "ID, number, type or name are wrong: %s", dumpTrack(t).c_str());
    const Bytes language = t.locale().abbreviatedName(LocaleFormat::ISO_639_2_B), ietf = t.locale().abbreviatedName(LocaleFormat::BCP_47);
    const Bytes want = l.language ? l.language : "eng";
    c.check((language.empty() ? "und" : language) == want && ietf == (l.ietf ? l.ietf : ""), "mkv-language", "language is %s/%s", language.c_str(), ietf.c_str());
}
VT_SUITE(mkvAac, 1)
{
    const auto a = chooseAsc(c);
    const auto p = parseMkv(c, mkvStart + ebml::elU(ebml::TrackType, 2) + ebml::el(ebml::CodecID, "A_AAC") + ebml::el(ebml::CodecPrivate, a.build()) + ebml::el(ebml::Audio, ebml::el(ebml::SamplingFrequency, number(22050, 8)) + ebml::elU(ebml::Channels, 2)));
    checkAsc(c, *p.tracks[0], a);
    c.check(p.tracks[0]->samplingFrequency() == 22050, "mkv-aac-frequency", "sampling frequency is %u", p.tracks[0]->samplingFrequency());
}

// RIFF/WAVE
Bytes surroundedWave(Ctx &c, const Bytes &fmtChunk, const Bytes &data)
{
    const auto before = c.choose(3, "before"), between = c.choose(3, "between"), after = c.choose(2, "after");
    const Bytes extra[] = { Bytes(), chunk("LIST", "INFO" + filler(6, 3)), chunk("JUNK", "abcde") };
    return wave(extra[before] + chunk("fmt ", fmtChunk) + extra[between] + chunk("data", data) + (after ? chunk("id3 ", "abc") : Bytes()));
}
VT_SUITE(waveFiles, 4)
{
    Fmt f;
    static const unsigned tags[] = { 1, 3, 0xFFFE, 7 };
    f.tag = tags[c.top];
    static const unsigned counts[] = { 1, 2, 6, 255 }, rates[] = { 8000, 44100, 192000 }, depths[] = { 8, 16, 24, 32 };
    f.channels = c.pick(counts), f.rate = c.pick(rates), f.bits = c.pick(depths);
    f.valid = f.bits;
    f.block = f.channels * f.bits / 8;
    f.bytes = f.block * f.rate;
    static const std::size_t samples[] = { 0, 1, 333 };
    const auto n = c.pick(samples);
    const auto extended = f.tag == 7 || c.flip("extended");
    c.log("tag %X, %u channels, %u Hz, %u bits, %zu samples", f.tag, f.channels, f.rate, f.bits, n);
    const auto p = parse(c, "a.wav", surroundedWave(c, f.build(extended), filler(n * f.block, 9)));
    auto &t = *p.tracks[0];
    c.check(t.mediaType() == MediaType::Audio && (f.tag == 7 || (t.format() == F::Pcm && t.format().sub == ((f.tag == 3 || (f.tag == 0xFFFE && f.valid == 32)) ? SubFormats::PcmFloatIeee : SubFormats::PcmIntLe))), "wave-format", "format is %u/%u",
        static_cast<unsigned>(t.format().general), t.format().sub);
    c.check(t.channelCount() == f.channels && t.samplingFrequency() == f.rate && t.bitsPerSample() == f.bits, "wave-fields", "%u channels, %u Hz, %u bits", t.channelCount(), t.samplingFrequency(), t.bitsPerSample());
    c.check(t.sampleCount() == n && t.size() == n * f.block && sameDuration(t.duration(), static_cast<double>(n) / f.rate), "wave-samples", "%llu samples, %llu bytes, %f seconds", static_cast<unsigned long long>(t.sampleCount()),
        static_cast<unsigned long long>(t.size()), seconds(t.duration()));
    c.check(near(t.bitrate(), f.bytes * 8.0 / 1000), "wave-bitrate", "bitrate is %f instead of %f kbit/s", t.bitrate(), f.bytes * 8.0 / 1000);
}
VT_SUITE(waveMpeg, 2)
{
    static const unsigned versions[] = { 0, 2, 3 };
    const unsigned layer = c.top ? 1 : 2;
    const auto version = versions[c.choose(3, "version")];
    static const unsigned rates[] = { 1, 9, 14 };
    const auto rate = c.pick(rates);
    const auto frequency = static_cast<unsigned>(c.choose(3, "frequency")), mode = static_cast<unsigned>(c.choose(4, "channel mode"));
    const auto h = 0xFFE00000u | version << 19 | layer << 17 | 1u << 16 | rate << 12 | frequency << 10 | mode << 6;
    const auto m = mpeg(h);
    Fmt f;
    f.tag = c.top ? 0x55 : 0x50;
    f.channels = m.channels, f.rate = m.frequency, f.bits = 0, f.block = 1, f.bytes = m.bitrate * 125;
    Bytes frame = BE(h, 4);
    const auto xing = c.top && c.flip("Xing header");
    const auto side = m.version == 1.0 ? (m.channels == 1 ? 17u : 32u) : (m.channels == 1 ? 9u : 17u);
    if (xing && m.size < side + 4 + 16)
        c.skip();
    if (xing)
        frame += Bytes(side, '\0') + "Xing" + BE(3, 4) + BE(50, 4) + BE(4711, 4);
    frame.resize(m.size, 'x');
    c.log("header %08X%s", h, xing ? " with Xing header" : "");
    Bytes data = frame + BE(h, 4) + Bytes(m.size - 4, 'x');
    const auto p = parse(c, "a.wav", surroundedWave(c, f.build(true), data));
    auto &t = *p.tracks[0];
    checkMpeg(c, t, m);
    const auto duration = xing ? 50.0 * m.samples / m.frequency : static_cast<double>(data.size()) / (m.bitrate * 125.0);
    const auto bitrate = xing ? static_cast<double>(data.size()) / duration / 125.0 : m.bitrate;
    c.check(near(t.bitrate(), bitrate), "wave-mpeg-bitrate", "bitrate is %f instead of %f", t.bitrate(), bitrate);
    c.check(sameDuration(t.duration(), duration), "wave-mpeg-duration", "duration is %f instead of %f", seconds(t.duration()), duration);
}

// IVF
VT_SUITE(ivf, 4)
{
    static const char *const ids[] = { "VP80", "VP90", "AV01", "H264" };
    static const unsigned sizes[] = { 0, 1, 1920, 0xFFFF };
    const auto width = c.pick(sizes), height = c.pick(sizes);
    static const std::uint32_t rates[][2] = { { 1, 1 }, { 30, 1 }, { 25, 2 }, { 30000, 1001 }, { 90000, 3003 }, { 1000000, 1 } };
    auto &rate = rates[c.choose(std::size(rates), "rate")];
    static const std::uint32_t counts[] = { 0, 1, 1000, 0xFFFFFFFF };
    const auto count = c.pick(counts);
    c.log("%ux%u, %u/%u, %u frames", width, height, rate[0], rate[1], count);
    const auto frames = LE(5, 4) + LE(0, 8) + "abcde" + LE(300, 4) + LE(0x102030405ull, 8) + Bytes(300, 'x');
    const auto p = parse(c, "a.ivf", "DKIF" + LE(0, 2) + LE(32, 2) + ids[c.top] + LE(width, 2) + LE(height, 2) + LE(rate[0], 4) + LE(rate[1], 4) + LE(count, 4) + LE(0, 4) + frames);
    auto &t = *p.tracks[0];
    c.check(t.formatId() == ids[c.top], "ivf-format", "format ID is %s", t.formatId().c_str());
    if (c.top < 3)
        c.check(t.format() == (c.top == 0 ? F::Vp8 : c.top == 1 ? F::Vp9 : F::Av1), "ivf-format", "format is %u", static_cast<unsigned>(t.format().general));
    c.check(t.pixelSize().width() == width && t.pixelSize().height() == height && t.sampleCount() == count, "ivf-fields", "%ux%u, %llu frames", t.pixelSize().width(), t.pixelSize().height(), static_cast<unsigned long long>(t.sampleCount()));
    const auto fps = static_cast<double>(rate[0]) / rate[1];
    c.check(t.fps() == std::floor(fps) || t.fps() == std::ceil(fps), "ivf-fps", "frame rate is %u instead of %f", t.fps(), fps);
    c.check(sameDuration(t.duration(), count / fps), "ivf-duration", "duration is %f instead of %f", seconds(t.duration()), count / fps);
}
} // namespace
