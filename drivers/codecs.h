// encoders of the codec specific headers found within the various container formats
#pragma once
#include "mp4file.h"

namespace codecs {
using namespace ref;
struct Bits {
    Bytes data;
    int used = 0; // bits of the last byte
    Bits &put(std::uint64_t v, int n)
    {
        for (int i = n - 1; i >= 0; --i) {
            if (!used)
                data.push_back('\0');
            if ((v >> i) & 1)
                data.back() = static_cast<char>(data.back() | (0x80 >> used));
            used = (used + 1) % 8;
        }
        return *this;
    }
    Bits &ue(std::uint64_t v)
    {
        int n = 0;
        while ((v + 1) >> (n + 1))
            ++n;
        return put(0, n).put(v + 1, n + 1);
    }
    Bits &se(std::int64_t v)
    {
        return ue(v > 0 ? static_cast<std::uint64_t>(2 * v - 1) : static_cast<std::uint64_t>(-2 * v));
    }
};
inline Bytes adts(bool mpeg2, bool crc, unsigned profile, unsigned frequency, unsigned channels, unsigned size, unsigned fullness = 0x7FF, unsigned frames = 0)
{
    Bits b;
    b.put(0xFFF, 12).put(mpeg2, 1).put(0, 2).put(!crc, 1).put(profile, 2).put(frequency, 4).put(1, 1).put(channels, 3).put(1, 1).put(0, 1).put(1, 1).put(0, 1).put(size, 13).put(fullness, 11).put(frames, 2);
    if (crc)
        b.put(0xABCD, 16);
    return b.data;
}
struct Avc {
    unsigned profile = 100, level = 41, chroma = 1, width = 20, height = 15, poc = 0, vui = 0, sar = 0, scaling = 0;
    bool progressive = true;
    unsigned crop[4] = { 0, 0, 0, 0 }; // left, right, top, bottom
    unsigned units = 1, scale = 50;
    bool high() const
    {
        return profile == 100 || profile == 110 || profile == 122 || profile == 244;
    }
    unsigned format() const
    {
        return high() ? chroma : 1;
    }
    unsigned pixelWidth() const
    {
        return width * 16 - (format() == 1 || format() == 2 ? 2 : 1) * (crop[0] + crop[1]);
    }
    unsigned pixelHeight() const
    {
        return (progressive ? 1 : 2) * height * 16 - (format() == 1 ? 2 : 1) * (progressive ? 1 : 2) * (crop[2] + crop[3]);
    }
    Bytes build() const
    {
        Bits b;
        b.put(0x67, 8).put(profile, 8).put(0, 8).put(level, 8).ue(0);
        if (high()) {
            b.ue(chroma);
            if (chroma == 3)
                b.put(0, 1);
            b.ue(0).ue(0).put(0, 1).put(scaling != 0, 1);
            if (scaling)
                for (int i = 0; i < (chroma == 3 ? 12 : 8); ++i) {
                    const bool present = scaling == 2 || i == 0 || i == 6;
                    b.put(present, 1);
                    if (!present)
                        continue;
                    if (scaling == 2 && i % 2) {
                        b.se(-8); // default list
                        continue;
                    }
                    const int n = i < 6 ? 16 : 64;
                    for (int k = 0; k < n; ++k)
                        b.se(k % 3 == 0 ? 2 : k % 3 == 1 ? -1 : 0);
                }
        }
        b.ue(4).ue(poc);
        if (poc == 0)
            b.ue(2);
        else if (poc == 1)
            b.put(0, 1).se(-3).se(5).ue(2).se(1).se(-400);
        b.ue(3).put(0, 1).ue(width - 1).ue(height - 1).put(progressive, 1);
        if (!progressive)
            b.put(1, 1);
        b.put(1, 1);
        const bool cropped = crop[0] || crop[1] || crop[2] || crop[3];
        b.put(cropped, 1);
        if (cropped)
            for (auto v : crop)
                b.ue(v);
        b.put(vui != 0, 1);
        if (vui) {
            b.put(sar != 0, 1);
            if (sar) {
                b.put(sar, 8);
                if (sar == 255)
                    b.put(1000, 16).put(3, 16);
            }
            b.put(vui & 2 ? 1 : 0, 1);
            if (vui & 2)
                b.put(1, 1);
            b.put(vui & 4 ? 1 : 0, 1);
            if (vui & 4)
                b.put(0xD, 4).put(1, 1).put(0x010101, 24);
            b.put(0, 1);
            b.put(vui & 8 ? 1 : 0, 1);
            if (vui & 8)
                b.put(units, 32).put(scale, 32).put(1, 1);
            b.put(0, 1).put(0, 1).put(1, 1);
            b.put(1, 1).put(1, 1).ue(2).ue(1).ue(16).ue(16).ue(2).ue(4);
        }
        b.put(1, 1);
        // insert emulation prevention bytes
        Bytes sps;
        for (auto ch : b.data) {
            if (sps.size() >= 2 && !sps[sps.size() - 1] && !sps[sps.size() - 2] && static_cast<unsigned char>(ch) <= 3)
                sps += '\x03';
            sps += ch;
        }
        const Bytes pps("\x68\xCE\x38\x80", 4);
        return BE(1, 1) + BE(profile, 1) + BE(0, 1) + BE(level, 1) + "\xFF\xE1" + BE(sps.size(), 2) + sps + "\x01" + BE(pps.size(), 2) + pps;
    }
};
inline Bytes descriptor(unsigned tag, const Bytes &d, int width = 1)
{
    Bytes size;
    for (int i = width - 1; i >= 0; --i)
        size += static_cast<char>(((d.size() >> (7 * i)) & 0x7F) | (i ? 0x80 : 0));
    return BE(tag, 1) + size + d;
}
inline Bytes esds(unsigned object, unsigned maximum, unsigned average, const Bytes &specific, int width, unsigned flags = 0)
{
    Bytes config = BE(object, 1) + "\x15" + BE(6144, 3) + BE(maximum, 4) + BE(average, 4) + (specific.empty() ? Bytes() : descriptor(5, specific, width));
    Bytes es = BE(1, 2) + BE(flags, 1) + (flags & 0x80 ? BE(7, 2) : Bytes()) + (flags & 0x40 ? BE(3, 1) + "url" : Bytes()) + (flags & 0x20 ? BE(9, 2) : Bytes());
    return mp4::atom("esds", BE(0, 4) + descriptor(3, es + descriptor(4, config, width) + descriptor(6, "\x02"), width));
}
inline Bytes soundEntry(const char *id, unsigned channels, unsigned bits, std::uint32_t rawRate, const Bytes &kids, unsigned version = 0)
{
    return mp4::atom(id, BE(0, 6) + BE(1, 2) + BE(version, 2) + BE(0, 6) + BE(channels, 2) + BE(bits, 2) + BE(0, 4) + BE(rawRate, 4) + (version == 1 ? BE(1024, 4) + BE(2, 4) + BE(4, 4) + BE(2, 4) : Bytes()) + kids);
}
inline Bytes videoEntry(const char *id, unsigned width, unsigned height, unsigned resolution, unsigned frames, const Bytes &name, unsigned depth, const Bytes &kids)
{
    Bytes n = BE(name.size(), 1) + name;
    n.resize(32);
    return mp4::atom(id, BE(0, 6) + BE(1, 2) + BE(0, 16) + BE(width, 2) + BE(height, 2) + BE(resolution << 16, 4) + BE(resolution << 16, 4) + BE(0, 4) + BE(frames, 2) + n + BE(depth, 2) + "\xFF\xFF" + kids);
}
struct Asc {
    unsigned object = 2, index = 4, explicitRate = 0, channels = 2;
    int extension = 0; // 0 = none, 1 = SBR explicit (hierarchical), 2 = PS explicit (hierarchical), 3 = SBR with sync extension, 4 = SBR and PS with sync extensions, 5 = sync extension denoting absence of SBR
    unsigned extensionIndex = 3, extensionRate = 0;
    static void putObject(Bits &b, unsigned o)
    {
        if (o < 31)
            b.put(o, 5);
        else
            b.put(31, 5).put(o - 32, 6);
    }
    static void putRate(Bits &b, unsigned i, unsigned r)
    {
        b.put(i, 4);
        if (i == 15)
            b.put(r, 24);
    }
    Bytes build() const
    {
        Bits b;
        const bool hierarchical = extension == 1 || extension == 2;
        putObject(b, hierarchical ? (extension == 1 ? 5 : 29) : object);
        putRate(b, index, explicitRate);
        b.put(channels, 4);
        if (hierarchical) {
            putRate(b, extensionIndex, extensionRate);
            putObject(b, object);
        }
        b.put(0, 1).put(0, 1).put(0, 1);
        if (extension >= 3) {
            b.put(0x2B7, 11);
            putObject(b, 5);
            b.put(extension != 5, 1);
            if (extension != 5)
                putRate(b, extensionIndex, extensionRate);
            if (extension == 4)
                b.put(0x548, 11).put(1, 1);
        }
        return b.data;
    }
};
inline Bytes number(double v, int width)
{
    if (!width)
        return Bytes();
    if (width == 4) {
        const auto f = static_cast<float>(v);
        std::uint32_t i;
        std::memcpy(&i, &f, 4);
        return BE(i, 4);
    }
    std::uint64_t i;
    std::memcpy(&i, &v, 8);
    return BE(i, 8);
}
struct Fmt {
    unsigned tag = 1, channels = 2, rate = 44100, bits = 16, block = 4, bytes = 176400, valid = 0;
    Bytes build(bool extended) const
    {
        Bytes b = LE(tag, 2) + LE(channels, 2) + LE(rate, 4) + LE(bytes, 4) + LE(block, 2) + LE(bits, 2);
        if (tag == 0xFFFE)
            return b + LE(22, 2) + LE(valid, 2) + LE(3, 4) + LE(valid == 32 ? 3 : 1, 2) + Bytes("\x00\x00\x00\x00\x10\x00\x80\x00\x00\xAA\x00\x38\x9B\x71", 14);
        if (tag == 0x55)
            return b + LE(12, 2) + LE(1, 2) + LE(2, 4) + LE(417, 2) + LE(1, 2) + LE(1393, 2);
        if (extended)
            b += LE(0, 2);
        return b;
    }
};
inline Bytes chunk(const char *id, Bytes d)
{
    const auto n = d.size();
    if (n % 2)
        d.push_back('\0');
    return Bytes(id, 4) + LE(n, 4) + d;
}
inline Bytes wave(const Bytes &chunks)
{
    return "RIFF" + LE(chunks.size() + 4, 4) + "WAVE" + chunks;
}
} // namespace codecs
