// independent model of MP3-like files: [ID3v2 tags][padding] audio [ID3v1]
#pragma once
#include "common.h"

namespace mp3 {
using ref::Bytes;
using vt::Ctx;
struct Frame {
    Bytes id, data;
};
struct V2 {
    int version = 4;
    std::vector<Frame> frames;
    std::size_t padding = 0;
    bool footer = false;
    unsigned flags = 0;
    Bytes text(const char *shortId, const char *longId) const // content of a text frame as UTF-8
    {
        for (auto &f : frames)
            if (f.id == (version == 2 ? shortId : longId) && !f.data.empty()) {
                auto v = f.data.substr(1);
                switch (f.data[0]) {
                case 0:
                    v = ref::decode(v, ref::TagTextEncoding::Latin1);
                    break;
                case 1: {
                    const bool be = v.size() >= 2 && v[0] == '\xFE';
                    v = ref::decode(v.size() >= 2 ? v.substr(2) : v, be ? ref::TagTextEncoding::Utf16BigEndian : ref::TagTextEncoding::Utf16LittleEndian);
                    break;
                }
                case 2:
                    v = ref::decode(v, ref::TagTextEncoding::Utf16BigEndian);
                    break;
                }
                while (!v.empty() && !v.back())
                    v.pop_back();
                return v;
            }
        return Bytes();
    }
    Bytes title() const
    {
        return text("TT2", "TIT2");
    }
    Bytes artist() const
    {
        return text("TP1", "TPE1");
    }
};
inline Bytes frame(int version, const Bytes &shortId, const Bytes &longId, const Bytes &data)
{
    if (version == 2)
        return shortId + ref::BE(data.size(), 3) + data;
    return longId + (version == 4 ? ref::syncsafe(static_cast<std::uint32_t>(data.size())) : ref::BE(data.size(), 4)) + Bytes(2, '\0') + data;
}
inline Bytes textFrame(int version, const Bytes &shortId, const Bytes &longId, const Bytes &text)
{
    return frame(version, shortId, longId, Bytes(1, '\0') + text);
}
inline Bytes tag(int version, const Bytes &frames, std::size_t padding, bool footer = false, const Bytes &ext = Bytes())
{
    const Bytes rest = Bytes(1, static_cast<char>(version)) + Bytes(1, '\0') + Bytes(1, static_cast<char>((footer ? 0x10 : 0) | (ext.empty() ? 0 : 0x40))) + ref::syncsafe(static_cast<std::uint32_t>(ext.size() + frames.size() + padding));
    return "ID3" + rest + ext + frames + Bytes(padding, '\0') + (footer ? "3DI" + rest : "");
}
inline Bytes v1(const Bytes &title, const Bytes &artist, int genre = 17)
{
    auto pad = [](Bytes s, std::size_t n) {
        s.resize(n);
        return s;
    };
    return "TAG" + pad(title, 30) + pad(artist, 30) + pad("", 30) + pad("", 4) + pad("", 30) + Bytes(1, static_cast<char>(genre));
}
// MPEG 1 layer 3, 128 kbit/s, 44.1 kHz, stereo; `size` bytes in total (last frame possibly cut)
inline Bytes audio(std::size_t size, unsigned seed = 1)
{
    Bytes r;
    while (r.size() < size) {
        Bytes f = ref::filler(413, seed + static_cast<unsigned>(r.size()));
        for (auto &ch : f)
            if (static_cast<unsigned char>(ch) == 0xFF || !ch)
                ch = 'x';
        r += "\xFF\xFB\x90\x44" + f;
    }
    r.resize(size);
    return r;
}
inline Bytes adts(std::size_t size)
{
    Bytes r;
    while (r.size() < size) {
        const std::size_t len = 200;
        Bytes f = Bytes("\xFF\xF1\x50\x80", 4) + Bytes(1, static_cast<char>(len >> 3)) + Bytes(1, static_cast<char>(((len & 7) << 5) | 0x1F)) + Bytes("\xFC", 1);
        f += ref::filler(len - 7, static_cast<unsigned>(r.size()));
        for (std::size_t i = 7; i < f.size(); ++i)
            if (static_cast<unsigned char>(f[i]) == 0xFF)
                f[i] = 'y';
        r += f;
    }
    r.resize(size);
    return r;
}
// parses the ID3v2 tags at the beginning; returns the number of bytes they take
inline std::size_t parse(Ctx &c, const Bytes &b, std::vector<V2> &tags)
{
    std::size_t p = 0;
    while (b.compare(p, 3, "ID3") == 0) {
        c.check(b.size() - p >= 10, "id3v2", "truncated header");
        V2 t;
        t.version = b[p + 3];
        c.check(t.version >= 2 && t.version <= 4 && !b[p + 4], "id3v2", "version %d.%d", b[p + 3], b[p + 4]);
        t.flags = static_cast<unsigned char>(b[p + 5]);
        t.footer = t.flags & 0x10;
        for (int i = 6; i < 10; ++i)
            c.check(!(b[p + i] & 0x80), "id3v2", "size of tag is not syncsafe");
        const auto size = ref::rdSyncsafe(b, p + 6);
        c.check(p + 10 + size + (t.footer ? 10 : 0) <= b.size(), "id3v2", "tag of %u bytes exceeds the file", size);
        std::size_t q = p + 10;
        const auto end = q + size;
        const std::size_t hdr = t.version == 2 ? 6 : 10;
        while (q < end && b[q]) {
            c.check(q + hdr <= end, "id3v2", "truncated frame");
            Frame f;
            f.id = b.substr(q, t.version == 2 ? 3 : 4);
            const std::size_t s = t.version == 2 ? ref::rdBE(b, q + 3, 3) : t.version == 3 ? ref::rdBE(b, q + 4, 4) : ref::rdSyncsafe(b, q + 4);
            c.check(s <= end - q - hdr, "id3v2", "frame %s of %zu bytes exceeds the tag", f.id.c_str(), s);
            f.data = b.substr(q + hdr, s);
            q += hdr + s;
            t.frames.push_back(std::move(f));
        }
        t.padding = end - q;
        for (; q < end; ++q)
            c.check(!b[q], "id3v2", "padding is not zero");
        if (t.footer) {
            c.check(b.compare(end, 3, "3DI") == 0 && b.compare(end + 3, 7, b, p + 3, 7) == 0, "id3v2", "footer missing");
        }
        p = end + (t.footer ? 10 : 0);
        tags.push_back(std::move(t));
    }
    return p;
}
} // namespace mp3
