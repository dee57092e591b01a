// independent model of raw FLAC files: [ID3v2] fLaC blocks frames [ID3v1]
#pragma once
#include "common.h"

namespace vorbis {
using ref::Bytes;
using vt::Ctx;
using Entries = std::vector<std::pair<Bytes, Bytes>>;
inline Bytes comment(const Bytes &vendor, const Entries &entries)
{
    Bytes b = ref::LE(vendor.size(), 4) + vendor + ref::LE(entries.size(), 4);
    for (auto &[k, v] : entries)
        b += ref::LE(k.size() + 1 + v.size(), 4) + k + "=" + v;
    return b;
}
inline std::pair<Bytes, Entries> decode(Ctx &c, std::string_view b, std::size_t *used = nullptr)
{
    std::size_t p = 0;
    auto str = [&]() {
        c.check(p + 4 <= b.size(), "comment", "truncated comment");
        const auto n = ref::rdLE(b, p, 4);
        p += 4;
        c.check(n <= b.size() - p, "comment", "comment string of %llu bytes exceeds the block", (unsigned long long)n);
        p += n;
        return Bytes(b.substr(p - n, n));
    };
    std::pair<Bytes, Entries> r;
    r.first = str();
    c.check(p + 4 <= b.size(), "comment", "truncated comment");
    const auto n = ref::rdLE(b, p, 4);
    p += 4;
    for (std::uint64_t i = 0; i < n; ++i) {
        const auto e = str();
        const auto eq = e.find('=');
        c.check(eq != Bytes::npos, "comment", "entry without '='");
        r.second.emplace_back(e.substr(0, eq), e.substr(eq + 1));
    }
    if (used)
        *used = p;
    else
        c.check(p == b.size(), "comment", "%zu superfluous bytes in comment block", b.size() - p);
    return r;
}
struct Picture {
    std::uint32_t type = 3;
    Bytes mime, desc, data;
};
inline bool operator==(const Picture &a, const Picture &b)
{
    return a.type == b.type && a.mime == b.mime && a.desc == b.desc && a.data == b.data;
}
inline Bytes encode(const Picture &p)
{
    return ref::BE(p.type, 4) + ref::BE(p.mime.size(), 4) + p.mime + ref::BE(p.desc.size(), 4) + p.desc + Bytes(16, '\0') + ref::BE(p.data.size(), 4) + p.data;
}
inline Picture decodePicture(Ctx &c, std::string_view b)
{
    Picture r;
    c.check(b.size() >= 32, "picture", "picture of %zu bytes", b.size());
    std::size_t p = 4;
    auto str = [&]() {
        c.check(p + 4 <= b.size(), "picture", "truncated picture");
        const auto n = ref::rdBE(b, p, 4);
        p += 4;
        c.check(n <= b.size() - p, "picture", "picture string exceeds the block");
        p += n;
        return Bytes(b.substr(p - n, n));
    };
    r.type = static_cast<std::uint32_t>(ref::rdBE(b, 0, 4));
    r.mime = str();
    r.desc = str();
    p += 16;
    r.data = str();
    c.check(p == b.size(), "picture", "%zu superfluous bytes in picture", b.size() - p);
    return r;
}
} // namespace vorbis

namespace flac {
using ref::Bytes;
using vt::Ctx;
enum Type { StreamInfo = 0, Padding, Application, SeekTable, Comment, CueSheet, Picture };
struct Block {
    int type = 0;
    Bytes data;
};
inline Bytes streamInfo(unsigned rate = 44100, unsigned channels = 2, unsigned bits = 16, std::uint64_t samples = 44100)
{
    const std::uint64_t packed = static_cast<std::uint64_t>(rate) << 44 | static_cast<std::uint64_t>(channels - 1) << 41 | static_cast<std::uint64_t>(bits - 1) << 36 | samples;
    return ref::BE(4096, 2) + ref::BE(4096, 2) + ref::BE(14, 3) + ref::BE(2000, 3) + ref::BE(packed, 8) + ref::filler(16, 77);
}
inline Bytes block(const Block &b, bool last)
{
    return Bytes(1, static_cast<char>(b.type | (last ? 0x80 : 0))) + ref::BE(b.data.size(), 3) + b.data;
}
inline Bytes blocks(const std::vector<Block> &bs)
{
    Bytes r = "fLaC";
    for (auto &b : bs)
        r += block(b, &b == &bs.back());
    return r;
}
inline Bytes frames(std::size_t n)
{
    Bytes b = "\xFF\xF8\xC9\x18" + ref::filler(n, 9);
    b.resize(n);
    return b;
}
// parses "fLaC" and the blocks starting at `off`; returns the offset of the first frame
inline std::size_t parse(Ctx &c, const Bytes &b, std::size_t off, std::vector<Block> &bs)
{
    c.check(b.compare(off, 4, "fLaC") == 0, "flac", "signature missing at %zu: %s", off, ref::hex(b.substr(std::min(off, b.size())), 16).c_str());
    std::size_t p = off + 4;
    for (bool last = false; !last;) {
        c.check(p + 4 <= b.size(), "flac", "block header at %zu is truncated (no block is denoted as last one)", p);
        last = b[p] & 0x80;
        Block k;
        k.type = b[p] & 0x7F;
        const auto n = ref::rdBE(b, p + 1, 3);
        c.check(p + 4 + n <= b.size(), "flac", "block of type %d at %zu declares %llu bytes", k.type, p, (unsigned long long)n);
        k.data = b.substr(p + 4, n);
        p += 4 + n;
        bs.push_back(std::move(k));
    }
    return p;
}
} // namespace flac
