// independent model of Ogg files: logical streams made of packets, arranged in pages; strict decoder
#pragma once
#include "flac.h"

namespace ogg {
using ref::Bytes;
using vt::Ctx;
using Granule = std::uint64_t;
constexpr Granule none = ~Granule(0);

inline std::uint32_t crc(std::string_view b)
{
    static const auto table = [] {
        std::array<std::uint32_t, 256> t{};
        for (std::uint32_t i = 0; i < 256; ++i) {
            std::uint32_t r = i << 24;
            for (int k = 0; k < 8; ++k)
                r = (r << 1) ^ ((r & 0x80000000u) ? 0x04c11db7u : 0);
            t[i] = r;
        }
        return t;
    }();
    std::uint32_t c = 0;
    for (unsigned char x : b)
        c = (c << 8) ^ table[((c >> 24) & 0xFF) ^ x];
    return c;
}
struct Packet {
    Bytes data;
    Granule granule = 0;
};
struct Page {
    int flags = 0;
    Granule granule = 0;
    std::uint32_t serial = 0, sequence = 0;
    std::vector<unsigned char> lacing;
    Bytes data;
};
inline Bytes str(const Page &p)
{
    Bytes b = "OggS" + Bytes(1, '\0') + Bytes(1, static_cast<char>(p.flags)) + ref::LE(p.granule, 8) + ref::LE(p.serial, 4) + ref::LE(p.sequence, 4) + Bytes(4, '\0')
        + Bytes(1, static_cast<char>(p.lacing.size())) + Bytes(p.lacing.begin(), p.lacing.end()) + p.data;
    b.replace(22, 4, ref::LE(crc(b), 4));
    return b;
}
enum Kind { Vorbis, Opus, Flac, Theora, Unknown };
inline const char *name(int k)
{
    static const char *n[] = { "Vorbis", "Opus", "FLAC", "Theora", "unknown" };
    return n[k];
}
struct Stream {
    int kind = Vorbis;
    std::uint32_t serial = 1;
    std::vector<Packet> packets;
    std::size_t headers = 3;
    bool eos = true;
    std::uint32_t firstSequence = 0;
};
// how packets are put into pages: at most `perPage` lacing values per page, flush points after certain packets
struct Paging {
    std::size_t perPage = 255;
    std::set<std::size_t> flushAfter; // indexes of packets; the first packet and the last header are always followed by a flush
    bool flushHeaders = true; // whether the rules regarding the header packets are obeyed
    std::set<std::size_t> emptyPageAfter; // pages without any segments
};
inline std::vector<Page> paginate(const Stream &s, const Paging &g)
{
    std::vector<Page> r;
    Page p;
    p.granule = none;
    bool midPacket = false;
    auto flush = [&](bool force) {
        if (p.lacing.empty() && !force)
            return;
        p.serial = s.serial;
        p.sequence = s.firstSequence + static_cast<std::uint32_t>(r.size());
        if (r.empty())
            p.flags |= 2;
        r.push_back(p);
        p = Page();
        p.granule = none;
        p.flags = midPacket ? 1 : 0;
    };
    for (std::size_t i = 0; i < s.packets.size(); ++i) {
        const auto &d = s.packets[i].data;
        for (std::size_t off = 0;;) {
            if (p.lacing.size() == g.perPage)
                flush(false);
            const auto n = std::min<std::size_t>(255, d.size() - off);
            p.lacing.push_back(static_cast<unsigned char>(n));
            p.data += d.substr(off, n);
            off += n;
            midPacket = n == 255;
            if (n < 255)
                break;
        }
        p.granule = s.packets[i].granule;
        if (g.flushAfter.count(i) || (g.flushHeaders && (i == 0 || i + 1 == s.headers)))
            flush(false);
        if (g.emptyPageAfter.count(i)) {
            flush(false);
            flush(true);
        }
    }
    flush(false);
    if (s.eos && !r.empty())
        r.back().flags |= 4;
    return r;
}
inline Bytes identification(int kind)
{
    switch (kind) {
    case Vorbis:
        return Bytes("\x01vorbis", 7) + ref::LE(0, 4) + "\x02" + ref::LE(44100, 4) + ref::LE(0, 4) + ref::LE(128000, 4) + ref::LE(0, 4) + "\xB8\x01";
    case Opus:
        return Bytes("OpusHead\x01\x02", 10) + ref::LE(312, 2) + ref::LE(48000, 4) + Bytes(3, '\0');
    case Flac:
        return Bytes("\x7F" "FLAC\x01", 6) + Bytes(1, '\0') + ref::BE(2, 2) + "fLaC" + flac::block({ flac::StreamInfo, flac::streamInfo() }, false);
    case Theora:
        return "\x80theora\x03\x02\x01" + ref::filler(32, 21);
    default:
        return "whatever" + ref::filler(30, 22);
    }
}
inline Bytes commentPacket(int kind, const Bytes &vendor, const vorbis::Entries &e, bool last = false)
{
    const auto c = vorbis::comment(vendor, e);
    switch (kind) {
    case Vorbis:
        return "\x03vorbis" + c + "\x01";
    case Opus:
        return "OpusTags" + c;
    default:
        return flac::block({ flac::Comment, c }, last);
    }
}
inline std::size_t overhead(int kind)
{
    return kind == Vorbis ? 8 : kind == Opus ? 8 : 4;
}
inline Bytes describe(const Page &p)
{
    Bytes r = ref::fmt("[%u#%u%s%s%s%s", p.serial, p.sequence, p.flags & 1 ? " cont" : "", p.flags & 2 ? " bos" : "", p.flags & 4 ? " eos" : "", p.granule == none ? " -1" : "");
    std::size_t n = 0, full = 0;
    for (auto l : p.lacing) {
        n += l;
        full += l == 255;
        if (l < 255) {
            r += ref::fmt(" %zu", n);
            n = full = 0;
        }
    }
    if (n)
        r += ref::fmt(" %zu+", n);
    return r + "]";
}
inline Bytes describe(const std::vector<Page> &ps, std::size_t max = 12)
{
    Bytes r;
    for (std::size_t i = 0; i < ps.size() && i < max; ++i)
        r += describe(ps[i]);
    return ps.size() > max ? r + ref::fmt("… (%zu pages)", ps.size()) : r;
}
// splits a file into pages; every byte must belong to a page with valid checksum
inline std::vector<Page> pages(Ctx &c, const Bytes &b)
{
    std::vector<Page> r;
    for (std::size_t p = 0; p < b.size();) {
        c.check(b.size() - p >= 27 && b.compare(p, 4, "OggS") == 0, "page", "no page at %zu of %zu: %s after %s", p, b.size(), ref::hex(b.substr(p), 16).c_str(), describe(r).c_str());
        Page g;
        c.check(!b[p + 4], "page", "version is not zero");
        g.flags = static_cast<unsigned char>(b[p + 5]);
        g.granule = ref::rdLE(b, p + 6, 8);
        g.serial = static_cast<std::uint32_t>(ref::rdLE(b, p + 14, 4));
        g.sequence = static_cast<std::uint32_t>(ref::rdLE(b, p + 18, 4));
        const std::size_t n = static_cast<unsigned char>(b[p + 26]);
        c.check(b.size() - p >= 27 + n, "page", "segment table truncated at %zu", p);
        std::size_t size = 0;
        for (std::size_t i = 0; i < n; ++i) {
            g.lacing.push_back(static_cast<unsigned char>(b[p + 27 + i]));
            size += g.lacing.back();
        }
        c.check(b.size() - p >= 27 + n + size, "page", "page truncated at %zu: %s", p, describe(r).c_str());
        g.data = b.substr(p + 27 + n, size);
        auto copy = b.substr(p, 27 + n + size);
        copy.replace(22, 4, Bytes(4, '\0'));
        r.push_back(g);
        c.check(crc(copy) == ref::rdLE(b, p + 22, 4), "checksum", "checksum of page %zu is wrong: %s", r.size() - 1, describe(r, 99).c_str());
        p += 27 + n + size;
    }
    return r;
}
struct Logical {
    std::uint32_t serial = 0, firstSequence = 0;
    std::vector<Packet> packets; // granule = none if not the last one finishing on its page
    bool eos = false;
    bool unfinished = false;
    std::size_t emptyPages = 0;
};
// reassembles the logical streams; checks flags, sequence numbers and granule positions
inline std::vector<Logical> logical(Ctx &c, const std::vector<Page> &ps)
{
    std::vector<Logical> r;
    std::map<std::uint32_t, std::size_t> cur;
    std::map<std::uint32_t, std::uint32_t> next;
    std::map<std::uint32_t, Bytes> partial;
    const auto d = describe(ps);
    for (auto &p : ps) {
        if (p.flags & 2) {
            c.check(!cur.count(p.serial) || r[cur[p.serial]].eos, "bos", "bos in the middle of a stream: %s", d.c_str());
            cur[p.serial] = r.size();
            r.emplace_back();
            r.back().serial = p.serial;
            r.back().firstSequence = next[p.serial] = p.sequence;
            partial.erase(p.serial);
        }
        c.check(cur.count(p.serial), "bos", "stream without bos: %s", d.c_str());
        auto &l = r[cur[p.serial]];
        c.check(!l.eos, "eos", "page after eos: %s", d.c_str());
        l.eos = p.flags & 4;
        c.check(p.sequence == next[p.serial]++, "sequence", "page sequence number is %u instead of %u: %s", p.sequence, next[p.serial] - 1, d.c_str());
        if (p.lacing.empty()) {
            ++l.emptyPages;
            continue;
        }
        c.check(((p.flags & 1) != 0) == (partial.count(p.serial) != 0), "continued", "continued flag of page %u/%u is wrong: %s", p.serial, p.sequence, d.c_str());
        std::size_t off = 0;
        bool finished = false;
        for (auto n : p.lacing) {
            partial[p.serial] += p.data.substr(off, n);
            off += n;
            if (n < 255) {
                l.packets.push_back({ partial[p.serial], none });
                partial.erase(p.serial);
                finished = true;
            }
        }
        l.unfinished = partial.count(p.serial);
        c.check(finished == (p.granule != none), "granule", "granule position of page %u/%u is %lld but %s packet finishes on it: %s", p.serial, p.sequence, (long long)p.granule,
            finished ? "a" : "no", d.c_str());
        if (finished)
            l.packets.back().granule = p.granule;
    }
    return r;
}
} // namespace ogg
