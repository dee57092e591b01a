// generator of complete MP4 files and independent extraction of what has to survive saving
#pragma once
#include "common.h"

#include <algorithm>
#include <map>
#include <stdexcept>

namespace mp4 {
using ref::BE;
using ref::Bytes;
using ref::filler;
using ref::fmt;
using ref::rdBE;

inline Bytes atom(const char *id, const Bytes &content, bool large = false)
{
    return large ? BE(1, 4) + Bytes(id, 4) + BE(content.size() + 16, 8) + content : BE(content.size() + 8, 4) + Bytes(id, 4) + content;
}
struct TrackSpec {
    std::vector<std::vector<std::size_t>> chunks; // sizes of the samples of each chunk
    bool co64 = false;
    int version = 0; // of tkhd and mdhd
    int sampleTable = 0; // 0 = explicit sizes, 1 = constant size, 2 = stz2 with 8 bit, 3 = stz2 with 16 bit, 4 = stz2 with 4 bit
    int extras = 0; // bit 0: edts, bit 1: tref, 2: unknown trak child behind mdia, 3: elng in mdia, 4: no dinf, 5: gmhd-like unknown minf child, 6: unknown stbl children, 7: mdia before tkhd, 8: 64-bit sizes of containers, 9: mdhd behind hdlr
    int hdlr = 0; // 0 = zero terminated, 1 = Pascal string, 2 = empty without terminator, 3 = zero terminated + trailing bytes, 4 = unknown handler, 5 = with component manufacturer
    std::uint32_t flags = 3; // of tkhd
    unsigned language = 0x15C7; // eng
    std::uint64_t times[6] = { 3000000000u, 3100000000u, 5000, 3200000000u, 3300000000u, 220500 }; // tkhd creation/modification/duration, mdhd ...
    std::uint32_t timeScale = 44100;
    Bytes sampleEntry; // complete atom within stsd instead of the default one
};
struct FragmentSpec {
    int base = 0; // 0 = base data offset at moof, 1 = base data offset at media data, 2 = default-base-is-moof, 3 = neither
    int trafs = 1;
    std::vector<std::size_t> samples{ 20, 11 };
    bool dataOffset = true; // whether denoted by trun (ignored if required)
    int runs = 1;
};
struct File {
    std::string order = "fmFd"; // f ftyp, p pdin, m moov, d mdat, F free, S skip, u uuid, i sidx, o moof, r mfra
    std::vector<TrackSpec> tracks;
    std::vector<FragmentSpec> fragments; // one for each o; the data is put into the next d
    std::size_t freeSize = 64; // total size
    std::vector<std::size_t> freeSizes; // if not empty: size of each F and S
    int mdatLarge = 0; // bits: mdat with 64-bit size
    bool mdatOpen = false; // last mdat denotes size 0
    bool freeOpen = false; // last free atom denotes size 0
    int moovOrder = 0; // order of the children of the moov atom
    bool moovExtras = true, moovLarge = false, moovFree = false;
    int udta = 1; // 0 = none, 1 = meta only, 2 = other children and meta, 3 = only other children, 4 = meta with free in ilst's meta, 5 = two udta
    Bytes title = "old title";
    int mdatOfChunk = 0; // 0 = spread over all mdat atoms in order, 1 = in reverse order, 2 = all in the last one
    std::size_t gap = 3; // bytes between chunks which are not used
    unsigned salt = 0;
    std::size_t base = 0; // bytes before the first atom (not part of the result)
};
inline Bytes titleField(const Bytes &title)
{
    return atom("\xA9nam", atom("data", BE(1, 4) + BE(0, 4) + title));
}
inline Bytes meta(const Bytes &title, bool free = false)
{
    return atom("meta", BE(0, 4) + atom("hdlr", BE(0, 4) + BE(0, 4) + "mdirappl" + BE(0, 8) + BE(0, 1)) + atom("ilst", titleField(title) + atom("\xA9""ART", atom("data", BE(1, 4) + BE(0, 4) + "artist")))
            + (free ? atom("free", Bytes(20, 0)) : Bytes()));
}
inline Bytes udta(const File &f)
{
    const auto other = atom("XYZ1", "location") + atom("name", "something");
    switch (f.udta) {
    case 0: return Bytes();
    case 1: return atom("udta", meta(f.title));
    case 2: return atom("udta", atom("XYZ0", "before") + meta(f.title) + other);
    case 3: return atom("udta", other);
    case 4: return atom("udta", meta(f.title, true) + other);
    default: return atom("udta", atom("XYZ0", "before") + meta(f.title)) + atom("udta", other);
    }
}
inline Bytes times(int version, const std::uint64_t *t, const Bytes &between)
{
    const int w = version ? 8 : 4;
    return BE(static_cast<std::uint64_t>(version), 1) + BE(0, 3) + BE(t[0], w) + BE(t[1], w) + between + BE(t[2], w);
}
struct Offsets {
    std::vector<std::vector<std::uint64_t>> chunks; // of each track
    std::vector<std::uint64_t> moof, data; // of each fragment
};
inline Bytes trak(const File &f, std::size_t i, const std::vector<std::uint64_t> &offsets)
{
    const auto &t = f.tracks[i];
    const bool large = t.extras & 256;
    const auto has = [&t](int bit) { return (t.extras >> bit) & 1; };
    Bytes tkhd = times(t.version, t.times, BE(i + 1, 4) + BE(0, 4));
    tkhd[1] = static_cast<char>(t.flags >> 16), tkhd[2] = static_cast<char>(t.flags >> 8), tkhd[3] = static_cast<char>(t.flags);
    tkhd += BE(0, 8) + BE(1, 2) + BE(2, 2) + BE(0x100, 2) + BE(0, 2);
    for (auto v : { 0x00010000u, 0u, 0u, 0u, 0x00010000u, 0u, 0u, 0u, 0x40000000u })
        tkhd += BE(v, 4);
    tkhd += BE(320u << 16, 4) + BE(240u << 16, 4);
    Bytes mdhd = times(t.version, t.times + 3, BE(t.timeScale, 4)) + BE(t.language, 2) + BE(0, 2);
    const Bytes type = i % 2 ? "vide" : "soun";
    Bytes hdlr = BE(0, 8) + (t.hdlr == 4 ? Bytes("subt") : type) + (t.hdlr == 5 ? Bytes("appl") + BE(1, 4) + BE(2, 4) : BE(0, 12));
    const Bytes name = fmt("Handler %zu", i);
    switch (t.hdlr) {
    case 1: hdlr += BE(name.size(), 1) + name; break;
    case 2: break;
    case 3: hdlr += name + BE(0, 1) + "abc"; break;
    default: hdlr += name + BE(0, 1);
    }
    std::vector<std::size_t> sizes;
    Bytes stsc, stco;
    std::size_t entries = 0, previous = 0;
    for (std::size_t c = 0; c < t.chunks.size(); ++c) {
        sizes.insert(sizes.end(), t.chunks[c].begin(), t.chunks[c].end());
        if (t.chunks[c].size() != previous)
            stsc += BE(c + 1, 4) + BE(previous = t.chunks[c].size(), 4) + BE(1, 4), ++entries;
        stco += BE(c < offsets.size() ? offsets[c] : 0, t.co64 ? 8 : 4);
    }
    Bytes stsz;
    switch (t.sampleTable) {
    case 1: stsz = atom("stsz", BE(0, 4) + BE(sizes.empty() ? 0 : sizes[0], 4) + BE(sizes.size(), 4)); break;
    case 0:
        stsz = BE(0, 4) + BE(0, 4) + BE(sizes.size(), 4);
        for (auto s : sizes)
            stsz += BE(s, 4);
        stsz = atom("stsz", stsz);
        break;
    case 4:
        stsz = BE(0, 4) + BE(0, 3) + BE(4, 1) + BE(sizes.size(), 4);
        for (std::size_t s = 0; s < sizes.size(); s += 2)
            stsz += BE((sizes[s] << 4) | (s + 1 < sizes.size() ? sizes[s + 1] : 0), 1);
        stsz = atom("stz2", stsz);
        break;
    default:
        stsz = BE(0, 4) + BE(0, 3) + BE(t.sampleTable == 2 ? 8 : 16, 1) + BE(sizes.size(), 4);
        for (auto s : sizes)
            stsz += BE(s, t.sampleTable == 2 ? 1 : 2);
        stsz = atom("stz2", stsz);
    }
    // an unknown sample entry which is kept as it is
    const Bytes stsd = atom("stsd", BE(0, 4) + BE(1, 4) + (!t.sampleEntry.empty() ? t.sampleEntry : atom("zzzz", BE(0, 6) + BE(1, 2) + filler(20, static_cast<unsigned>(i) + f.salt))));
    Bytes stbl = stsd + atom("stts", BE(0, 4) + BE(1, 4) + BE(sizes.size(), 4) + BE(1024, 4)) + atom("stsc", BE(0, 4) + BE(entries, 4) + stsc);
    if (has(6))
        stbl += atom("stss", BE(0, 4) + BE(1, 4) + BE(1, 4));
    stbl += stsz;
    stbl += atom(t.co64 ? "co64" : "stco", BE(0, 4) + BE(t.chunks.size(), 4) + stco);
    if (has(6))
        stbl += atom("sgpd", filler(13, 9));
    Bytes minf = i % 2 ? atom("vmhd", BE(1, 4) + BE(0, 8)) : atom("smhd", BE(0, 8));
    if (has(5))
        minf += atom("XXmi", filler(7, 3));
    if (!has(4))
        minf += atom("dinf", atom("dref", BE(0, 4) + BE(1, 4) + atom("url ", BE(1, 4))));
    minf += atom("stbl", stbl, large);
    Bytes mdia = has(9) ? atom("hdlr", hdlr) + atom("mdhd", mdhd) : atom("mdhd", mdhd) + atom("hdlr", hdlr);
    if (has(3))
        mdia += atom("elng", BE(0, 4) + "en-US" + BE(0, 1));
    mdia += atom("minf", minf, large);
    if (has(3))
        mdia += atom("XXmd", filler(11, 4));
    Bytes r;
    if (has(7))
        r += atom("mdia", mdia, large);
    r += atom("tkhd", tkhd);
    if (has(0))
        r += atom("edts", atom("elst", BE(0, 4) + BE(1, 4) + BE(5000, 4) + BE(0, 4) + BE(0x10000, 4)));
    if (has(1))
        r += atom("tref", atom("chap", BE(2, 4)));
    if (!has(7))
        r += atom("mdia", mdia, large);
    if (has(2))
        r += atom("udta", atom("name", "track name")) + atom("XXtr", filler(9, 5));
    return atom("trak", r, large);
}
inline Bytes moov(const File &f, const Offsets &o)
{
    const Bytes mvhd = atom("mvhd", BE(0, 4) + BE(3000000000u, 4) + BE(3100000000u, 4) + BE(1000, 4) + BE(5000, 4) + BE(0x10000, 4) + BE(0x100, 2) + BE(0, 10) + Bytes(36, 1) + Bytes(24, 0) + BE(f.tracks.size() + 1, 4));
    Bytes traks;
    for (std::size_t i = 0; i < f.tracks.size(); ++i)
        traks += trak(f, i, i < o.chunks.size() ? o.chunks[i] : std::vector<std::uint64_t>());
    Bytes extra = f.moovExtras ? atom("iods", filler(13, 1)) : Bytes();
    if (!f.fragments.empty()) {
        Bytes mvex = atom("mehd", BE(0, 4) + BE(7000, 4));
        for (std::size_t i = 0; i < f.tracks.size(); ++i)
            mvex += atom("trex", BE(0, 4) + BE(i + 1, 4) + BE(1, 4) + BE(0, 12));
        extra += atom("mvex", mvex);
    }
    if (f.moovFree)
        extra += atom("free", Bytes(30, 'x'));
    const Bytes u = udta(f);
    switch (f.moovOrder) {
    case 0: return atom("moov", mvhd + extra + traks + u, f.moovLarge);
    case 1: return atom("moov", mvhd + traks + extra + u, f.moovLarge);
    case 2: return atom("moov", u + mvhd + traks + extra, f.moovLarge);
    default: return atom("moov", mvhd + u + extra + traks, f.moovLarge);
    }
}
inline Bytes moof(const File &f, std::size_t i, std::uint64_t moofOffset, std::uint64_t dataOffset)
{
    const auto &s = f.fragments[i];
    std::size_t total = 0;
    for (auto v : s.samples)
        total += v;
    Bytes r = atom("mfhd", BE(0, 4) + BE(i + 1, 4));
    auto at = dataOffset;
    for (int t = 0; t < s.trafs; ++t) {
        const std::uint32_t flags = s.base == 0 || s.base == 1 ? 1 : s.base == 2 ? 0x020000 : 0;
        const auto id = static_cast<std::uint64_t>(t) % f.tracks.size() + 1;
        Bytes traf = atom("tfhd", BE(flags, 4) + BE(id, 4) + (s.base == 0 ? BE(moofOffset, 8) : s.base == 1 ? BE(at, 8) : Bytes()));
        for (int run = 0; run < s.runs; ++run) {
            const auto base = s.base == 1 ? at : moofOffset;
            // without data offset the data follows the data of the previous run or starts at the base
            const bool off = run == 0 && (s.base == 1 ? s.dataOffset : s.base == 3 && t ? s.dataOffset : true);
            Bytes trun = BE((off ? 1u : 0u) | 0x200u, 4) + BE(s.samples.size(), 4);
            if (off)
                trun += BE((s.base == 3 && t ? 0 : s.base == 1 ? 0 : at - base) & 0xFFFFFFFFu, 4);
            for (auto v : s.samples)
                trun += BE(v, 4);
            traf += atom("trun", trun);
        }
        at += total * static_cast<std::size_t>(s.runs);
        r += atom("traf", traf);
    }
    return atom("moof", r);
}
// puts the file together; the offsets are determined in the first pass
inline Bytes build(const File &f)
{
    Offsets o;
    const auto mdats = static_cast<std::size_t>(std::count(f.order.begin(), f.order.end(), 'd'));
    Bytes file;
    for (int pass = 0; pass < 2; ++pass) {
        file.assign(f.base, '\0');
        std::size_t mdat = 0, fragment = 0, frees = 0;
        int pending = -1;
        Offsets next;
        next.chunks.resize(f.tracks.size());
        for (std::size_t t = 0; t < f.tracks.size(); ++t)
            next.chunks[t].resize(f.tracks[t].chunks.size());
        const auto freeCount = static_cast<std::size_t>(std::count_if(f.order.begin(), f.order.end(), [](char ch) { return ch == 'F' || ch == 'S'; }));
        for (auto ch : f.order)
            switch (ch) {
            case 'f': file += atom("ftyp", "isom" + BE(0x200, 4) + "isommp42"); break;
            case 'p': file += atom("pdin", BE(0, 4) + filler(16, 2)); break;
            case 'm': file += moov(f, o); break;
            case 'u': file += atom("uuid", filler(16, 7) + Bytes("payload of unknown atom") + filler(file.size() % 7, 1)); break;
            case 'i': file += atom("sidx", BE(0, 4) + BE(1, 4) + BE(1000, 4) + BE(0, 4) + BE(0, 4) + BE(0, 2) + BE(0, 2)); break;
            case 'F':
            case 'S': {
                const auto size = frees < f.freeSizes.size() ? f.freeSizes[frees] : f.freeSize;
                auto a = atom(ch == 'F' ? "free" : "skip", Bytes(size - 8, '\xEE'));
                if (++frees == freeCount && f.freeOpen)
                    a = BE(0, 4) + a.substr(4);
                file += a;
                break;
            }
            case 'o':
                next.moof.push_back(file.size());
                file += moof(f, fragment, o.moof.empty() ? 0 : o.moof[fragment], o.data.empty() ? 0 : o.data[fragment]);
                pending = static_cast<int>(fragment++);
                break;
            case 'd': {
                const bool large = (f.mdatLarge >> mdat) & 1;
                const auto start = file.size() + (large ? 16 : 8);
                Bytes content;
                if (pending >= 0) {
                    auto &s = f.fragments[static_cast<std::size_t>(pending)];
                    std::size_t total = 0;
                    for (auto v : s.samples)
                        total += v;
                    content += filler(f.gap, 77);
                    next.data.push_back(start + content.size());
                    content += filler(total * static_cast<std::size_t>(s.trafs * s.runs), 40 + static_cast<unsigned>(pending) + f.salt);
                    pending = -1;
                }
                std::size_t most = 0;
                for (auto &t : f.tracks)
                    most = std::max(most, t.chunks.size());
                for (std::size_t c = 0; c < most; ++c)
                    for (std::size_t t = 0; t < f.tracks.size(); ++t) {
                        if (c >= f.tracks[t].chunks.size())
                            continue;
                        auto at = c * mdats / f.tracks[t].chunks.size();
                        if (f.mdatOfChunk == 1)
                            at = mdats - 1 - at;
                        else if (f.mdatOfChunk == 2)
                            at = mdats - 1;
                        if (at != mdat)
                            continue;
                        next.chunks[t][c] = start + content.size();
                        std::size_t size = 0;
                        for (auto s : f.tracks[t].chunks[c])
                            size += s;
                        content += filler(size, static_cast<unsigned>(100 + t * 31 + c * 7) + f.salt) + filler(f.gap, 78);
                    }
                auto a = atom("mdat", content, large);
                if (++mdat == mdats && f.mdatOpen)
                    a = BE(0, 4) + a.substr(4);
                file += a;
                break;
            }
            default: throw std::logic_error("unknown kind of atom");
            }
        o = std::move(next);
    }
    return file.substr(f.base);
}

// strict decoding
struct Error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Atom {
    Bytes id;
    std::uint64_t start = 0, data = 0, end = 0;
    Bytes content(const Bytes &f) const
    {
        return f.substr(data, end - data);
    }
    std::uint64_t size() const
    {
        return end - data;
    }
};
inline std::vector<Atom> atoms(const Bytes &f, std::uint64_t at, std::uint64_t end, bool top = false)
{
    std::vector<Atom> r;
    while (at < end) {
        if (end - at < 8)
            throw Error(fmt("%zu stray bytes at %zu", static_cast<std::size_t>(end - at), static_cast<std::size_t>(at)));
        Atom a;
        a.start = at;
        a.id = f.substr(at + 4, 4);
        std::uint64_t size = rdBE(f, at, 4);
        a.data = at + 8;
        if (size == 1) {
            if (end - at < 16)
                throw Error(fmt("64-bit size of atom at %zu is truncated", static_cast<std::size_t>(at)));
            size = rdBE(f, at + 8, 8);
            a.data = at + 16;
        } else if (size == 0) {
            if (!top)
                throw Error(fmt("nested atom %s at %zu has size 0", ref::quote(a.id).c_str(), static_cast<std::size_t>(at)));
            size = end - at;
        }
        if (size < a.data - at || size > end - at)
            throw Error(fmt("size %zu of atom %s at %zu does not fit into %zu bytes", static_cast<std::size_t>(size), ref::quote(a.id).c_str(), static_cast<std::size_t>(at), static_cast<std::size_t>(end - at)));
        a.end = at + size;
        r.push_back(a);
        at = a.end;
    }
    return r;
}
inline std::vector<Atom> children(const Bytes &f, const Atom &a, std::size_t skip = 0)
{
    return atoms(f, a.data + skip, a.end);
}
inline const Atom *find(const std::vector<Atom> &v, const char *id)
{
    for (auto &a : v)
        if (a.id == Bytes(id, 4))
            return &a;
    return nullptr;
}
inline const Atom &need(const std::vector<Atom> &v, const char *id)
{
    if (auto *a = find(v, id))
        return *a;
    throw Error(fmt("atom %s is missing", id));
}
struct TrackSummary {
    std::vector<Bytes> chunks; // data
    Bytes header, media, handler, name, tables; // canonical dumps
    unsigned language = 0;
    std::uint32_t id = 0;
};
struct Summary {
    Bytes order; // kinds of the top-level atoms without padding
    std::vector<Bytes> top; // content of ftyp, pdin and unknown atoms
    std::vector<Bytes> mediaData;
    std::vector<TrackSummary> tracks;
    Bytes movie, userData;
    std::vector<Bytes> runs; // data and parameters of all runs of all fragments
    bool hasTag = false;
    Bytes title, otherFields;
    std::size_t metas = 0;
    // layout
    std::uint64_t paddingBefore = 0, paddingTotal = 0;
    bool moovFirst = false;
};
inline Bytes readData(const Bytes &f, const std::vector<Atom> &top, std::uint64_t at, std::uint64_t size, const char *what)
{
    if (!size)
        return Bytes();
    for (auto &a : top)
        if (at >= a.data && at + size <= a.end) {
            if (a.id != "mdat")
                throw Error(fmt("%s refers to offset %zu which is within a %s atom", what, static_cast<std::size_t>(at), ref::quote(a.id).c_str()));
            return f.substr(at, size);
        }
    throw Error(fmt("%s refers to offset %zu (size %zu) which is not within the media data", what, static_cast<std::size_t>(at), static_cast<std::size_t>(size)));
}
inline Bytes raw(const Bytes &f, const Atom &a)
{
    return a.id + ":" + ref::hex(a.content(f)) + "\n";
}
inline TrackSummary trackSummary(const Bytes &f, const std::vector<Atom> &top, const Atom &trak)
{
    TrackSummary t;
    std::vector<Bytes> other;
    bool mdiaSeen = false;
    for (auto &a : children(f, trak)) {
        if (a.id == "tkhd") {
            const auto d = a.content(f);
            const int w = rdBE(d, 0, 1) ? 8 : 4;
            t.id = static_cast<std::uint32_t>(rdBE(d, 4 + 2 * static_cast<std::size_t>(w), 4));
            // version may differ
            t.header = fmt("flags %06X times", static_cast<unsigned>(rdBE(d, 1, 3)));
            std::size_t p = 4;
            for (int i = 0; i < 5; ++i) {
                const auto n = static_cast<std::size_t>(i == 2 || i == 3 ? 4 : w);
                t.header += fmt(" %llu", static_cast<unsigned long long>(rdBE(d, p, static_cast<int>(n))));
                p += n;
            }
            t.header += " " + ref::hex(d.substr(p));
        } else if (a.id == "mdia") {
            if (mdiaSeen)
                throw Error("two mdia atoms in trak atom");
            mdiaSeen = true;
            const auto kids = children(f, a);
            std::vector<Bytes> mediaOther;
            for (auto &k : kids) {
                if (k.id == "mdhd") {
                    const auto d = k.content(f);
                    const int w = rdBE(d, 0, 1) ? 8 : 4;
                    t.media = fmt("flags %06X times", static_cast<unsigned>(rdBE(d, 1, 3)));
                    std::size_t p = 4;
                    for (int i = 0; i < 4; ++i) {
                        const auto n = static_cast<std::size_t>(i == 2 ? 4 : w);
                        t.media += fmt(" %llu", static_cast<unsigned long long>(rdBE(d, p, static_cast<int>(n))));
                        p += n;
                    }
                    t.language = static_cast<unsigned>(rdBE(d, p, 2));
                    if (d.size() != p + 4)
                        throw Error("size of mdhd atom");
                } else if (k.id == "hdlr") {
                    const auto d = k.content(f);
                    if (d.size() < 24)
                        throw Error("hdlr atom is truncated");
                    t.handler = d.substr(8, 4);
                    t.name = d.substr(24);
                    if (!t.name.empty() && static_cast<unsigned char>(t.name[0]) == t.name.size() - 1 && t.name.back())
                        t.name = t.name.substr(1);
                    else
                        t.name = t.name.substr(0, t.name.find('\0'));
                } else if (k.id == "minf") {
                    for (auto &m : children(f, k)) {
                        if (m.id == "stbl") {
                            const auto st = children(f, m);
                            std::vector<std::uint64_t> sizes, offsets;
                            for (auto &x : st) {
                                const auto d = x.content(f);
                                const auto n = d.size() >= 8 ? rdBE(d, 4, 4) : 0;
                                if (x.id == "stco" || x.id == "co64") {
                                    const int w = x.id == "stco" ? 4 : 8;
                                    if (!offsets.empty() || d.size() != 8 + n * static_cast<std::size_t>(w))
                                        throw Error("size of chunk offset table");
                                    for (std::size_t i = 0; i < n; ++i)
                                        offsets.push_back(rdBE(d, 8 + i * static_cast<std::size_t>(w), w));
                                } else {
                                    t.tables += raw(f, x);
                                    if (x.id == "stsz") {
                                        const auto c = rdBE(d, 8, 4);
                                        for (std::size_t i = 0; i < c; ++i)
                                            sizes.push_back(n ? n : rdBE(d, 12 + 4 * i, 4));
                                    } else if (x.id == "stz2") {
                                        const auto c = rdBE(d, 8, 4);
                                        const auto bits = rdBE(d, 7, 1);
                                        for (std::size_t i = 0; i < c; ++i)
                                            sizes.push_back(bits == 4 ? (i % 2 ? rdBE(d, 12 + i / 2, 1) & 15 : rdBE(d, 12 + i / 2, 1) >> 4) : rdBE(d, 12 + i * (bits / 8), static_cast<int>(bits / 8)));
                                    }
                                }
                            }
                            const auto stsc = need(st, "stsc").content(f);
                            const auto entries = rdBE(stsc, 4, 4);
                            std::size_t sample = 0;
                            for (std::size_t c = 0, e = 0; c < offsets.size(); ++c) {
                                while (e + 1 < entries && rdBE(stsc, 8 + (e + 1) * 12, 4) <= c + 1)
                                    ++e;
                                std::uint64_t size = 0;
                                for (std::uint64_t s = 0, per = rdBE(stsc, 8 + e * 12 + 4, 4); s < per; ++s)
                                    size += sizes.at(sample++);
                                t.chunks.push_back(readData(f, top, offsets[c], size, "chunk"));
                            }
                            t.tables += fmt("%zu chunks", offsets.size());
                        } else if (m.id == "dinf") {
                            // an atom which says that the data is within the same file may be added
                            if (m.content(f) != atom("dref", BE(0, 4) + BE(1, 4) + atom("url ", BE(1, 4))))
                                mediaOther.push_back("dinf: " + ref::hex(m.content(f)) + "\n");
                        } else {
                            mediaOther.push_back("minf/" + raw(f, m));
                        }
                    }
                } else if (k.id != "free") {
                    mediaOther.push_back("mdia/" + raw(f, k));
                }
            }
            std::sort(mediaOther.begin(), mediaOther.end());
            for (auto &m : mediaOther)
                t.media += "\n" + m;
        } else {
            other.push_back(raw(f, a));
        }
    }
    for (auto &o : other)
        t.header += "\n" + o;
    return t;
}
inline Summary summarise(const Bytes &f)
{
    Summary s;
    const auto top = atoms(f, 0, f.size(), true);
    bool mediaSeen = false;
    std::uint64_t padding = 0;
    for (auto &a : top) {
        if (a.id == "free" || a.id == "skip") {
            s.paddingTotal += a.end - a.start;
            padding += a.end - a.start;
            continue;
        }
        if (!mediaSeen && a.id != "ftyp" && a.id != "pdin" && a.id != "moov") {
            mediaSeen = true;
            s.paddingBefore = padding;
            s.moovFirst = find(top, "moov") && find(top, "moov")->start < a.start;
        }
        if (a.id == "moov") {
            if (s.order.find('m') != Bytes::npos)
                throw Error("two moov atoms");
            s.order += 'm';
            bool udtaSeen = false;
            for (auto &k : children(f, a)) {
                if (k.id == "trak") {
                    s.tracks.push_back(trackSummary(f, top, k));
                } else if (k.id == "udta") {
                    udtaSeen = true;
                    for (auto &u : children(f, k)) {
                        if (u.id == "meta") {
                            ++s.metas;
                            s.hasTag = true;
                            for (auto &m : children(f, u, 4))
                                if (m.id == "ilst")
                                    for (auto &field : children(f, m)) {
                                        const auto d = need(children(f, field), "data").content(f);
                                        if (field.id == "\xA9nam")
                                            s.title = d.substr(8);
                                        else
                                            s.otherFields += raw(f, field);
                                    }
                        } else if (u.id != "free") {
                            s.userData += raw(f, u);
                        }
                    }
                } else if (k.id != "free" && k.id != "skip") {
                    s.movie += raw(f, k);
                }
            }
            (void)udtaSeen;
        } else if (a.id == "mdat") {
            s.order += 'd';
            s.mediaData.push_back(a.content(f));
        } else if (a.id == "moof") {
            s.order += 'o';
            std::uint64_t previousEnd = a.start;
            bool firstTraf = true;
            for (auto &k : children(f, a)) {
                if (k.id != "traf") {
                    s.runs.push_back(raw(f, k));
                    continue;
                }
                const auto kids = children(f, k);
                const auto &h = need(kids, "tfhd");
                const auto d = h.content(f);
                const auto flags = rdBE(d, 1, 3);
                std::uint64_t base = flags & 1 ? rdBE(d, 8, 8) : flags & 0x020000 || firstTraf ? a.start : previousEnd;
                s.runs.push_back(fmt("traf %06X %llu %s", static_cast<unsigned>(flags), static_cast<unsigned long long>(rdBE(d, 4, 4)), ref::hex(d.substr(flags & 1 ? 16 : 8)).c_str()));
                std::uint64_t at = base;
                for (auto &x : kids) {
                    if (x.id == "tfhd")
                        continue;
                    if (x.id != "trun") {
                        s.runs.push_back(raw(f, x));
                        continue;
                    }
                    const auto t = x.content(f);
                    const auto tf = rdBE(t, 1, 3);
                    std::size_t p = 8;
                    if (tf & 1) {
                        at = base + static_cast<std::uint64_t>(static_cast<std::int64_t>(static_cast<std::int32_t>(rdBE(t, 8, 4))));
                        p += 4;
                    }
                    std::uint64_t size = 0;
                    const auto n = rdBE(t, 4, 4);
                    for (std::size_t i = 0; i < n; ++i)
                        size += rdBE(t, p + i * 4, 4);
                    s.runs.push_back(raw(f, x) + ref::hex(readData(f, top, at, size, "run")));
                    at += size;
                }
                previousEnd = at;
                firstTraf = false;
            }
        } else {
            s.order += a.id == "ftyp" ? 'f' : a.id == "pdin" ? 'p' : a.id == "sidx" ? 'i' : 'u';
            s.top.push_back(raw(f, a));
        }
    }
    return s;
}
} // namespace mp4
