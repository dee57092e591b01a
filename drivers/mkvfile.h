// generator of complete Matroska files and independent extraction of what has to survive saving
#pragma once
#include "ebml.h"

#include <numeric>

#include <map>

namespace mkv {
using namespace ebml;
using ref::BE;
using ref::filler;
using ref::fmt;
using ref::rdBE;

inline std::uint32_t crc32(std::string_view d)
{
    std::uint32_t r = 0xFFFFFFFFu;
    for (auto ch : d) {
        r ^= static_cast<unsigned char>(ch);
        for (int i = 0; i < 8; ++i)
            r = (r >> 1) ^ (r & 1 ? 0xEDB88320u : 0u);
    }
    return ~r;
}
inline Bytes withCrc(const Bytes &d)
{
    return el(Crc32, ref::LE(crc32(d), 4)) + d;
}
struct ClusterSpec {
    std::uint64_t timecode = 0;
    std::vector<std::size_t> blocks{ 40, 25 }; // payload sizes; odd indexes are made block groups
    bool position = false, prevSize = false, crc = false, unknown = false;
    std::size_t voidBefore = 0; // void element in front of the blocks
    int sizeLen = 0;
};
struct SegmentSpec {
    std::string order = "SVITHGACKKK"; // S seek head, V void, I info, T tracks, H chapters, G tags, A attachments, C cues, K cluster, X unknown element, R CRC-32 (only in front)
    std::size_t voidSize = 64, unknownSize = 5, chapterText = 10, attachmentSize = 30;
    std::vector<ClusterSpec> clusters;
    int sizeLen = 8;
    bool unknown = false;
    bool relative = false, blockNumber = false, reference = false, duration = false, twoTracks = false, cueVoid = false, codecState = false;
    unsigned cuePositions = 1, cueReferences = 1; // how often track positions (references) are present per cue (track positions)
    int cueTimeWidth = 0, refTimeWidth = 0; // of the first cue
    bool infoExtras = true, crcChildren = false;
    int posWidth = 0;
    std::string tagTitle = "old title";
    std::string infoTitle = "movie";
    std::string seekOmit; // kinds which are not part of the seek heads
    bool chained = false; // the first seek head refers to the last one only
    int trackVariant = 0, chapterVariant = 0;
    unsigned salt = 0;
    Bytes infoElements; // instead of the default ones
    std::vector<Bytes> trackEntries; // complete elements instead of the default ones
    std::vector<Bytes> chapterContents; // the content of each H
    std::vector<std::vector<Bytes>> attachedFiles; // complete elements for each A
};
struct File {
    Bytes docType = "matroska";
    int headerWidth = 0; // width of the integers in the EBML header
    std::vector<SegmentSpec> segments;
    Bytes trailing; // top-level elements behind the segments
};
inline Bytes track(unsigned no, unsigned salt, int variant)
{
    Bytes t = elU(TrackNumber, no, variant == 2 ? 2 : 0) + elU(TrackUID, 1000 + no + salt * 100);
    t += elU(TrackType, no == 1 ? 1 : 2);
    if (variant != 1)
        t += elU(FlagEnabled, 1) + elU(FlagDefault, no == 1) + elU(FlagForced, 0) + el(Language, "ger");
    t += elU(FlagLacing, 0);
    t += el(CodecID, no == 1 ? "V_MPEG4/ISO/AVC" : "A_VORBIS");
    if (variant == 2)
        t += el(Name, "tr\xC3\xA4" "ck") + el(LanguageIETF, "de-AT");
    if (no == 1)
        t += elU(DefaultDuration, 40000000) + el(Video, elU(PixelWidth, 320) + elU(PixelHeight, 240));
    else
        t += el(CodecPrivate, filler(20, 3 + salt)) + el(Audio, el(SamplingFrequency, BE(0x40E7700000000000ull, 8)) + elU(Channels, 2));
    return el(TrackEntry, variant == 3 ? withCrc(t) : t);
}
inline Bytes chapters(const SegmentSpec &s)
{
    auto atom = [&](unsigned n, const Bytes &extra = Bytes()) {
        return el(ChapterAtom, elU(ChapterUID, 70 + n) + elU(ChapterTimeStart, n * 1000000000ull) + elU(ChapterFlagHidden, 0) + elU(ChapterFlagEnabled, 1)
                + el(ChapterDisplay, el(ChapString, Bytes(s.chapterText, 'c')) + el(ChapLanguage, "eng")) + extra);
    };
    Bytes e = elU(EditionUID, 7) + elU(EditionFlagHidden, 0) + elU(EditionFlagDefault, 1) + atom(1, s.chapterVariant == 1 ? atom(5) : Bytes()) + atom(2);
    return el(EditionEntry, e);
}
inline Bytes attachment(const SegmentSpec &s, unsigned n)
{
    return el(AttachedFile, el(FileDescription, "desc") + el(FileName, fmt("a%u.bin", n)) + el(FileMimeType, "application/x") + el(FileData, filler(s.attachmentSize, 90 + n + s.salt))
            + elU(FileUID, 600 + n + s.salt));
}
inline Bytes build(const File &f)
{
    const int w = f.headerWidth;
    Bytes out = el(EBML, elU(EBMLVersion, 1, w) + elU(EBMLReadVersion, 1, w) + elU(EBMLMaxId, 4, w) + elU(EBMLMaxSize, 8, w) + el(DocType, f.docType) + elU(DocTypeVersion, 4, w) + elU(DocTypeReadVersion, 2, w));
    for (auto &s : f.segments) {
        // positions relative to the segment's data, obtained by iteration until they are stable
        std::vector<std::pair<std::uint64_t, std::uint64_t>> where, lastWhere;
        std::vector<std::uint64_t> clusterPos(s.clusters.size()), clusterTotal(s.clusters.size());
        std::vector<std::vector<std::uint64_t>> rel(s.clusters.size());
        Bytes d;
        for (int iter = 0; iter < 30; ++iter) {
            const auto before = d;
            d.clear();
            where.clear();
            std::size_t k = 0, attachments = 0, chapterElements = 0;
            for (auto ch : s.order) {
                const auto pos = d.size();
                auto crc = [&](const Bytes &x) { return s.crcChildren ? withCrc(x) : x; };
                switch (ch) {
                case 'S': {
                    Bytes e;
                    std::uint64_t lastId = 0;
                    const bool first = s.chained && d.find(id(SeekHead)) == Bytes::npos;
                    static const std::pair<char, std::uint64_t> kinds[] = { { 'G', Tags }, { 'A', Attachments }, { 'H', Chapters }, { 'C', Cues }, { 'K', Cluster } };
                    for (auto &[i, p] : lastWhere) {
                        if (s.chained && (i == SeekHead) != first)
                            continue;
                        if (i == SeekHead && p == pos)
                            continue;
                        if (std::any_of(std::begin(kinds), std::end(kinds), [&, kind = i](auto &x) { return x.second == kind && s.seekOmit.find(x.first) != std::string::npos; }))
                            continue;
                        if (i != Cluster || lastId != Cluster) // only one entry for subsequent clusters
                            e += el(Seek, el(SeekID, id(i)) + elU(SeekPosition, p, s.posWidth));
                        lastId = i;
                    }
                    if (s.chained)
                        where.emplace_back(SeekHead, pos);
                    d += el(SeekHead, crc(e));
                    break;
                }
                case 'R':
                    d += "......"; // replaced when everything else is known
                    break;
                case 'V':
                    d += voidEl(s.voidSize);
                    break;
                case 'I':
                    where.emplace_back(Info, pos);
                    d += !s.infoElements.empty() ? el(Info, crc(s.infoElements + el(MuxingApp, "muxer") + el(WritingApp, "writer app"))) : el(Info,
                        crc(elU(TimecodeScale, 1000000) + (s.infoExtras ? el(SegmentUID, filler(16, 5 + s.salt)) + el(Duration, BE(0x40C3880000000000ull, 8)) + voidEl(5) : Bytes())
                            + (s.infoTitle.empty() ? Bytes() : el(ebml::Title, s.infoTitle)) + el(MuxingApp, "muxer") + el(WritingApp, "writer app")
                            + (s.infoExtras ? el(DateUTC, BE(12345678, 8)) : Bytes())));
                    break;
                case 'T':
                    where.emplace_back(Tracks, pos);
                    d += el(Tracks, crc(s.trackEntries.empty() ? track(1, s.salt, s.trackVariant) + track(2, s.salt, s.trackVariant) : std::accumulate(s.trackEntries.begin(), s.trackEntries.end(), Bytes())));
                    break;
                case 'H':
                    where.emplace_back(Chapters, pos);
                    d += el(Chapters, crc(s.chapterContents.empty() ? chapters(s) : s.chapterContents.at(chapterElements++)));
                    break;
                case 'G':
                    where.emplace_back(Tags, pos);
                    d += el(Tags,
                        crc(el(Tag, el(Targets, elU(TargetTypeValue, 50)) + el(SimpleTag, el(TagName, "TITLE") + el(TagLanguage, "und") + elU(TagDefault, 1) + el(TagString, s.tagTitle)))));
                    break;
                case 'A':
                    where.emplace_back(Attachments, pos);
                    if (s.attachedFiles.empty()) {
                        d += el(Attachments, crc(attachment(s, 1) + attachment(s, 2)));
                    } else {
                        auto &a = s.attachedFiles.at(attachments++);
                        d += el(Attachments, crc(std::accumulate(a.begin(), a.end(), Bytes())));
                    }
                    break;
                case 'X':
                    d += el(0x4DBF, filler(s.unknownSize, 77)); // not a defined ID
                    break;
                case 'C': {
                    where.emplace_back(Cues, pos);
                    Bytes e;
                    for (std::size_t i = 0; i < s.clusters.size(); ++i) {
                        const auto tp = [&](unsigned trackNo, std::size_t block) {
                            Bytes p = elU(CueTrack, trackNo) + elU(CueClusterPosition, clusterPos[i], s.posWidth);
                            if (s.relative)
                                p += elU(CueRelativePosition, block < rel[i].size() ? rel[i][block] : 0, s.posWidth);
                            if (s.duration)
                                p += elU(CueDuration, 40);
                            if (s.blockNumber)
                                p += elU(CueBlockNumber, block + 1);
                            const auto previous = clusterPos[i ? i - 1 : 0];
                            if (s.codecState)
                                p += elU(CueCodecState, i ? previous : 0, s.posWidth);
                            for (unsigned n = 0; s.reference && n < s.cueReferences; ++n)
                                p += el(CueReference, elU(CueRefTime, s.clusters[i].timecode + 3, n || i ? 0 : s.refTimeWidth) + elU(CueRefCluster, previous, s.posWidth)
                                        + (s.codecState ? elU(CueRefNumber, n + 1) + elU(CueRefCodecState, i ? previous : 0, s.posWidth) : Bytes()));
                            return el(CueTrackPositions, p);
                        };
                        Bytes all;
                        for (unsigned n = 0; n < s.cuePositions; ++n)
                            all += tp(1, 0) + (s.twoTracks ? tp(2, 1) : Bytes());
                        e += el(CuePoint, elU(CueTime, s.clusters[i].timecode, i ? 0 : s.cueTimeWidth) + (s.cueVoid ? voidEl(3) : Bytes()) + all);
                    }
                    d += el(Cues, crc(e));
                    break;
                }
                case 'K': {
                    where.emplace_back(Cluster, pos);
                    auto &cl = s.clusters.at(k);
                    clusterPos[k] = pos;
                    Bytes e = elU(Timecode, cl.timecode);
                    if (cl.position)
                        e += elU(Position, pos, s.posWidth);
                    if (cl.prevSize && k)
                        e += elU(PrevSize, clusterTotal[k - 1], s.posWidth);
                    e += voidEl(cl.voidBefore);
                    rel[k].clear();
                    for (std::size_t b = 0; b < cl.blocks.size(); ++b) {
                        rel[k].push_back(e.size() + (cl.crc ? 6 : 0));
                        const auto payload = Bytes(1, static_cast<char>(0x81 + b % 2)) + BE(b * 10, 2) + Bytes(1, '\x80') + filler(cl.blocks[b], static_cast<unsigned>(17 * k + b + s.salt));
                        e += b % 2 ? el(BlockGroup, el(Block, payload)) : el(SimpleBlock, payload);
                    }
                    if (cl.crc)
                        e = withCrc(e);
                    const auto total = cl.unknown ? id(Cluster) + Bytes("\xFF") + e : el(Cluster, e, cl.sizeLen);
                    clusterTotal[k] = total.size();
                    d += total;
                    ++k;
                    break;
                }
                }
            }
            const bool stable = d == before && where == lastWhere;
            lastWhere = where;
            if (stable)
                break;
        }
        if (s.order[0] == 'R')
            d = withCrc(d.substr(6));
        out += id(ebml::Segment) + (s.unknown ? Bytes(s.sizeLen <= 1 ? Bytes("\xFF") : BE(((1ull << (7 * s.sizeLen)) - 1) | (1ull << (7 * s.sizeLen)), s.sizeLen)) : ebml::size(d.size(), s.sizeLen)) + d;
    }
    return out + f.trailing;
}
// the same file without anything which may be normalised when saving
inline File normalised(File f)
{
    for (auto &s : f.segments) {
        if (s.unknown)
            s.sizeLen = 8;
        s.unknown = false;
        for (auto &cl : s.clusters)
            cl.unknown = false;
    }
    return f;
}

struct Summary {
    struct Seg {
        std::vector<Bytes> clusters; // timecode and blocks
        std::vector<Bytes> cues;
        Bytes info, infoTitle, tracks, chapters, attachments, unknown;
        std::size_t seeks = 0, voids = 0;
        bool cuesFirst = false, hasCues = false, tagsFirst = false, hasTags = false, hasCrc = false;
        std::size_t paddingBeforeCluster = 0;
    };
    std::vector<Seg> segments;
    std::vector<Bytes> tagTitles;
    std::size_t tags = 0;
    Bytes unknownTop;
};
inline void checkCrc(Ctx &c, const std::vector<Node> &kids, std::string_view data, std::uint64_t parent)
{
    for (std::size_t i = 0; i < kids.size(); ++i) {
        if (kids[i].id != Crc32)
            continue;
        c.check(i == 0 && kids[i].data.size() == 4, "crc-position", "CRC-32 element of %llX is not the first child or does not have 4 bytes", (unsigned long long)parent);
        const auto rest = data.substr(kids[i].hdr + 4);
        c.check(ref::rdLE(kids[i].data, 0, 4) == crc32(rest), "crc", "CRC-32 of element %llX does not match its content (denoted %08llX, actual %08X)", (unsigned long long)parent,
            (unsigned long long)ref::rdLE(kids[i].data, 0, 4), crc32(rest));
    }
}
inline void checkCrcs(Ctx &c, const Node &n)
{
    checkCrc(c, n.kids, n.data, n.id);
    for (auto &k : n.kids)
        checkCrcs(c, k);
}
inline Bytes canonical(const Node &n) // content without void/CRC-32 and with elements with the same parent sorted
{
    if (!isMaster(n.id))
        return fmt("%llX=", (unsigned long long)n.id) + ref::hex(n.data, 100000) + ";";
    std::vector<Bytes> kids;
    for (auto &k : n.kids)
        if (k.id != Void && k.id != Crc32)
            kids.push_back(canonical(k));
    std::sort(kids.begin(), kids.end());
    Bytes r = fmt("%llX{", (unsigned long long)n.id);
    for (auto &k : kids)
        r += k;
    return r + "}";
}
inline Bytes canonicalTrack(const Node &n)
{
    static const std::pair<std::uint64_t, Bytes> defaults[] = { { FlagEnabled, BE(1, 1) }, { FlagDefault, BE(1, 1) }, { FlagForced, BE(0, 1) }, { Language, "eng" } };
    std::vector<Bytes> kids;
    for (auto k : n.kids) {
        if (k.id == Void || k.id == Crc32)
            continue;
        if (k.id == TrackNumber || k.id == TrackUID || k.id == FlagEnabled || k.id == FlagDefault || k.id == FlagForced)
            k.data = BE(k.u(), 8);
        kids.push_back(canonical(k));
    }
    for (auto &[i, v] : defaults)
        if (!n.kid(i)) {
            Node k;
            k.id = i;
            k.data = i == Language ? v : BE(rdBE(v, 0, 1), 8);
            kids.push_back(canonical(k));
        }
    std::sort(kids.begin(), kids.end());
    Bytes r;
    for (auto &k : kids)
        r += k;
    return r;
}
// decodes the file, checks everything which points to somewhere else and summarises what has to survive
inline Summary summarise(Ctx &c, const Bytes &file)
{
    Summary r;
    const auto top = decode(c, file);
    c.check(!top.empty() && top[0].id == EBML, "header", "the file does not start with an EBML header");
    for (auto &seg : top) {
        if (seg.id == EBML || seg.id == Void)
            continue;
        if (seg.id != ebml::Segment) {
            r.unknownTop += Bytes(file, seg.off, seg.end() - seg.off);
            continue;
        }
        checkCrcs(c, seg);
        Summary::Seg s;
        std::map<std::uint64_t, std::size_t> clusterAt; // position -> index
        std::map<std::uint64_t, std::uint64_t> idAt;
        std::size_t prevTotal = 0;
        std::vector<std::map<std::uint64_t, std::size_t>> blockAt;
        for (auto &e : seg.kids) {
            const auto pos = e.off - seg.dataOff();
            idAt[pos] = e.id;
            switch (e.id) {
            case Void:
                ++s.voids;
                if (s.clusters.empty())
                    s.paddingBeforeCluster += e.end() - e.off;
                break;
            case Crc32:
                s.hasCrc = true;
                break;
            case Info: {
                Node copy = e;
                copy.kids.erase(std::remove_if(copy.kids.begin(), copy.kids.end(), [](auto &k) { return k.id == MuxingApp || k.id == WritingApp || k.id == ebml::Title; }), copy.kids.end());
                s.info += canonical(copy);
                s.infoTitle += e.s(ebml::Title);
                c.check(e.count(MuxingApp) == 1 && e.count(WritingApp) == 1, "info", "there is not exactly one MuxingApp and WritingApp");
                break;
            }
            case Tracks:
                for (auto &k : e.kids)
                    if (k.id == TrackEntry)
                        s.tracks += canonicalTrack(k) + "\n";
                break;
            case Chapters:
                s.chapters += canonical(e);
                break;
            case Attachments:
                for (auto &k : e.kids)
                    if (k.id == AttachedFile)
                        s.attachments += canonical(k);
                break;
            case Tags:
                s.hasTags = true;
                s.tagsFirst = s.clusters.empty();
                for (auto &t : e.kids)
                    if (t.id == Tag) {
                        ++r.tags;
                        for (auto &f : t.kids)
                            if (f.id == SimpleTag && f.s(TagName) == "TITLE")
                                r.tagTitles.push_back(f.s(TagString));
                    }
                break;
            case Cues:
                s.hasCues = true;
                s.cuesFirst = s.clusters.empty();
                break;
            case SeekHead:
                break;
            case Cluster: {
                Bytes cl = fmt("t=%llu ", (unsigned long long)e.u(Timecode));
                blockAt.emplace_back();
                std::size_t n = 0;
                for (auto &k : e.kids) {
                    switch (k.id) {
                    case Void: case Crc32: case Timecode:
                        break;
                    case Position:
                        c.check(k.u() == pos, "cluster-position", "Position of cluster %zu is %llu but it is at %zu", s.clusters.size(), (unsigned long long)k.u(), pos);
                        cl += "pos ";
                        break;
                    case PrevSize:
                        c.check(k.u() == prevTotal, "prev-size", "PrevSize of cluster %zu is %llu but the previous cluster has %zu bytes", s.clusters.size(), (unsigned long long)k.u(), prevTotal);
                        cl += "prev ";
                        break;
                    default:
                        blockAt.back()[k.off - e.dataOff()] = n++;
                        cl += canonical(k);
                    }
                }
                clusterAt[pos] = s.clusters.size();
                s.clusters.push_back(std::move(cl));
                prevTotal = e.end() - e.off;
                break;
            }
            default:
                s.unknown += canonical(e);
            }
        }
        for (auto &e : seg.kids) {
            if (e.id == SeekHead) {
                for (auto &k : e.kids) {
                    if (k.id != Seek)
                        continue;
                    const auto i = rdBE(k.s(SeekID), 0, static_cast<int>(k.s(SeekID).size())), p = k.u(SeekPosition, ~0ull);
                    const auto at = idAt.find(p);
                    c.check(at != idAt.end() && at->second == i, "seek-head", "seek entry for %llX points at %llu where there is %s", (unsigned long long)i, (unsigned long long)p,
                        at == idAt.end() ? "no element" : fmt("element %llX", (unsigned long long)at->second).c_str());
                    ++s.seeks;
                }
            } else if (e.id == Cues) {
                for (auto &p : e.kids) {
                    if (p.id != CuePoint)
                        continue;
                    Bytes q = fmt("time %llu:", (unsigned long long)p.u(CueTime));
                    for (auto &t : p.kids) {
                        if (t.id != CueTrackPositions)
                            continue;
                        const auto at = clusterAt.find(t.u(CueClusterPosition, ~0ull));
                        c.check(at != clusterAt.end(), "cue-cluster", "cue for time %llu points at %llu where there is no cluster", (unsigned long long)p.u(CueTime),
                            (unsigned long long)t.u(CueClusterPosition));
                        q += fmt(" track %llu in cluster %zu", (unsigned long long)t.u(CueTrack), at->second);
                        if (t.kid(CueRelativePosition)) {
                            const auto b = blockAt[at->second].find(t.u(CueRelativePosition));
                            c.check(b != blockAt[at->second].end(), "cue-relative", "relative position %llu of cue for time %llu does not point at a block",
                                (unsigned long long)t.u(CueRelativePosition), (unsigned long long)p.u(CueTime));
                            q += fmt(" block %zu", b->second);
                        }
                        const auto clusterIndex = [&](const Node &k) {
                            std::uint64_t to = 0;
                            for (const auto ch : k.data)
                                to = to << 8 | static_cast<std::uint8_t>(ch);
                            const auto target = clusterAt.find(to);
                            c.check(!to || target != clusterAt.end(), "cue-reference", "element %llX of cue for time %llu points at %llu where there is no cluster", (unsigned long long)k.id,
                                (unsigned long long)p.u(CueTime), (unsigned long long)to);
                            q += fmt(" %llX->%zd", (unsigned long long)k.id, to ? static_cast<std::ptrdiff_t>(target->second) : -1);
                        };
                        for (auto &k : t.kids)
                            if (k.id == CueReference) {
                                for (auto &r : k.kids)
                                    if (r.id == CueRefCluster || r.id == CueRefCodecState)
                                        clusterIndex(r);
                                    else if (r.id != Void && r.id != Crc32)
                                        q += " ref " + canonical(r);
                            } else if (k.id == CueCodecState)
                                clusterIndex(k);
                            else if (k.id != CueTrack && k.id != CueClusterPosition && k.id != CueRelativePosition && k.id != Void && k.id != Crc32)
                                q += " " + canonical(k);
                    }
                    s.cues.push_back(std::move(q));
                }
            }
        }
        r.segments.push_back(std::move(s));
    }
    return r;
}
} // namespace mkv
