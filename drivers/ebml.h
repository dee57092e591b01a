// independent EBML/Matroska encoder and decoder used by the drivers
#pragma once
#include "common.h"

namespace ebml {
using ref::Bytes;
using vt::Ctx;
enum Id : std::uint64_t {
    EBML = 0x1A45DFA3, DocType = 0x4282, DocTypeVersion = 0x4287, DocTypeReadVersion = 0x4285, EBMLVersion = 0x4286, EBMLReadVersion = 0x42F7, EBMLMaxId = 0x42F2, EBMLMaxSize = 0x42F3,
    Void = 0xEC, Crc32 = 0xBF,
    Segment = 0x18538067, SeekHead = 0x114D9B74, Seek = 0x4DBB, SeekID = 0x53AB, SeekPosition = 0x53AC,
    Info = 0x1549A966, TimecodeScale = 0x2AD7B1, Duration = 0x4489, Title = 0x7BA9, MuxingApp = 0x4D80, WritingApp = 0x5741, SegmentUID = 0x73A4, DateUTC = 0x4461, SegmentFilename = 0x7384,
    Tracks = 0x1654AE6B, TrackEntry = 0xAE, TrackNumber = 0xD7, TrackUID = 0x73C5, TrackType = 0x83, CodecID = 0x86, Language = 0x22B59C, LanguageIETF = 0x22B59D, Name = 0x536E,
    FlagEnabled = 0xB9, FlagDefault = 0x88, FlagForced = 0x55AA, FlagLacing = 0x9C, Audio = 0xE1, Video = 0xE0, SamplingFrequency = 0xB5, Channels = 0x9F, BitDepth = 0x6264,
    PixelWidth = 0xB0, PixelHeight = 0xBA, DisplayWidth = 0x54B0, DisplayHeight = 0x54BA, DefaultDuration = 0x23E383, CodecPrivate = 0x63A2, OutputSamplingFrequency = 0x78B5,
    ContentEncodings = 0x6D80, ContentEncoding = 0x6240, ContentCompression = 0x5034,
    Cluster = 0x1F43B675, Timecode = 0xE7, SimpleBlock = 0xA3, BlockGroup = 0xA0, Block = 0xA1, Position = 0xA7, PrevSize = 0xAB,
    Cues = 0x1C53BB6B, CuePoint = 0xBB, CueTime = 0xB3, CueTrackPositions = 0xB7, CueTrack = 0xF7, CueClusterPosition = 0xF1, CueRelativePosition = 0xF0, CueBlockNumber = 0x5378,
    CueReference = 0xDB, CueRefTime = 0x96, CueRefCluster = 0x97, CueRefNumber = 0x535F, CueRefCodecState = 0xEB, CueCodecState = 0xEA, CueDuration = 0xB2,
    Chapters = 0x1043A770, EditionEntry = 0x45B9, EditionUID = 0x45BC, EditionFlagHidden = 0x45BD, EditionFlagDefault = 0x45DB, EditionFlagOrdered = 0x45DD, ChapterAtom = 0xB6,
    ChapterUID = 0x73C4, ChapterTimeStart = 0x91, ChapterTimeEnd = 0x92, ChapterFlagHidden = 0x98, ChapterFlagEnabled = 0x4598, ChapterTrack = 0x8F, ChapterTrackNumber = 0x89,
    ChapterDisplay = 0x80, ChapString = 0x85, ChapLanguage = 0x437C, ChapCountry = 0x437E,
    Tags = 0x1254C367, Tag = 0x7373, Targets = 0x63C0, TargetTypeValue = 0x68CA, TargetType = 0x63CA, TagTrackUID = 0x63C5, TagEditionUID = 0x63C9, TagChapterUID = 0x63C4,
    TagAttachmentUID = 0x63C6, SimpleTag = 0x67C8, TagName = 0x45A3, TagLanguage = 0x447A, TagLanguageIETF = 0x447B, TagDefault = 0x4484, TagString = 0x4487, TagBinary = 0x4485,
    Attachments = 0x1941A469, AttachedFile = 0x61A7, FileDescription = 0x467E, FileName = 0x466E, FileMimeType = 0x4660, FileData = 0x465C, FileUID = 0x46AE,
};
inline bool isMaster(std::uint64_t id)
{
    switch (id) {
    case EBML: case Segment: case SeekHead: case Seek: case Info: case Tracks: case TrackEntry: case Audio: case Video: case ContentEncodings: case ContentEncoding: case ContentCompression:
    case Cluster: case BlockGroup: case Cues: case CuePoint: case CueTrackPositions: case CueReference: case Chapters: case EditionEntry: case ChapterAtom: case ChapterTrack:
    case ChapterDisplay: case Tags: case Tag: case Targets: case SimpleTag: case Attachments: case AttachedFile:
        return true;
    default:
        return false;
    }
}
inline int idLen(std::uint64_t id)
{
    return id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1;
}
inline Bytes id(std::uint64_t v)
{
    return ref::BE(v, idLen(v));
}
inline Bytes size(std::uint64_t v, int len = 0)
{
    if (!len)
        for (len = 1; v >= (1ull << (7 * len)) - 1; ++len)
            ;
    return ref::BE(v | (1ull << (7 * len)), len);
}
inline Bytes el(std::uint64_t i, const Bytes &content, int sizeLen = 0)
{
    return id(i) + size(content.size(), sizeLen) + content;
}
inline Bytes elU(std::uint64_t i, std::uint64_t v, int width = 0)
{
    if (!width)
        for (width = 1; width < 8 && (v >> (8 * width)); ++width)
            ;
    return el(i, ref::BE(v, width));
}
inline Bytes voidEl(std::size_t total) // total size incl. header
{
    if (total < 2)
        return Bytes();
    const int len = total - 2 <= 126 ? 1 : 8;
    return id(Void) + size(total - 1 - len, len) + Bytes(total - 1 - len, '\0');
}
struct Node {
    std::uint64_t id = 0;
    std::size_t off = 0, hdr = 0; // absolute offset of the element and size of its header
    Bytes data;
    std::vector<Node> kids;
    std::size_t dataOff() const
    {
        return off + hdr;
    }
    std::size_t end() const
    {
        return off + hdr + data.size();
    }
    const Node *kid(std::uint64_t i, std::size_t nth = 0) const
    {
        for (auto &k : kids)
            if (k.id == i && !nth--)
                return &k;
        return nullptr;
    }
    std::size_t count(std::uint64_t i) const
    {
        return static_cast<std::size_t>(std::count_if(kids.begin(), kids.end(), [i](auto &k) { return k.id == i; }));
    }
    std::uint64_t u() const
    {
        return ref::rdBE(data, 0, static_cast<int>(std::min<std::size_t>(8, data.size())));
    }
    std::uint64_t u(std::uint64_t i, std::uint64_t def = 0) const
    {
        auto *k = kid(i);
        return k ? k->u() : def;
    }
    Bytes s(std::uint64_t i, const Bytes &def = Bytes()) const
    {
        auto *k = kid(i);
        return k ? k->data : def;
    }
};
// strict decoder: any size which does not match the content is a violation
inline std::vector<Node> decode(Ctx &c, std::string_view b, std::size_t base = 0, int depth = 0)
{
    std::vector<Node> r;
    c.check(depth < 16, "ebml", "nesting too deep");
    for (std::size_t p = 0; p < b.size();) {
        Node n;
        n.off = base + p;
        const auto first = static_cast<unsigned char>(b[p]);
        int il = 1;
        for (; il <= 4 && !(first & (0x80 >> (il - 1))); ++il)
            ;
        c.check(il <= 4 && p + il < b.size(), "ebml", "invalid element ID at %zu", base + p);
        n.id = ref::rdBE(b, p, il);
        const auto sf = static_cast<unsigned char>(b[p + il]);
        int sl = 1;
        for (; sl <= 8 && !(sf & (0x80 >> (sl - 1))); ++sl)
            ;
        c.check(sl <= 8 && p + il + sl <= b.size(), "ebml", "invalid size at %zu", base + p + il);
        const auto s = ref::rdBE(b, p + il, sl) & ((sl == 8 ? 0ull : (~0ull << (7 * sl))) ^ ~0ull) & ((1ull << (7 * sl)) - 1);
        n.hdr = static_cast<std::size_t>(il + sl);
        if (s == (1ull << (7 * sl)) - 1 && n.id == Cluster) { // allowed; ends at the next level-1 element
            std::size_t q = p + n.hdr;
            while (q < b.size()) {
                const auto i = static_cast<unsigned char>(b[q]);
                if ((i & 0xF0) == 0x10) // all level-1 elements have 4 byte IDs
                    break;
                int kl = i & 0x80 ? 1 : i & 0x40 ? 2 : 3, ks = 1;
                c.check((i & 0xE0) && q + kl < b.size(), "ebml", "invalid element ID at %zu", base + q);
                for (; ks <= 8 && !(static_cast<unsigned char>(b[q + kl]) & (0x80 >> (ks - 1))); ++ks)
                    ;
                c.check(ks <= 8 && q + kl + ks <= b.size(), "ebml", "invalid size at %zu", base + q + kl);
                const auto l = ref::rdBE(b, q + kl, ks) & ((1ull << (7 * ks)) - 1);
                c.check(l <= b.size() - q - kl - ks, "ebml", "child of cluster at %zu is truncated", base + q);
                q += kl + ks + l;
            }
            n.data = b.substr(p + n.hdr, q - p - n.hdr);
            n.kids = decode(c, n.data, base + p + n.hdr, depth + 1);
            p = q;
            r.push_back(std::move(n));
            continue;
        }
        c.check(s != (1ull << (7 * sl)) - 1, "ebml", "size of element %llX at %zu is denoted as unknown", (unsigned long long)n.id, base + p);
        c.check(s <= b.size() - p - n.hdr, "ebml", "element %llX at %zu declares %llu bytes but only %zu are left", (unsigned long long)n.id, base + p, (unsigned long long)s,
            b.size() - p - n.hdr);
        n.data = b.substr(p + n.hdr, s);
        if (isMaster(n.id))
            n.kids = decode(c, n.data, base + p + n.hdr, depth + 1);
        p += n.hdr + s;
        r.push_back(std::move(n));
    }
    return r;
}
inline Bytes header(const Bytes &docType = "matroska")
{
    return el(EBML, elU(EBMLVersion, 1) + elU(EBMLReadVersion, 1) + elU(EBMLMaxId, 4) + elU(EBMLMaxSize, 8) + el(DocType, docType) + elU(DocTypeVersion, 4) + elU(DocTypeReadVersion, 2));
}
} // namespace ebml
