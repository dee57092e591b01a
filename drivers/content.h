// decodes files of all supported formats independently of the library and dumps everything they contain except for their layout
#pragma once
#include "formats.h"

namespace fmts {
struct Content {
    Bytes tags; // all tags
    Bytes vendors; // vendors of Vorbis comments
    std::vector<Bytes> titles; // titles within the tags
    Bytes rest; // everything else: media data, tables, tracks, chapters, attachments ...
    // layout
    std::size_t start = 0; // where the actual container starts
    std::size_t padding = 0; // padding the library can make use of (before the media data)
    std::size_t paddingTotal = 0;
    bool tagsFirst = true, indexFirst = true, hasIndex = false;
    std::size_t tagCount = 0;
    std::vector<int> versions; // of ID3v2 tags
    bool v1 = false;
};
inline Bytes dump(const std::vector<Bytes> &v)
{
    Bytes r;
    for (auto &s : v)
        r += ref::fmt("%zu:%016llx;", s.size(), static_cast<unsigned long long>(vt::hashStr(s, 1)));
    return r;
}
inline Bytes digest(const Bytes &b)
{
    return dump({ b });
}
inline Content content(vt::Ctx &c, Id id, const Bytes &file)
{
    using namespace ref;
    Content r;
    std::vector<mp3::V2> v2;
    std::size_t at = 0;
    if (id == Mp3 || file.compare(0, 3, "ID3") == 0)
        at = mp3::parse(c, file, v2);
    for (auto &t : v2) {
        ++r.tagCount;
        r.versions.push_back(t.version);
        r.padding += t.padding;
        r.titles.push_back(t.title());
        r.tags += fmt("ID3v2.%d:", t.version);
        for (auto &f : t.frames)
            r.tags += f.id + "=" + digest(f.data);
        r.tags += "\n";
    }
    if (id != Mp3) // skip zero bytes
        while (at < file.size() && !file[at] && file.compare(at, 3, Bytes(3, '\0')) == 0 && file.compare(at + 4, 4, "ftyp") != 0)
            ++at;
    r.start = at;
    const auto body = file.substr(at);
    switch (id) {
    case Mp3: {
        auto end = file.size();
        if (end - at >= 128 && file.compare(end - 128, 3, "TAG") == 0) {
            end -= 128;
            r.v1 = true;
            ++r.tagCount;
            r.tags += "ID3v1:" + hex(file.substr(end), 1000) + "\n";
            r.titles.push_back(file.substr(end + 3, 30).c_str());
        }
        while (at < end && !file[at]) {
            ++at;
            ++r.padding;
        }
        r.rest = digest(file.substr(at, end - at));
        break;
    }
    case Flac: {
        std::vector<flac::Block> bs;
        const auto media = flac::parse(c, body, 0, bs);
        for (auto &b : bs)
            if (b.type == flac::Padding) {
                r.padding += 4 + b.data.size();
                for (auto ch : b.data)
                    c.check(!ch, "padding", "padding block is not zeroed");
            } else if (b.type == flac::Comment) {
                ++r.tagCount;
                const auto [vendor, entries] = vorbis::decode(c, b.data);
                r.vendors += vendor + ":";
                for (auto &[k, v] : entries) {
                    r.tags += k + "=" + v + ";";
                    if (k == "TITLE")
                        r.titles.push_back(v);
                }
                r.tags += "\n";
            } else {
                (b.type == 6 ? r.tags : r.rest) += fmt("block %d ", b.type) + digest(b.data);
            }
        r.rest += "frames " + digest(body.substr(media));
        break;
    }
    case Mp4:
    case Mp4Back:
    case Mp4Dash: {
        mp4::Summary s;
        try {
            s = mp4::summarise(file.substr(at)); // offsets are relative to the beginning of the file
        } catch (const mp4::Error &e) {
            c.fail("mp4", "%s", e.what());
        }
        r.tagCount += s.metas;
        r.tags += s.otherFields;
        if (s.hasTag) {
            r.titles.push_back(s.title);
            r.tags += "title=" + s.title;
        }
        r.rest = dump(s.top) + dump(s.mediaData) + s.movie + s.userData + dump(s.runs);
        for (auto &t : s.tracks)
            r.rest += fmt("\ntrack %u lang %u ", t.id, t.language) + dump(t.chunks) + t.header + t.media + t.handler + t.name + digest(t.tables);
        r.padding = s.paddingBefore;
        r.paddingTotal = s.paddingTotal;
        r.tagsFirst = r.indexFirst = s.moovFirst;
        r.hasIndex = true;
        break;
    }
    case Mkv:
    case MkvBack: {
        const auto s = mkv::summarise(c, body);
        r.tagCount += s.tags;
        r.titles = s.tagTitles;
        for (auto &e : mkv::decode(c, body))
            for (auto &k : e.kids)
                if (k.id == ebml::Tags)
                    r.tags += mkv::canonical(k);
        r.rest = s.unknownTop;
        for (auto &g : s.segments) {
            r.rest += "\nsegment " + digest(g.info) + g.infoTitle + digest(g.tracks) + digest(g.chapters) + digest(g.attachments) + dump(g.clusters) + dump(g.cues) + digest(g.unknown);
            r.padding += g.paddingBeforeCluster;
            r.tagsFirst = r.tagsFirst && (g.tagsFirst || !g.hasTags);
            r.indexFirst = r.indexFirst && (g.cuesFirst || !g.hasCues);
            r.hasIndex = r.hasIndex || g.hasCues;
        }
        break;
    }
    default:
        for (auto &l : ogg::logical(c, ogg::pages(c, body))) {
            r.rest += fmt("\nstream %u eos %d: ", l.serial, l.eos);
            const auto skip = id == Vorbis ? 7u : 8u;
            const auto tagged = l.packets.size() > 1 && l.packets[1].data.compare(0, skip, id == Vorbis ? "\x03vorbis" : "OpusTags") == 0; // removing all tags drops the packet
            const auto headers = (id == Vorbis ? 2u : 1u) + tagged;
            for (std::size_t i = 0; i < l.packets.size(); ++i) {
                const auto &p = l.packets[i].data;
                if (i == 1 && tagged) {
                    std::size_t used = 0;
                    const auto [vendor, entries] = vorbis::decode(c, std::string_view(p).substr(skip), &used);
                    ++r.tagCount;
                    r.vendors += vendor + ":";
                    for (auto &[k, v] : entries) {
                        r.tags += k + "=" + v + ";";
                        if (k == "TITLE")
                            r.titles.push_back(v);
                    }
                    auto tail = p.substr(skip + used); // framing bit and padding
                    while (!tail.empty() && !tail.back()) {
                        tail.pop_back();
                        ++r.padding;
                    }
                    r.tags += digest(tail);
                    continue;
                }
                r.rest += fmt("%lld ", static_cast<long long>(i >= headers ? l.packets[i].granule : 0)) + digest(p);
            }
        }
    }
    return r;
}
} // namespace fmts
