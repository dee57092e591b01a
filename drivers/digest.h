// dumps everything a MediaFileInfo reports about a file
#pragma once
#include "save.h"

#include <tagparser/abstractcontainer.h>
#include <tagparser/mp4/mp4tag.h>

namespace ref {
enum Part { ContainerPart, PaddingPart, TracksPart, TagsPart, ChaptersPart, AttachmentsPart, PartCount };
inline const char *const partNames[PartCount] = { "container", "padding", "tracks", "tags", "chapters", "attachments" };
struct Digest {
    Bytes part[PartCount];
    ParsingStatus status[PartCount];
};
inline Bytes dumpTag(const Tag &t)
{
    auto r = fmt("tag type=%d fields=%zu target=%s", static_cast<int>(t.type()), t.fieldCount(), t.supportsTarget() ? t.target().toString(TagTargetLevel::Unspecified).c_str() : "-");
    for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f))
        if (t.supportsField(f))
            for (const auto *v : t.values(f))
                if (!v->isEmpty())
                    r += fmt(" %d=", static_cast<int>(f)) + describe(*v);
    return r + "\n";
}
inline Bytes str(const Locale &l)
{
    Bytes r;
    for (auto &d : l)
        r += fmt("%s/%d ", d.c_str(), static_cast<int>(d.format));
    return r;
}
inline Bytes dumpTrack(AbstractTrack &t)
{
    const auto u = [](auto v) { return static_cast<unsigned long long>(v); };
    auto r = fmt("track id=%llu no=%u type=%d flags=%llx format=%d/%d/%d \"%s\" \"%s\" media=%d version=%g size=%llu name=\"%s\" duration=%lld bitrate=%g max=%g created=%llu modified=%llu locale=%s", u(t.id()),
        t.trackNumber(), static_cast<int>(t.type()), u(t.flags()), static_cast<int>(t.format().general), static_cast<int>(t.format().sub), static_cast<int>(t.format().extension), t.formatId().c_str(),
        Bytes(t.formatName()).c_str(), static_cast<int>(t.mediaType()), t.version(), u(t.size()), t.name().c_str(), static_cast<long long>(t.duration().totalTicks()), t.bitrate(), t.maxBitrate(),
        u(t.creationTime().totalTicks()), u(t.modificationTime().totalTicks()), str(t.locale()).c_str());
    r += fmt(" freq=%u/%u bits=%u ch=%u/%u/%u samples=%llu quality=%d px=%ux%u disp=%ux%u res=%ux%u compressor=%s depth=%u fps=%u chroma=%s aspect=%s interlaced=%d scale=%u color=%u crop=%u/%u/%u/%u", t.samplingFrequency(),
        t.extensionSamplingFrequency(), t.bitsPerSample(), t.channelCount(), t.channelConfig(), t.extensionChannelConfig(), u(t.sampleCount()), t.quality(), t.pixelSize().width(), t.pixelSize().height(),
        t.displaySize().width(), t.displaySize().height(), t.resolution().width(), t.resolution().height(), t.compressorName().c_str(), t.depth(), t.fps(), Bytes(t.chromaFormat()).c_str(),
        t.pixelAspectRatio().toString().c_str(), t.isInterlaced(), t.timeScale(), t.colorSpace(), t.cropping().top(), t.cropping().left(), t.cropping().bottom(), t.cropping().right());
    r += fmt(" label=\"%s\" description=\"%s\" valid=%d", t.label().c_str(), t.description().c_str(), t.isHeaderValid());
    r += Bytes(t.channelConfigString()) + Bytes(t.extensionChannelConfigString()) + t.shortDescription();
    return r + "\n";
}
inline Bytes dumpChapter(AbstractChapter &ch)
{
    auto r = fmt("chapter %llu %lld..%lld%s%s %s", static_cast<unsigned long long>(ch.id()), static_cast<long long>(ch.startTime().totalTicks()), static_cast<long long>(ch.endTime().totalTicks()),
        ch.isHidden() ? " hidden" : "", ch.isEnabled() ? " enabled" : "", ch.label().c_str());
    for (auto &n : ch.names())
        r += " \"" + n + "\" " + str(n.locale());
    for (auto t : ch.tracks())
        r += fmt(" track %llu", static_cast<unsigned long long>(t));
    r += "\n";
    for (std::size_t i = 0; i < ch.nestedChapterCount(); ++i)
        r += "  " + dumpChapter(*ch.nestedChapter(i));
    return r;
}
inline Bytes dumpAttachment(AbstractAttachment &a, bool content = true)
{
    auto r = fmt("attachment %llu name=\"%s\" mime=\"%s\" description=\"%s\" ignored=%d file=%d ", static_cast<unsigned long long>(a.id()), a.name().c_str(), a.mimeType().c_str(), a.description().c_str(), a.isIgnored(),
        a.isDataFromFile());
    if (a.data()) {
        r += fmt("size %llu ", static_cast<unsigned long long>(a.data()->size()));
        if (content) {
            std::ostringstream s;
            a.data()->copyTo(s);
            r += fmt("%016llx", static_cast<unsigned long long>(vt::hashStr(s.str(), 1)));
        }
    }
    return r + a.label() + "\n";
}
inline Digest digest(MediaFileInfo &f, bool readable = true)
{
    Digest d;
    const auto &cf = f;
    d.status[ContainerPart] = d.status[PaddingPart] = cf.containerParsingStatus();
    d.status[TracksPart] = cf.tracksParsingStatus();
    d.status[TagsPart] = cf.tagsParsingStatus();
    d.status[ChaptersPart] = cf.chaptersParsingStatus();
    d.status[AttachmentsPart] = cf.attachmentsParsingStatus();
    d.part[ContainerPart] = fmt("%d \"%s\" offset=%llu supported=%d%d", static_cast<int>(cf.containerFormat()), Bytes(cf.containerFormatSubversion()).c_str(),
        static_cast<unsigned long long>(cf.containerOffset()), cf.areChaptersSupported(), cf.areAttachmentsSupported());
    d.part[TracksPart] = fmt("supported=%d name=%s extension=%s mime=%s\n", cf.areTracksSupported(), Bytes(cf.containerFormatName()).c_str(), Bytes(cf.containerFormatAbbreviation()).c_str(), Bytes(cf.mimeType()).c_str()); // depend on the kind of tracks
    d.part[PaddingPart] = fmt("%llu", static_cast<unsigned long long>(cf.paddingSize()));
    if (const AbstractContainer *const c = cf.container()) {
        d.part[ContainerPart] += fmt(" version=%llu/%llu doctype=\"%s\" %llu/%llu segments=%zu", static_cast<unsigned long long>(c->version()), static_cast<unsigned long long>(c->readVersion()),
            c->documentType().c_str(), static_cast<unsigned long long>(c->doctypeVersion()), static_cast<unsigned long long>(c->doctypeReadVersion()), c->segmentCount());
        auto &t = d.part[TracksPart];
        t += fmt("container: duration=%lld created=%llu modified=%llu scale=%u titles", static_cast<long long>(c->duration().totalTicks()), static_cast<unsigned long long>(c->creationTime().totalTicks()),
            static_cast<unsigned long long>(c->modificationTime().totalTicks()), c->timeScale());
        for (auto &s : c->titles())
            t += " " + quote(s);
        for (auto &s : c->muxingApplications())
            t += " muxer " + quote(s);
        for (auto &s : c->writingApplications())
            t += " writer " + quote(s);
        t += "\n";
    }
    for (auto *t : cf.tracks())
        d.part[TracksPart] += dumpTrack(*t);
    d.part[TracksPart] += fmt("duration=%lld bitrate=%g tracks=%zu summary=\"%s\" ", static_cast<long long>(cf.duration().totalTicks()), cf.overallAverageBitrate(), cf.trackCount(), cf.technicalSummary().c_str());
    for (auto m : { MediaType::Unknown, MediaType::Audio, MediaType::Video, MediaType::Text }) {
        const auto l = cf.availableLanguages(m);
        for (auto &s : std::set<Bytes>(l.begin(), l.end()))
            d.part[TracksPart] += fmt("language %d %s ", static_cast<int>(m), s.c_str());
        d.part[TracksPart] += fmt("%d", cf.hasTracksOfType(m));
    }
    const auto tags = cf.tags();
    for (auto *t : tags)
        d.part[TagsPart] += dumpTag(*t);
    d.part[TagsPart] += fmt("supported=%d effective=%llu any=%d v1=%d v2=%d mp4=%d mkv=%zu vorbis=%d parsed=%zu", cf.areTagsSupported(), static_cast<unsigned long long>(cf.effectiveSize()), cf.hasAnyTag(), cf.hasId3v1Tag(), cf.hasId3v2Tag(), !!cf.mp4Tag(),
        cf.matroskaTags().size(), !!cf.vorbisComment(), cf.parsedTags().size());
    for (auto *ch : cf.chapters())
        d.part[ChaptersPart] += dumpChapter(*ch);
    for (auto *a : cf.attachments())
        d.part[AttachmentsPart] += dumpAttachment(*a, readable);
    return d;
}
inline const char *str(ParsingStatus s)
{
    static const char *n[] = { "not parsed yet", "ok", "not supported", "critical failure" };
    return n[static_cast<int>(s)];
}
} // namespace ref
