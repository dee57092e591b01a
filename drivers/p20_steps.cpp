// P20: parsing steps can run in any order and repeatedly with the same result.
#include "digest.h"
#include "faults.h"
#include "formats.h"

using namespace ref;

const char *vt::property = "P20";
const char *vt::rule = "every sequence of parsing steps, closing, (re)opening, clearing, switching to another file and futile saving up to the depth bound on files of every format; every interruption of every step by an "
                       "abort request or a failing I/O call before every single I/O call, followed by every continuation; everything the library reports is compared with what it reports when parsing everything once";
const char *vt::assumptions = "parseContainerFormat() is called before the other steps (as documented); the order only matters up to the depth bound";

namespace {
struct Sample {
    Bytes name, ext, data;
    bool fullParse = false;
};
const std::vector<Sample> &samples()
{
    static std::vector<Sample> v;
    if (!v.empty())
        return v;
    for (const auto &f : fmts::formats)
        v.push_back({ f.name, f.ext, f.make(3000, "some title", 60) });
    const auto id3 = mp3::tag(4, mp3::textFrame(4, "TT2", "TIT2", "prefix") + mp3::textFrame(4, "TP1", "TPE1", "someone"), 33);
    v.push_back({ "ADTS", ".aac", mp3::adts(3000) });
    v.push_back({ "two ID3v2 tags and MP3", ".mp3", id3 + mp3::tag(3, mp3::textFrame(3, "TT2", "TIT2", "second"), 7) + mp3::audio(3000) + mp3::v1("v1", "v1 artist") });
    v.push_back({ "ID3v2 tag and FLAC", ".flac", id3 + v[fmts::Flac].data + mp3::v1("v1", "v1 artist") });
    v.push_back({ "ID3v2 tag and Ogg", ".ogg", id3 + v[fmts::Vorbis].data });
    v.push_back({ "ID3v2 tag and Matroska", ".mkv", id3 + v[fmts::Mkv].data, true });
    v.push_back({ "Matroska (full parse)", ".mkv", v[fmts::Mkv].data, true });
    {
        auto f = fmts::mkvSpec("SITVHGACKKK", 3000, "two segments");
        f.segments[0].twoTracks = true;
        f.segments.push_back(f.segments[0]);
        f.segments[1].salt = 1;
        f.segments[1].tagTitle = "second segment";
        v.push_back({ "Matroska (two segments)", ".mkv", mkv::build(f) });
    }
    {
        Bytes b;
        ogg::Paging paging;
        paging.perPage = 16;
        for (auto &p : ogg::paginate(fmts::oggStream(ogg::Vorbis, 5, 3000, "first"), paging))
            b += ogg::str(p);
        for (auto &p : ogg::paginate(fmts::oggStream(ogg::Opus, 6, 2000, "second"), paging))
            b += ogg::str(p);
        v.push_back({ "Ogg (two streams)", ".ogg", b });
    }
    v.push_back({ "WAVE", ".wav", "RIFF" + LE(36 + 400, 4) + "WAVEfmt " + LE(16, 4) + LE(1, 2) + LE(2, 2) + LE(44100, 4) + LE(176400, 4) + LE(4, 2) + LE(16, 2) + "data" + LE(400, 4) + filler(400, 9) });
    v.push_back({ "IVF", ".ivf", "DKIF" + LE(0, 2) + LE(32, 2) + "AV01" + LE(320, 2) + LE(240, 2) + LE(25, 4) + LE(1, 4) + LE(1, 4) + LE(0, 4) + LE(20, 4) + LE(0, 8) + filler(20, 3) });
    v.push_back({ "text", ".txt", "just a text file, nothing which could be parsed in any way; just a text file, nothing which could be parsed in any way; just a text file, nothing which could be parsed in any way" });
    v.push_back({ "tiny file", ".mp3", "tiny" });
    v.push_back({ "damaged ID3v2 tag", ".mp3", "ID3\x09" + Bytes(2, '\0') + syncsafe(100) + filler(100, 4) + mp3::audio(3000) + mp3::v1("v1", "v1 artist") });
    v.push_back({ "damaged FLAC", ".flac", "fLaC" + flac::block({ flac::StreamInfo, flac::streamInfo() }, false) + flac::block({ flac::Comment, LE(500, 4) + "vendor" }, true) + flac::frames(3000) });
    v.push_back({ "damaged MP4", ".m4a", v[fmts::Mp4].data.substr(0, 700) });
    v.push_back({ "damaged Matroska", ".mkv", v[fmts::Mkv].data.substr(0, 500) });
    v.push_back({ "damaged Ogg", ".ogg", v[fmts::Vorbis].data.substr(0, 200) });
    return v;
}
constexpr std::size_t sampleCount = fmts::Count + 17;
struct Reference {
    Digest nothing, all, tracksOnly;
};
void open(MediaFileInfo &f, const Sample &s)
{
    f.setForceFullParse(s.fullParse);
}
const Reference &reference(Ctx &c, std::size_t sample)
{
    static std::map<std::size_t, Reference> cache;
    const auto [i, isNew] = cache.try_emplace(sample);
    if (isNew) {
        const auto &s = samples()[sample];
        c.check(samples().size() == sampleCount, "harness", "wrong number of samples: %zu", samples().size());
        const auto path = c.file(s.ext.c_str());
        vt::writeFile(path, s.data);
        {
            MediaFileInfo f(path);
            open(f, s);
            i->second.nothing = digest(f);
        }
        Diagnostics diag;
        AbortableProgressFeedback progress;
        {
            MediaFileInfo f(path);
            open(f, s);
            f.open(true);
            f.parseEverything(diag, progress);
            i->second.all = digest(f);
            c.log("%s", diagText(diag).c_str());
            for (int p = 0; p < PartCount; ++p)
                c.log("%s (%s): %s", partNames[p], str(i->second.all.status[p]), i->second.all.part[p].c_str());
        }
        {
            MediaFileInfo f(path);
            open(f, s);
            f.parseContainerFormat(diag, progress);
            f.parseTracks(diag, progress);
            i->second.tracksOnly = digest(f);
        }
    }
    return i->second;
}
std::size_t count(const Bytes &s, const char *prefix)
{
    std::size_t r = 0;
    for (std::size_t i = 0; (i = s.find(prefix, i)) != Bytes::npos; ++i)
        r += !i || s[i - 1] == '\n';
    return r;
}
// checks a state: finished parts are exactly as expected, unfinished ones do not contain more than that
void check(Ctx &c, const Sample &s, const Reference &r, const Digest &d, const Bytes &history, bool interrupted = false)
{
    for (int p = 0; p < PartCount; ++p) {
        const auto ctx = fmt("%s; %s: %s", s.name.c_str(), history.c_str(), partNames[p]);
        if (d.status[p] != ParsingStatus::NotParsedYet) {
            c.check(d.status[p] == r.all.status[p], "status", "%s reported to be %s instead of %s", ctx.c_str(), str(d.status[p]), str(r.all.status[p]));
            const auto complete = d.status[TagsPart] != ParsingStatus::NotParsedYet && d.status[TracksPart] != ParsingStatus::NotParsedYet;
            if (p == PaddingPart && !complete)
                continue;
            const auto &expected = p == TracksPart && !complete ? r.tracksOnly : r.all;
            c.check(d.part[p] == expected.part[p], partNames[p], "%s differ:\n%s\ninstead of:\n%s", ctx.c_str(), d.part[p].c_str(), expected.part[p].c_str());
            continue;
        }
        static const char *const items[] = { "", "", "track", "tag", "chapter", "attachment" };
        if (p < TracksPart)
            continue;
        c.check(count(d.part[p], items[p]) <= count(r.all.part[p], items[p]), "surplus", "%s not parsed yet but there are more of them than there should be:\n%s", ctx.c_str(), d.part[p].c_str());
        std::istringstream lines(d.part[p]);
        for (Bytes line; std::getline(lines, line);)
            if (p == TagsPart && !line.compare(0, 4, "tag ") && line.find("fields=0") == Bytes::npos && !interrupted)
                c.check(r.all.part[p].find(line + "\n") != Bytes::npos, "bogus", "%s not parsed yet but bogus ones are reported:\n%s", ctx.c_str(), d.part[p].c_str());
            else if (p == TagsPart && !line.compare(0, 4, "tag ") && line.find(fmt("type=%d", static_cast<int>(TagType::Id3v1Tag))) != Bytes::npos)
                c.check(r.all.part[p].find(line + "\n") != Bytes::npos, "bogus", "%s not parsed yet but a bogus ID3v1 tag is reported:\n%s", ctx.c_str(), d.part[p].c_str());
    }
    for (int p = 0; p < PartCount; ++p)
        c.state(vt::hashStr(d.part[p], static_cast<unsigned>(d.status[p])));
}
using Step = void (MediaFileInfo::*)(Diagnostics &, AbortableProgressFeedback &);
const std::pair<const char *, Step> steps[] = { { "container", &MediaFileInfo::parseContainerFormat }, { "tracks", &MediaFileInfo::parseTracks }, { "tags", &MediaFileInfo::parseTags },
    { "chapters", &MediaFileInfo::parseChapters }, { "attachments", &MediaFileInfo::parseAttachments }, { "everything", &MediaFileInfo::parseEverything } };
enum Op { Container, Tracks, Tags, Chapters, Attachments, Everything, Clear, Close, Open, Reopen, ReopenReadOnly, Invalidate, OtherFile, Aborted, Save, OpCount };
const char *const opNames[] = { "container", "tracks", "tags", "chapters", "attachments", "everything", "clear", "close", "open", "reopen", "reopen read-only", "invalidate", "other file", "aborted", "save" };
struct Session2 {
    Bytes path, other;
    MediaFileInfo file;
    Diagnostics diag;
    AbortableProgressFeedback progress;
};
// finally parses everything
void finish(Ctx &c, const Sample &s, const Reference &r, MediaFileInfo &f, const Bytes &path, const Bytes &history)
{
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open();
    f.parseEverything(diag, progress);
    const auto d = digest(f);
    for (int p = 0; p < PartCount; ++p) {
        c.check(d.status[p] == r.all.status[p], "final-status", "%s; %s, everything: %s reported to be %s instead of %s", s.name.c_str(), history.c_str(), partNames[p], str(d.status[p]), str(r.all.status[p]));
        c.check(d.part[p] == r.all.part[p], fmt("final-%s", partNames[p]), "%s; %s, everything: %s differ:\n%s\ninstead of:\n%s", s.name.c_str(), history.c_str(), partNames[p], d.part[p].c_str(), r.all.part[p].c_str());
    }
    f.close();
    c.check(vt::readFile(path) == s.data, "file", "%s; %s: file has been altered", s.name.c_str(), history.c_str());
}
} // namespace

VT_SUITE(orders, sampleCount)
{
    const auto &s = samples()[c.top];
    const auto &r = reference(c, c.top);
    const auto path = c.file(("a" + s.ext).c_str());
    vt::writeFile(path, s.data);
    MediaFileInfo f(path);
    open(f, s);
    Diagnostics diag;
    Bytes history;
    const auto depth = vt::thorough() ? 5u : 4u;
    for (unsigned i = 0; i < depth; ++i) {
        const auto parsed = f.containerParsingStatus() != ParsingStatus::NotParsedYet;
        const auto mayStep = parsed && f.isOpen();
        std::vector<Op> ops;
        for (int o = 0; o < OpCount; ++o) {
            switch (o) {
            case Tracks:
            case Tags:
            case Chapters:
            case Attachments:
                if (!mayStep)
                    continue;
                break;
            case Container:
            case Everything:
            case Aborted:
                if (parsed && !f.isOpen())
                    continue;
                break;
            case Save:
                if (f.tagsParsingStatus() != ParsingStatus::NotParsedYet && f.tracksParsingStatus() != ParsingStatus::NotParsedYet)
                    continue;
                break;
            default:;
            }
            ops.push_back(static_cast<Op>(o));
        }
        const auto op = c.pickFrom(ops, "step");
        history += fmt("%s%s", i ? ", " : "", opNames[op]);
        c.log("%s", opNames[op]);
        c.step();
        AbortableProgressFeedback progress;
        switch (op) {
        case Clear:
            f.clearParsingResults();
            break;
        case Close:
            f.close();
            break;
        case Open:
            f.open();
            break;
        case Reopen:
            f.reopen();
            break;
        case ReopenReadOnly:
            f.reopen(true);
            break;
        case Invalidate:
            f.invalidate();
            break;
        case OtherFile: {
            const auto otherIndex = (c.top + 3) % fmts::Count;
            const auto &other = samples()[otherIndex];
            const auto &otherReference = reference(c, otherIndex);
            const auto otherPath = c.file(("b" + other.ext).c_str());
            vt::writeFile(otherPath, other.data);
            f.setPath(otherPath);
            f.setForceFullParse(other.fullParse);
            finish(c, other, otherReference, f, otherPath, history);
            f.setPath(path);
            open(f, s);
            break;
        }
        case Aborted:
            progress.tryToAbort();
            f.parseEverything(diag, progress);
            break;
        case Save: {
            const auto before = digest(f, f.isOpen());
            auto failed = false;
            try {
                f.applyChanges(diag, progress);
            } catch (const Failure &) {
                failed = true;
            }
            const auto after = digest(f, f.isOpen());
            c.check(failed, "save", "%s; %s: it is possible to save a file which has not been parsed", s.name.c_str(), history.c_str());
            for (int p = 0; p < PartCount; ++p)
                c.check(before.part[p] == after.part[p] && before.status[p] == after.status[p], "save", "%s; %s: %s changed", s.name.c_str(), history.c_str(), partNames[p]);
            break;
        }
        default:
            (f.*steps[op].second)(diag, progress);
        }
        const auto d = digest(f, f.isOpen());
        if (f.isOpen())
            check(c, s, r, d, history);
        if (d.status[TagsPart] == ParsingStatus::NotParsedYet && i + 1 == depth) {
            // tags cannot be created before the present ones have been parsed
            c.check(!f.createAppropriateTags(), "create", "%s; %s: tags can be created before parsing", s.name.c_str(), history.c_str());
            c.check(digest(f, f.isOpen()).part[TagsPart] == d.part[TagsPart], "create", "%s; %s: creating tags failed but tags have been changed", s.name.c_str(), history.c_str());
        }
    }
    if (!f.isOpen())
        f.open();
    finish(c, s, r, f, path, history);
}

VT_SUITE(interruptions, sampleCount)
{
    const auto &s = samples()[c.top];
    const auto &r = reference(c, c.top);
    const auto path = c.file(("a" + s.ext).c_str());
    vt::writeFile(path, s.data);
    MediaFileInfo f(path);
    open(f, s);
    f.open();
    Diagnostics diag;
    Bytes history;
    const auto index = c.choose(std::size(steps), "interrupted step");
    if (index && index < Everything) {
        history = "container, ";
        AbortableProgressFeedback progress;
        f.parseContainerFormat(diag, progress);
        // other steps before
        for (unsigned i = 0; i < (vt::thorough() ? 2 : 1); ++i)
            if (const auto other = c.choose(Everything, "step before")) {
                history += fmt("%s, ", steps[other].first);
                (f.*steps[other].second)(diag, progress);
            }
    }
    const auto abort = c.flip("abort");
    const auto prefix = history;
    // determine the number of I/O calls
    static std::map<Bytes, std::size_t> calls;
    const auto key = fmt("%zu %zu %s", c.top, index, prefix.c_str());
    const auto known = calls.find(key);
    if (known == calls.end()) {
        MediaFileInfo g(path);
        open(g, s);
        g.open();
        AbortableProgressFeedback progress;
        std::istringstream h(prefix);
        for (Bytes n; std::getline(h, n, ',');)
            for (auto &st : steps)
                if (n.find(st.first) != Bytes::npos)
                    (g.*st.second)(diag, progress);
        faults::Armed armed;
        (g.*steps[index].second)(diag, progress);
        calls[key] = faults::state.ops.size();
    }
    const auto n = calls[key];
    if (!n)
        c.skip();
    const auto at = c.choose(n, "moment");
    c.step();
    AbortableProgressFeedback progress;
    static AbortableProgressFeedback *current;
    current = &progress;
    auto threw = false;
    Bytes what, error;
    diag.clear();
    {
        faults::Armed armed(static_cast<long>(at), abort ? faults::Hook : faults::Once);
        faults::state.hook = [] { current->tryToAbort(); };
        try {
            (f.*steps[index].second)(diag, progress);
        } catch (const std::ios_base::failure &e) {
            threw = true;
            error = e.what();
        }
        what = faults::state.what;
    }
    history += fmt("%s (%s %s, %zu of %zu%s%s)", steps[index].first, abort ? "aborted before" : "failing", what.c_str(), at, n, threw ? ", exception: " : "", error.c_str());
    c.log("%s %s", history.c_str(), diagText(diag).c_str());
    if (abort)
        c.check(!threw, "abort", "%s; %s: exception on abort", s.name.c_str(), history.c_str());
    faults::state.armed = false;
    const auto d = digest(f, false);
    // a failing I/O call might be reported via exception or as critical failure
    auto failure = hasLevel(diag, DiagLevel::Critical) && !abort;
    for (int p = 0; p < PartCount; ++p)
        failure = failure || (!abort && d.status[p] == ParsingStatus::CriticalFailure);
    if (!failure && !(threw && !abort)) {
        auto e = d;
        if (e.status[AttachmentsPart] != ParsingStatus::NotParsedYet && !threw)
            e = digest(f);
        check(c, s, r, e, history, true);
    }
    // continue
    static const char *const continuations[] = { "same step", "everything", "reopen", "clear", "other step", "close and open" };
    const auto next = c.choose(std::size(continuations), "continuation");
    const auto retry = next == 0 || next == 1 || next == 4;
    if (!abort && retry)
        c.skip(); // the stream is in an erroneous state
    history += fmt(", %s", continuations[next]);
    AbortableProgressFeedback again;
    switch (next) {
    case 0:
        (f.*steps[index].second)(diag, again);
        check(c, s, r, digest(f), history);
        break;
    case 2:
        f.reopen();
        break;
    case 3:
        f.clearParsingResults();
        if (!abort)
            f.reopen();
        break;
    case 4: {
        if (f.containerParsingStatus() == ParsingStatus::NotParsedYet)
            c.skip();
        const auto other = c.choose(std::size(steps), "other step");
        history += fmt(" %s", steps[other].first);
        (f.*steps[other].second)(diag, again);
        check(c, s, r, digest(f), history);
        break;
    }
    case 5:
        f.close();
        f.open();
        break;
    default:;
    }
    finish(c, s, r, f, path, history);
}

VT_SUITE(closed, sampleCount)
{
    const auto &s = samples()[c.top];
    const auto &r = reference(c, c.top);
    const auto path = c.file(("a" + s.ext).c_str());
    vt::writeFile(path, s.data);
    MediaFileInfo f(path);
    open(f, s);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    Bytes history = "container";
    f.parseContainerFormat(diag, progress);
    if (const auto before = c.choose(Everything, "before")) {
        history += fmt(", %s", steps[before].first);
        (f.*steps[before].second)(diag, progress);
    }
    f.close();
    const auto step = c.choose(std::size(steps), "step");
    history += fmt(", close, %s", steps[step].first);
    c.step();
    try {
        (f.*steps[step].second)(diag, progress);
        history += fmt(" (returned)");
    } catch (const std::ios_base::failure &) {
        history += " (failed)";
    }
    const auto d = digest(f, false);
    for (int p = 0; p < PartCount; ++p)
        c.check(d.status[p] == ParsingStatus::NotParsedYet || d.status[p] == ParsingStatus::CriticalFailure || d.status[p] == r.all.status[p], "status", "%s; %s: %s reported to be %s", s.name.c_str(), history.c_str(),
            partNames[p], str(d.status[p]));
    const auto v1 = [](const Digest &x) { return x.part[TagsPart].find("v1=1") != Bytes::npos; };
    c.check(!v1(d) || v1(r.all), "bogus", "%s; %s: a bogus ID3v1 tag is reported", s.name.c_str(), history.c_str());
    f.open();
    const auto e = digest(f);
    for (int p = 0; p < PartCount; ++p)
        c.check(e.status[p] == ParsingStatus::NotParsedYet, "status", "%s; %s, open: %s reported to be %s", s.name.c_str(), history.c_str(), partNames[p], str(e.status[p]));
    finish(c, s, r, f, path, history);
}
