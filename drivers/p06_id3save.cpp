// P06: saving a file with ID3 tags leaves the audio data untouched.
#include "mp3.h"
#include "save.h"

#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>

using namespace ref;

const char *vt::property = "P06";
const char *vt::rule = "every initial file (audio kind/length x existing ID3v2 tags, versions, padding, footer, zero bytes x ID3v1) x padding preferences x rewriting mode x every sequence of one or "
                       "two edits (within one session or re-opened); the saved bytes are decoded by an independent ID3 decoder and compared with a reference model of the tags; "
                       "states = distinct saved files";
const char *vt::assumptions = "zero bytes and junk before the first frame count as padding (documented by the library)|tag values are short Latin-1 texts (P01/P02 cover values)";

namespace {
struct MV2 {
    int version;
    Bytes title, artist;
    bool priv;
};
struct Model {
    std::vector<MV2> v2;
    bool hasV1 = false;
    Bytes v1Title, v1Artist;
};
const Bytes privData("owner\0data\1\2\3", 14);
struct Edit {
    const char *name;
    std::function<void(MediaFileInfo &, Model &)> apply;
};
void setV2Title(MediaFileInfo &f, Model &m, const Bytes &t)
{
    auto *tag = f.createId3v2Tag();
    if (m.v2.empty())
        m.v2.push_back({ tag->majorVersion(), "", "", false });
    tag->setValue(KnownField::Title, text(t, TagTextEncoding::Latin1));
    m.v2[0].title = t;
}
const Edit edits[] = {
    { "none", [](MediaFileInfo &, Model &) {} },
    { "create/alter ID3v1",
        [](MediaFileInfo &f, Model &m) {
            auto *t = f.createId3v1Tag();
            t->setValue(KnownField::Title, text("one", TagTextEncoding::Latin1));
            m.hasV1 = true;
            m.v1Title = "one";
        } },
    { "remove ID3v1",
        [](MediaFileInfo &f, Model &m) {
            f.removeId3v1Tag();
            m.hasV1 = false;
            m.v1Title.clear();
            m.v1Artist.clear();
        } },
    { "set short ID3v2 title", [](MediaFileInfo &f, Model &m) { setV2Title(f, m, "s"); } },
    { "set long ID3v2 title", [](MediaFileInfo &f, Model &m) { setV2Title(f, m, Bytes(150, 'L')); } },
    { "remove all ID3v2",
        [](MediaFileInfo &f, Model &m) {
            f.removeAllId3v2Tags();
            m.v2.clear();
        } },
    { "remove all",
        [](MediaFileInfo &f, Model &m) {
            f.removeAllTags();
            m = Model();
        } },
    { "remove last ID3v2",
        [](MediaFileInfo &f, Model &m) {
            if (m.v2.empty())
                return;
            f.removeId3v2Tag(f.id3v2Tags().back().get());
            m.v2.pop_back();
        } },
    { "change version",
        [](MediaFileInfo &f, Model &m) {
            if (m.v2.empty())
                return;
            m.v2[0].version = m.v2[0].version == 4 ? 3 : 4;
            f.id3v2Tags()[0]->setVersion(static_cast<std::uint8_t>(m.v2[0].version), 0);
        } },
    { "set both titles",
        [](MediaFileInfo &f, Model &m) {
            setV2Title(f, m, "both");
            f.createId3v1Tag()->setValue(KnownField::Title, text("both1", TagTextEncoding::Latin1));
            m.hasV1 = true;
            m.v1Title = "both1";
        } },
};
struct Init {
    Bytes head, audio, tail;
    Model model;
};
Init makeInit(Ctx &c, std::size_t tagsKind)
{
    Init r;
    static const std::size_t pads[] = { 0, 1, 20, 400 };
    auto v2 = [&](int version, const Bytes &title, std::size_t pad, bool footer = false, const Bytes &ext = Bytes()) {
        const Bytes frames = mp3::textFrame(version, "TT2", "TIT2", title) + mp3::textFrame(version, "TP1", "TPE1", "artist") + (version > 2 ? mp3::frame(version, "", "PRIV", privData) : "");
        r.head += mp3::tag(version, frames, pad, footer, ext);
        r.model.v2.push_back({ version, title, "artist", version > 2 });
    };
    switch (tagsKind) {
    case 0:
        break;
    case 1: case 2: case 3:
        v2(static_cast<int>(tagsKind) + 1, "old title", c.pick(pads, "existing padding"));
        break;
    case 4:
        v2(3, "first", 0);
        v2(4, "second", c.pick(pads, "existing padding"));
        break;
    case 5:
        v2(4, "footer", 0, true);
        break;
    case 6: // zero bytes between tag and audio
        v2(3, "gap", 30);
        r.head += Bytes(50, '\0');
        break;
    case 7: // zero bytes without tag
        r.head += Bytes(64, '\0');
        break;
    case 9:
        v2(3, "extended", c.pick(pads, "existing padding"), false, BE(6, 4) + Bytes(6, '\0'));
        break;
    case 10:
        v2(4, "extended", c.pick(pads, "existing padding"), false, syncsafe(6) + Bytes("\1", 2));
        break;
    case 8:
        v2(4, "first", 10, true);
        v2(3, "second", 5);
        break;
    }
    static const std::size_t sizes[] = { 417 * 2, 1000, 0x4000, 0x4001, 0x8000 - 1 };
    const auto a = c.choose(vt::thorough() ? 6 : 4, "audio");
    r.audio = a == 3 ? mp3::adts(1000) : mp3::audio(sizes[a == 5 ? 3 : a > 3 ? a - 1 : a]);
    if (a == 1) // something which looks like an ID3v1 tag, but at the wrong position
        r.audio.replace(r.audio.size() - 129, 3, "TAG");
    if (c.flip("existing ID3v1")) {
        r.tail = mp3::v1("old v1", "artist1");
        r.model.hasV1 = true;
        r.model.v1Title = "old v1";
        r.model.v1Artist = "artist1";
    }
    return r;
}
void verify(Ctx &c, const Bytes &b, const Bytes &audio, const Model &m, std::size_t zeros, const Bytes &ctx)
{
    std::vector<mp3::V2> tags;
    const auto off = mp3::parse(c, b, tags);
    c.check(tags.size() == m.v2.size(), "tags", "%zu instead of %zu ID3v2 tags in the saved file; %s", tags.size(), m.v2.size(), ctx.c_str());
    for (std::size_t i = 0; i < tags.size(); ++i) {
        const auto &t = tags[i];
        const auto &w = m.v2[i];
        c.check(t.version == w.version && t.title() == w.title && t.artist() == w.artist, "tags", "ID3v2.%d tag %zu has title '%s' and artist '%s' instead of 2.%d '%s' '%s'; %s", t.version, i,
            t.title().c_str(), t.artist().c_str(), w.version, w.title.c_str(), w.artist.c_str(), ctx.c_str());
        const auto priv = std::count_if(t.frames.begin(), t.frames.end(), [](auto &f) { return f.id == "PRIV" && f.data == privData; });
        c.check(priv == (w.priv ? 1 : 0), "tags", "PRIV frame of tag %zu; %s", i, ctx.c_str());
        c.check(t.frames.size() == std::size_t(!w.title.empty()) + !w.artist.empty() + w.priv, "tags", "%zu frames in tag %zu; %s", t.frames.size(), i, ctx.c_str());
    }
    // zero bytes which were already there may stay if there is no ID3v2 tag which could cover them
    auto start = off;
    if (m.v2.empty())
        for (; start < off + zeros && start < b.size() && !b[start]; ++start)
            ;
    const Bytes rest = b.substr(start);
    const Bytes got = rest.substr(0, std::min(rest.size(), audio.size()));
    c.check(got == audio, "audio", "audio data differs at %zu of %zu bytes (file has %zu bytes after the tags); %s", firstDiff(got, audio), audio.size(), rest.size(), ctx.c_str());
    const Bytes tail = rest.substr(audio.size());
    if (!m.hasV1) {
        c.check(tail.empty(), "tail", "%zu bytes after the audio data: %s; %s", tail.size(), hex(tail, 40).c_str(), ctx.c_str());
        return;
    }
    c.check(tail.size() == 128 && tail.compare(0, 3, "TAG") == 0, "id3v1", "%zu bytes after the audio data: %s; %s", tail.size(), hex(tail, 40).c_str(), ctx.c_str());
    c.check(tail.substr(3, 30) == mp3::v1(m.v1Title, "").substr(3, 30) && tail.substr(33, 30) == mp3::v1("", m.v1Artist).substr(33, 30), "id3v1", "ID3v1 tag holds '%s' '%s'; %s",
        tail.substr(3, 30).c_str(), tail.substr(33, 30).c_str(), ctx.c_str());
}
void verifyRead(Ctx &c, MediaFileInfo &f, Diagnostics &diag, const Model &m, std::size_t size, const Bytes &ctx)
{
    c.check(f.size() == size, "size", "size %llu reported instead of %zu; %s", (unsigned long long)f.size(), size, ctx.c_str());
    c.check(f.id3v2Tags().size() == m.v2.size(), "read", "%zu ID3v2 tags read instead of %zu; %s; %s", f.id3v2Tags().size(), m.v2.size(), ctx.c_str(), diagText(diag).c_str());
    for (std::size_t i = 0; i < m.v2.size(); ++i) {
        const auto &t = *f.id3v2Tags()[i];
        c.check(t.majorVersion() == m.v2[i].version && valueUtf8(t.value(KnownField::Title)) == m.v2[i].title && valueUtf8(t.value(KnownField::Artist)) == m.v2[i].artist, "read",
            "tag %zu read as 2.%d '%s' '%s'; %s", i, t.majorVersion(), valueUtf8(t.value(KnownField::Title)).c_str(), valueUtf8(t.value(KnownField::Artist)).c_str(), ctx.c_str());
    }
    c.check(f.hasId3v1Tag() == m.hasV1, "read", "ID3v1 tag %sread; %s", m.hasV1 ? "not " : "", ctx.c_str());
    if (m.hasV1)
        c.check(valueUtf8(f.id3v1Tag()->value(KnownField::Title)) == m.v1Title, "read", "ID3v1 title; %s", ctx.c_str());
}
} // namespace

VT_SUITE(mp3, 11 * std::size(edits))
{
    const auto path = c.file("a.mp3"), other = c.file("b.mp3");
    vt::removeAllIn(c.scratch());
    auto init = makeInit(c, c.top / std::size(edits));
    const Bytes orig = init.head + init.audio + init.tail;
    vt::writeFile(path, orig);
    static const Layout layouts[] = { { 0, 0, 0, false }, { 0, 1000, 77, false }, { 10, 30, 15, false }, { 0, ~std::size_t(0), 0, true }, { 5, 200, 0, true } };
    Layout l = c.pick(layouts, "layout");
    l.saveAs = c.flip("save as");
    Model m = init.model;
    const auto second = c.choose(1 + (vt::thorough() ? 2 : 1) * std::size(edits), "second edit");
    const bool reopen = second > std::size(edits);
    Bytes ctx = fmt("edits '%s' %s; ", edits[c.top % std::size(edits)].name, second ? edits[(second - 1) % std::size(edits)].name : "") + ref::str(l);
    auto s = std::make_unique<Session>(path);
    Bytes cur = orig, curPath = path;
    for (int step = 0; step < (second ? 2 : 1); ++step) {
        const bool saveAs = l.saveAs && !step;
        if (step && reopen)
            s = std::make_unique<Session>(curPath);
        s->diag.clear();
        s->parse();
        verifyRead(c, s->file, s->diag, m, cur.size(), ctx + fmt(" before step %d", step));
        applyLayout(s->file, l);
        if (saveAs)
            s->file.setSaveFilePath(other);
        edits[step ? (second - 1) % std::size(edits) : c.top % std::size(edits)].apply(s->file, m);
        Bytes what;
        c.check(save(c, *s, &what), "exception", "saving failed: %s; %s; %s", what.c_str(), ctx.c_str(), diagText(s->diag).c_str());
        c.check(!hasLevel(s->diag, DiagLevel::Critical), "diag", "%s; %s", diagText(s->diag).c_str(), ctx.c_str());
        if (saveAs && vt::fileExists(other)) {
            c.check(vt::readFile(path) == cur, "save-as", "the original file has been altered; %s", ctx.c_str());
            curPath = other;
        }
        c.check(s->file.path() == curPath, "path", "path is '%s'; %s", s->file.path().c_str(), ctx.c_str());
        const auto before = cur;
        cur = vt::readFile(curPath);
        c.state(vt::hashStr(cur));
        verify(c, cur, init.audio, m, c.top / std::size(edits) == 7 ? 64 : 0, ctx + fmt(" after step %d", step));
        for (auto &f : vt::listDir(c.scratch()))
            c.check(f == "a.mp3" || f == "b.mp3" || f.find(".bak") != Bytes::npos, "files", "unexpected file %s", f.c_str());
        if (vt::fileExists(curPath + ".bak") && !step)
            c.check(vt::readFile(curPath + ".bak") == before, "backup", "backup differs from the original file; %s", ctx.c_str());
    }
    s->diag.clear();
    s->parse();
    verifyRead(c, s->file, s->diag, m, cur.size(), ctx + " finally");
    Session again(curPath);
    again.parse(true);
    verifyRead(c, again.file, again.diag, m, cur.size(), ctx + " finally, re-opened");
}

// files which are not recognised at all but treated as MP3 files: the content must stay as it is, too
VT_SUITE(unknown, 12)
{
    static const std::size_t sizes[] = { 1, 15, 16, 17, 100, 128, 300, 0x7FF, 0x800, 0x810, 0x900, 5000 };
    const auto path = c.file("a.bin");
    vt::removeAllIn(c.scratch());
    Bytes content = filler(sizes[c.top], 5);
    for (auto &ch : content)
        ch = static_cast<char>('a' + static_cast<unsigned char>(ch) % 20);
    const auto kind = c.choose(3, "content");
    if (kind == 1 && content.size() > 4)
        content = Bytes(content.size() / 2, '\0') + content.substr(content.size() / 2);
    else if (kind == 2 && content.size() > 40)
        content.replace(20, 3, Bytes(3, '\0'));
    Init init;
    const auto tags = c.choose(3, "existing ID3v2 tags");
    if (tags) {
        init.head = mp3::tag(3, mp3::textFrame(3, "TT2", "TIT2", "t") + mp3::textFrame(3, "TP1", "TPE1", "artist"), tags == 1 ? 0 : 20);
        init.model.v2.push_back({ 3, "t", "artist", false });
    }
    if (c.flip("existing ID3v1")) {
        init.tail = mp3::v1("v1", "artist1");
        init.model.hasV1 = true;
        init.model.v1Title = "v1";
        init.model.v1Artist = "artist1";
    }
    const Bytes orig = init.head + content + init.tail;
    if (kind == 1 && tags) // zero bytes after a tag count as padding
        c.skip();
    vt::writeFile(path, orig);
    static const Layout layouts[] = { { 0, 0, 0, false }, { 0, 1000, 77, false }, { 0, ~std::size_t(0), 0, true } };
    const Layout l = c.pick(layouts, "layout");
    const auto usage = c.choose(3, "tags");
    Session s(path);
    s.parse();
    if (s.file.containerFormat() != ContainerFormat::Unknown)
        c.skip();
    applyLayout(s.file, l);
    TagCreationSettings ts;
    ts.flags = TagCreationFlags::TreatUnknownFilesAsMp3Files | TagCreationFlags::KeepExistingId3v2Version;
    ts.id3v1usage = usage == 1 ? TagUsage::Always : TagUsage::KeepExisting;
    ts.id3v2usage = usage == 2 ? TagUsage::KeepExisting : TagUsage::Always;
    c.check(s.file.createAppropriateTags(ts), "create", "tags not created");
    Model m = init.model;
    if (usage != 2 && m.v2.empty())
        m.v2.push_back({ 3, "", "", false });
    if (usage == 1)
        m.hasV1 = true;
    if (!m.v2.empty())
        setV2Title(s.file, m, "new");
    if (usage == 1) {
        m.v1Title = "n1";
        s.file.id3v1Tag()->setValue(KnownField::Title, text("n1", TagTextEncoding::Latin1));
    }
    Bytes what;
    const auto ctx = fmt("%zu bytes of kind %zu, tags %zu, usage %zu, ", content.size(), kind, tags, usage) + ref::str(l);
    c.check(save(c, s, &what), "exception", "saving failed: %s; %s", what.c_str(), ctx.c_str());
    const auto b = vt::readFile(path);
    c.state(vt::hashStr(b));
    // leading zero bytes may be dropped
    Bytes want = content;
    if (kind == 1 && !m.v2.empty())
        while (!want.empty() && !want[0])
            want.erase(0, 1);
    std::vector<mp3::V2> got;
    Bytes rest = b.substr(mp3::parse(c, b, got));
    if (kind == 1 && !m.v2.empty())
        while (!rest.empty() && !rest[0])
            rest.erase(0, 1);
    if (!m.hasV1)
        c.check(rest == want, "content", "content has been altered (%zu bytes after the tags instead of %zu); %s", rest.size(), want.size(), ctx.c_str());
    else
        c.check(rest.size() == want.size() + 128 && rest.substr(0, want.size()) == want && rest.compare(want.size(), 3, "TAG") == 0, "content",
            "content has been altered (%zu bytes after the tags instead of %zu); %s", rest.size(), want.size() + 128, ctx.c_str());
}
