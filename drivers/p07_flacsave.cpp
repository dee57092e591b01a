// P07: saving a FLAC file preserves audio frames and all other metadata blocks.
#include "flac.h"
#include "mp3.h"
#include "save.h"

#include <tagparser/flac/flacstream.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/vorbis/vorbiscommentfield.h>

using namespace ref;

const char *vt::property = "P07";
const char *vt::rule = "every sequence of up to three (thorough: four) metadata blocks after STREAMINFO from an alphabet of all block types x leading ID3v2/trailing ID3v1 x padding preferences x "
                       "rewriting mode x every sequence of one or two edits; the saved bytes are decoded by an independent FLAC decoder; states = distinct saved files";
const char *vt::assumptions = "all comment blocks of a file are read as one comment|picture dimensions are not preserved by the library (documented)|removing the comment removes its pictures";

namespace {
struct Model {
    bool hasComment = false;
    vorbis::Entries entries;
    std::vector<vorbis::Picture> pictures;
    int v2 = 0; // major version of the ID3v2 tag
    Bytes v2Title;
    bool v1 = false;
    std::vector<flac::Block> others;
};
vorbis::Picture pic(unsigned i)
{
    vorbis::Picture p;
    p.type = 3 + i;
    p.mime = i ? "image/png" : "image/jpeg";
    p.desc = i ? "" : "front";
    p.data = filler(40 + i * 7, 60 + i);
    return p;
}
struct Edit {
    const char *name;
    std::function<void(MediaFileInfo &, Model &)> apply;
};
void setEntry(Model &m, const Bytes &k, const Bytes &v)
{
    m.hasComment = true;
    m.entries.erase(std::remove_if(m.entries.begin(), m.entries.end(), [&](auto &e) { return e.first == k; }), m.entries.end());
    m.entries.emplace_back(k, v);
}
void title(MediaFileInfo &f, Model &m, const Bytes &v)
{
    f.createVorbisComment()->setValue(KnownField::Title, text(v));
    setEntry(m, "TITLE", v);
}
TagValue coverValue(const vorbis::Picture &p)
{
    TagValue v(p.data.data(), p.data.size(), TagDataType::Picture);
    v.setMimeType(p.mime);
    v.setDescription(p.desc, TagTextEncoding::Utf8);
    return v;
}
const Edit edits[] = {
    { "none", [](MediaFileInfo &, Model &) {} },
    { "short title", [](MediaFileInfo &f, Model &m) { title(f, m, "s"); } },
    { "long title", [](MediaFileInfo &f, Model &m) { title(f, m, Bytes(120, 'L')); } },
    { "title of 9 bytes", [](MediaFileInfo &f, Model &m) { title(f, m, "new title"); } },
    { "remove comment",
        [](MediaFileInfo &f, Model &m) {
            f.removeVorbisComment();
            m.hasComment = false;
            m.entries.clear();
            m.pictures.clear();
        } },
    { "set cover",
        [](MediaFileInfo &f, Model &m) {
            auto *t = f.createVorbisComment();
            m.hasComment = true;
            t->fields().erase("METADATA_BLOCK_PICTURE");
            VorbisCommentField field("METADATA_BLOCK_PICTURE", coverValue(pic(1)));
            field.setTypeInfo(4);
            t->fields().emplace("METADATA_BLOCK_PICTURE", std::move(field));
            m.pictures = { pic(1) };
        } },
    { "add cover",
        [](MediaFileInfo &f, Model &m) {
            auto *t = f.createVorbisComment();
            m.hasComment = true;
            VorbisCommentField field("METADATA_BLOCK_PICTURE", coverValue(pic(2)));
            field.setTypeInfo(5);
            t->fields().emplace("METADATA_BLOCK_PICTURE", std::move(field));
            m.pictures.push_back(pic(2));
        } },
    { "remove covers",
        [](MediaFileInfo &f, Model &m) {
            if (!m.hasComment)
                return;
            f.createVorbisComment()->fields().erase("METADATA_BLOCK_PICTURE");
            m.pictures.clear();
        } },
    { "create ID3v2",
        [](MediaFileInfo &f, Model &m) {
            auto *t = f.createId3v2Tag();
            t->setValue(KnownField::Title, text("id3", TagTextEncoding::Latin1));
            m.v2 = t->majorVersion();
            m.v2Title = "id3";
        } },
    { "remove ID3v2",
        [](MediaFileInfo &f, Model &m) {
            f.removeAllId3v2Tags();
            m.v2 = 0;
        } },
    { "toggle ID3v1",
        [](MediaFileInfo &f, Model &m) {
            if ((m.v1 = !m.v1))
                f.createId3v1Tag()->setValue(KnownField::Title, text("one", TagTextEncoding::Latin1));
            else
                f.removeId3v1Tag();
        } },
};
constexpr std::size_t nEdits = std::size(edits);
// block alphabet; 0 ends the sequence
constexpr std::size_t nKinds = 12;
flac::Block kind(std::size_t k, Model &m, std::size_t pos)
{
    flac::Block b;
    switch (k) {
    case 1:
        b = { flac::Application, "abcd" + filler(20, 3 + pos) };
        break;
    case 2:
        b = { flac::SeekTable, filler(36, 5 + pos) };
        break;
    case 3:
        b = { flac::CueSheet, filler(60, 6 + pos) };
        break;
    case 4:
        b = { 60, filler(9, 7 + pos) };
        break;
    case 5:
        b = { flac::Application, "" };
        break;
    case 6: { // comment
        const vorbis::Entries e{ { "TITLE", "old" }, { "ARTIST", "someone" } };
        for (auto &x : e)
            m.entries.push_back(x);
        m.hasComment = true;
        return { flac::Comment, vorbis::comment("vendor", e) };
    }
    case 7: // empty comment
        m.hasComment = true;
        return { flac::Comment, vorbis::comment("", {}) };
    case 8:
        m.pictures.push_back(pic(static_cast<unsigned>(pos)));
        m.hasComment = true;
        return { flac::Picture, vorbis::encode(pic(static_cast<unsigned>(pos))) };
    case 9:
        return { flac::Padding, "" };
    case 10:
        return { flac::Padding, Bytes(20, '\0') };
    case 11:
        return { flac::Padding, Bytes(300, '\0') };
    }
    m.others.push_back(b);
    return b;
}
Bytes describe(const std::vector<flac::Block> &bs)
{
    Bytes r;
    for (auto &b : bs)
        r += fmt("%d(%zu) ", b.type, b.data.size());
    return r;
}
vorbis::Entries sorted(vorbis::Entries e)
{
    std::stable_sort(e.begin(), e.end(), [](auto &a, auto &b) { return a.first < b.first; });
    return e;
}
Bytes str(const vorbis::Entries &e)
{
    Bytes r;
    for (auto &[k, v] : e)
        r += k + "=" + quote(v, 20) + " ";
    return r;
}
void verify(Ctx &c, const Bytes &b, const Bytes &audio, const Model &m, const Bytes &ctx)
{
    std::vector<mp3::V2> tags;
    const auto off = mp3::parse(c, b, tags);
    c.check(tags.size() == std::size_t(m.v2 != 0), "id3v2", "%zu ID3v2 tags; %s", tags.size(), ctx.c_str());
    if (m.v2)
        c.check(tags[0].version == m.v2 && tags[0].title() == m.v2Title, "id3v2", "title '%s' in ID3v2 tag; %s", tags[0].title().c_str(), ctx.c_str());
    std::vector<flac::Block> bs, others;
    const auto start = flac::parse(c, b, off, bs);
    std::size_t comments = 0;
    std::vector<vorbis::Picture> pics;
    for (auto &k : bs)
        switch (k.type) {
        case flac::Padding:
            c.check(k.data.find_first_not_of('\0') == Bytes::npos, "padding", "padding is not zero; %s", ctx.c_str());
            c.check(&k == &bs.back(), "padding", "padding is not the last block: %s; %s", describe(bs).c_str(), ctx.c_str());
            break;
        case flac::Comment: {
            ++comments;
            c.check(m.hasComment && comments == 1, "comment", "unexpected comment block: %s; %s", describe(bs).c_str(), ctx.c_str());
            const auto [vendor, e] = vorbis::decode(c, k.data);
            c.check(e == sorted(m.entries), "comment", "comment holds %s instead of %s; %s", str(e).c_str(), str(sorted(m.entries)).c_str(), ctx.c_str());
            break;
        }
        case flac::Picture:
            pics.push_back(vorbis::decodePicture(c, k.data));
            break;
        default:
            others.push_back(k);
        }
    c.check(comments == std::size_t(m.hasComment), "comment", "comment block missing: %s; %s", describe(bs).c_str(), ctx.c_str());
    c.check(pics == m.pictures, "pictures", "%zu pictures instead of %zu (or different ones); %s", pics.size(), m.pictures.size(), ctx.c_str());
    c.check(!bs.empty() && bs[0].type == flac::StreamInfo, "blocks", "first block is not STREAMINFO: %s; %s", describe(bs).c_str(), ctx.c_str());
    c.check(others.size() == m.others.size(), "blocks", "blocks are %sinstead of %s; %s", describe(others).c_str(), describe(m.others).c_str(), ctx.c_str());
    for (std::size_t i = 0; i < others.size(); ++i)
        c.check(others[i].type == m.others[i].type && others[i].data == m.others[i].data, "blocks", "block %zu altered: %s: %s instead of %s; %s", i, describe(others).c_str(),
            hex(others[i].data, 40).c_str(), hex(m.others[i].data, 40).c_str(), ctx.c_str());
    const auto rest = b.substr(start);
    c.check(rest.compare(0, audio.size(), audio) == 0, "audio", "audio differs at %zu of %zu bytes (%zu bytes present); blocks: %s; %s", firstDiff(rest, audio), audio.size(), rest.size(),
        describe(bs).c_str(), ctx.c_str());
    c.check(rest.size() == audio.size() + (m.v1 ? 128 : 0) && (!m.v1 || rest.compare(audio.size(), 3, "TAG") == 0), "tail", "%zu bytes instead of %zu after the metadata; %s", rest.size(),
        audio.size() + (m.v1 ? 128 : 0), ctx.c_str());
}
void verifyRead(Ctx &c, Session &s, const Model &m, const Bytes &ctx)
{
    auto *t = s.file.vorbisComment();
    c.check((t != nullptr) == m.hasComment, "read", "comment %sread; %s; %s", t ? "" : "not ", ctx.c_str(), diagText(s.diag).c_str());
    c.check(s.file.tracks().size() == 1 && s.file.tracks()[0]->samplingFrequency() == 44100 && s.file.tracks()[0]->channelCount() == 2, "read", "track; %s", ctx.c_str());
    c.check(s.file.hasId3v2Tag() == (m.v2 != 0) && s.file.hasId3v1Tag() == m.v1, "read", "ID3 tags; %s", ctx.c_str());
    if (m.v2)
        c.check(valueUtf8(s.file.id3v2Tags()[0]->value(KnownField::Title)) == m.v2Title, "read", "ID3v2 title; %s", ctx.c_str());
    if (!t)
        return;
    vorbis::Entries e;
    std::vector<vorbis::Picture> pics;
    for (auto &[id, f] : t->fields())
        if (id == "METADATA_BLOCK_PICTURE") {
            vorbis::Picture p;
            p.type = f.typeInfo();
            p.mime = f.value().mimeType();
            p.desc = f.value().description();
            p.data = Bytes(f.value().dataPointer(), f.value().dataSize());
            pics.push_back(p);
        } else
            e.emplace_back(id, valueUtf8(f.value()));
    c.check(sorted(e) == sorted(m.entries), "read", "read %s instead of %s; %s", str(e).c_str(), str(m.entries).c_str(), ctx.c_str());
    c.check(pics == m.pictures, "read", "%zu pictures read instead of %zu (or different ones); %s", pics.size(), m.pictures.size(), ctx.c_str());
}
void run(Ctx &c, const std::vector<std::size_t> &kinds, int id3, const Layout &l, std::size_t first, std::size_t second)
{
    const auto path = c.file("a.flac"), other = c.file("b.flac");
    vt::removeAllIn(c.scratch());
    Model m;
    std::vector<flac::Block> bs{ { flac::StreamInfo, flac::streamInfo() } };
    m.others.push_back(bs[0]);
    for (std::size_t i = 0; i < kinds.size(); ++i)
        bs.push_back(kind(kinds[i], m, i));
    Bytes head, tail;
    if (id3 & 1) {
        head = mp3::tag(3, mp3::textFrame(3, "TT2", "TIT2", "id3 title"), (id3 & 4) ? 40 : 0);
        m.v2 = 3;
        m.v2Title = "id3 title";
    }
    if (id3 & 2) {
        tail = mp3::v1("v1", "x");
        m.v1 = true;
    }
    const Bytes audio = flac::frames(500);
    Bytes cur = head + flac::blocks(bs) + audio + tail, curPath = path;
    vt::writeFile(path, cur);
    const auto ctx = fmt("blocks %s id3 %d edits '%s' '%s' ", describe(bs).c_str(), id3, edits[first].name, second ? edits[(second - 1) % nEdits].name : "") + ref::str(l);
    auto s = std::make_unique<Session>(path);
    for (int step = 0; step < (second ? 2 : 1); ++step) {
        if (step && second > nEdits)
            s = std::make_unique<Session>(curPath);
        s->diag.clear();
        s->parse();
        verifyRead(c, *s, m, ctx + fmt(" before step %d", step));
        applyLayout(s->file, l);
        if (l.saveAs && !step)
            s->file.setSaveFilePath(other);
        edits[step ? (second - 1) % nEdits : first].apply(s->file, m);
        Bytes what;
        c.check(save(c, *s, &what), "exception", "saving failed: %s; %s; %s", what.c_str(), ctx.c_str(), diagText(s->diag).c_str());
        c.check(!hasLevel(s->diag, DiagLevel::Critical), "diag", "%s; %s", diagText(s->diag).c_str(), ctx.c_str());
        if (l.saveAs && !step) {
            c.check(vt::readFile(path) == cur, "save-as", "the original file has been altered; %s", ctx.c_str());
            curPath = other;
        }
        cur = vt::readFile(curPath);
        c.state(vt::hashStr(cur));
        verify(c, cur, audio, m, ctx + fmt(" after step %d", step));
    }
    Session again(curPath);
    again.parse(true);
    verifyRead(c, again, m, ctx + " finally");
}
const Layout layouts[] = { { 0, 0, 0, false }, { 0, 1000, 77, false }, { 10, 40, 20, false }, { 0, 1000, 0, true }, { 0, ~std::size_t(0), 2, false } };
} // namespace

// all block sequences x single edits
VT_SUITE(sequences, nKinds * nEdits)
{
    std::vector<std::size_t> kinds;
    if (c.top / nEdits)
        kinds.push_back(c.top / nEdits);
    for (std::size_t i = 1; i < (vt::thorough() ? 4 : 3) && kinds.size() == i; ++i)
        if (const auto k = c.choose(nKinds, "block"))
            kinds.push_back(k);
    for (std::size_t i = 0, pic = 0, com = 0; i < kinds.size(); ++i) {
        com += kinds[i] == 6;
        if (com > 1)
            c.skip();
        (void)pic;
    }
    static const int id3s[] = { 0, 1, 2, 7 };
    const auto id3 = c.pick(id3s, "ID3");
    Layout l = c.pick(layouts, "layout");
    run(c, kinds, id3, l, c.top % nEdits, 0);
}
// two successive edits on representative arrangements
VT_SUITE(histories, nEdits *nEdits)
{
    static const std::vector<std::size_t> arr[] = { {}, { 2 }, { 6 }, { 6, 8, 8, 10 }, { 1, 6, 3, 8, 4, 11 }, { 8, 7, 2 }, { 9 }, { 10, 6 } };
    const auto kinds = c.pick(arr, "blocks");
    static const int id3s[] = { 0, 1, 7 };
    const auto id3 = c.pick(id3s, "ID3");
    Layout l = c.pick(layouts, "layout");
    l.saveAs = c.flip("save as");
    run(c, kinds, id3, l, c.top / nEdits, 1 + c.top % nEdits + (c.flip("re-open") ? nEdits : 0));
}
// pictures and comments around the limits of a block (24-bit size): either written intact or refused without damage
VT_SUITE(limits, 6)
{
    static const std::size_t sizes[] = { 0xFFFF, 0x10000, 0xFFFFFF - 32 - 10, 0xFFFFFF - 32 - 9, 0x1000000, 0x1000005 };
    const auto n = sizes[c.top];
    const auto what = c.choose(2, "picture or text");
    const auto more = c.flip("further picture");
    const auto path = c.file("a.flac");
    vt::removeAllIn(c.scratch());
    std::vector<flac::Block> bs{ { flac::StreamInfo, flac::streamInfo() }, { flac::SeekTable, filler(36, 5) }, { flac::Comment, vorbis::comment("v", { { "TITLE", "t" } }) } };
    const Bytes audio = flac::frames(500);
    const Bytes orig = flac::blocks(bs) + audio;
    vt::writeFile(path, orig);
    Session s(path);
    s.parse();
    applyLayout(s.file, layouts[0]);
    auto *t = s.file.vorbisComment();
    const Bytes big(n, 'B');
    if (what == 0) {
        TagValue v(big.data(), big.size(), TagDataType::Picture);
        v.setMimeType("image/jpeg");
        t->setValue(KnownField::Cover, v);
    } else
        t->setValue(KnownField::Comment, text(big));
    if (more)
        t->fields().emplace("METADATA_BLOCK_PICTURE", VorbisCommentField("METADATA_BLOCK_PICTURE", coverValue(pic(1))));
    if (!save(c, s)) {
        c.check(vt::readFile(path) == orig, "limits", "the file has been altered by a save which has been refused");
        return;
    }
    const auto b = vt::readFile(path);
    std::vector<flac::Block> got;
    const auto start = flac::parse(c, b, 0, got);
    c.check(b.substr(start) == audio, "audio", "audio altered; blocks: %s; %s", describe(got).c_str(), diagText(s.diag).c_str());
    c.check(got.size() >= 3 && got[0].data == bs[0].data && got[1].data == bs[1].data, "blocks", "blocks altered: %s", describe(got).c_str());
    bool found = false;
    std::size_t pics = 0;
    for (auto &k : got) {
        if (k.type == flac::Picture) {
            const auto p = vorbis::decodePicture(c, k.data);
            found = found || p.data == big;
            pics += p.data == pic(1).data;
        } else if (k.type == flac::Comment)
            for (auto &e : vorbis::decode(c, k.data).second)
                found = found || e.second == big;
    }
    c.check(found || hasLevel(s.diag, DiagLevel::Critical), "limits", "value of %zu bytes lost silently", n);
    c.check(found || n + 42 > 0xFFFFFF, "limits", "value of %zu bytes lost", n);
    c.check(pics == std::size_t(more), "limits", "further picture lost");
}
