// P12: Saving is idempotent and edits are independent of history.
#include "content.h"

using namespace ref;
using namespace TagParser;

const char *vt::property = "P12";
const char *vt::rule = "idempotence: every format x variant x layout preference, saved repeatedly without changes; history: all sequences of edits (titles of different lengths, adding and removing a field, "
                       "removing and creating all tags, nothing) with every way of saving up to the stated depth, by the same or a new MediaFileInfo object, compared with applying the resulting edit directly to "
                       "the original; states = distinct (format, history, result)";
const char *vt::assumptions = "the fields of a tag are read and written by the same code in both histories; that they are written correctly is subject of P01-P05";

namespace {
const char *const edits[] = { "none", "short title", "long title", "very long title", "set comment", "remove comment", "remove all tags", "add artist" };
struct State {
    bool removed = false, tagged = true, titleSet = false, commentSet = false, commentRemoved = false, artist = false;
    Bytes title, comment;
};
void apply(State &s, std::size_t edit)
{
    switch (edit) {
    case 0: return;
    case 6: s = State(); s.removed = true; s.tagged = false; return;
    case 1: s.title = "T"; break;
    case 2: s.title = Bytes(200, 'L'); break;
    case 3: s.title = Bytes(2500, 'V'); break;
    case 4: s.comment = Bytes(40, 'c'); s.commentSet = true; s.commentRemoved = false; break;
    case 5: s.commentRemoved = true; s.commentSet = false; break;
    case 7: s.artist = true; break;
    }
    if (edit <= 3)
        s.titleSet = true;
    s.tagged = true;
}
void set(MediaFileInfo &f, KnownField field, const Bytes &v)
{
    for (auto *t : f.tags())
        if (t->supportsField(field))
            t->setValue(field, v.empty() ? TagValue() : text(v, t->type() == TagType::Id3v1Tag ? TagTextEncoding::Latin1 : TagTextEncoding::Utf8));
}
void apply(MediaFileInfo &f, std::size_t edit, const State &s)
{
    if (!edit)
        return;
    if (edit == 6)
        return f.removeAllTags();
    f.createAppropriateTags();
    if (edit <= 3)
        set(f, KnownField::Title, s.title);
    else if (edit == 4)
        set(f, KnownField::Comment, s.comment);
    else if (edit == 5)
        set(f, KnownField::Comment, Bytes());
    else
        set(f, KnownField::Artist, "another artist");
}
void applyDirectly(MediaFileInfo &f, const State &s)
{
    if (s.removed)
        f.removeAllTags();
    if (!s.tagged)
        return;
    if (s.removed || s.titleSet || s.commentSet || s.artist)
        f.createAppropriateTags();
    if (s.titleSet)
        set(f, KnownField::Title, s.title);
    if (s.commentSet)
        set(f, KnownField::Comment, s.comment);
    else if (s.commentRemoved)
        set(f, KnownField::Comment, Bytes());
    if (s.artist)
        set(f, KnownField::Artist, "another artist");
}
std::vector<Layout> ways(bool all)
{
    std::vector<Layout> r;
    const auto add = [&](std::size_t min, std::size_t max, std::size_t preferred, bool force, ElementPosition tag, bool forceTag, ElementPosition index, bool forceIndex) {
        Layout l;
        l.min = min;
        l.max = max;
        l.preferred = preferred;
        l.force = force;
        l.tag = tag;
        l.forceTag = forceTag;
        l.index = index;
        l.forceIndex = forceIndex;
        r.push_back(l);
    };
    using P = ElementPosition;
    add(0, 0x10000, 0, false, P::Keep, false, P::Keep, false);
    add(0, 0, 600, true, P::Keep, false, P::Keep, false);
    add(0, 0, 0, false, P::AfterData, true, P::AfterData, true);
    if (!all)
        return r;
    add(0, 0, 0, false, P::BeforeData, true, P::BeforeData, true);
    add(10, 1000, 64, false, P::BeforeData, false, P::AfterData, true);
    add(0, 0x10000, 300, true, P::AfterData, false, P::Keep, false);
    add(0, 0x10000, 0, false, P::AfterData, false, P::BeforeData, false);
    add(0, 0, 0, true, P::Keep, false, P::Keep, false);
    return r;
}
void saveOrFail(Ctx &c, Session &s, const Layout &l, const char *when)
{
    applyLayout(s.file, l);
    Bytes what;
    if (!save(c, s, &what)) {
        Bytes all;
        for (auto &m : s.diag)
            if (m.level() >= DiagLevel::Critical)
                all += m.message() + " / ";
        c.fail("save", "%s: unable to save (%s): %s %s", when, str(l).c_str(), what.c_str(), all.c_str());
    }
}
} // namespace

VT_SUITE(idempotence, fmts::Count * 8)
{
    const auto id = static_cast<fmts::Id>(c.top / 8);
    const auto &f = fmts::formats[id];
    static const std::size_t paddings[] = { 0, 20, 100, 5000 };
    const auto original = f.make(2000, Bytes(c.top / 4 % 2 ? 300 : 5, 't'), paddings[c.top % 4]);
    static const auto all = ways(true);
    const auto &l = c.pickFrom(all, "layout");
    const bool reuse = c.flip("same object");
    const bool saveAs = c.flip("save as");
    const auto what = fmt("%s, %s", f.name, str(l).c_str());
    const auto before = fmts::content(c, id, original);
    auto path = c.file((Bytes("f") + f.ext).c_str());
    vt::writeFile(path, original);
    Bytes first;
    auto s = std::make_unique<Session>(path);
    for (int i = 0; i < (vt::thorough() ? 5 : 3); ++i) {
        if (i && !reuse)
            s = std::make_unique<Session>(path);
        try {
            s->parse();
        } catch (const std::exception &e) {
            c.fail("parse", "%s: unable to parse: %s", what.c_str(), e.what());
        }
        if (!i) // so that tags of all formats are written as the library does
            for (auto *t : s->file.tags())
                t->setValue(KnownField::Title, t->value(KnownField::Title));
        if (saveAs) {
            path = c.file((fmt("f%d", i) + f.ext).c_str());
            s->file.setSaveFilePath(path);
        }
        saveOrFail(c, *s, l, what.c_str());
        s->file.close();
        const auto now = vt::readFile(path);
        const auto after = fmts::content(c, id, now);
        c.check(after.vendors == before.vendors, "vendor", "%s: save %d: vendor has changed", what.c_str(), i + 1);
        c.check(after.rest == before.rest, "changed", "%s: save %d: content changed from %s to %s", what.c_str(), i + 1, before.rest.c_str(), after.rest.c_str());
        c.check(after.titles == before.titles, "titles", "%s: save %d: titles have changed", what.c_str(), i + 1);
        if (i == 0)
            first = now;
        else {
            c.check(now.size() == first.size(), "size", "%s: size after save %d is %zu but has been %zu before", what.c_str(), i + 1, now.size(), first.size());
            c.check(now == first, "not-idempotent", "%s: save %d changes the file", what.c_str(), i + 1);
        }
    }
    s.reset();
    vt::removeAllIn(c.scratch());
    c.state(vt::hashStr(what, first.size()));
}

VT_SUITE(history, fmts::Count * 3)
{
    const auto id = static_cast<fmts::Id>(c.top / 3);
    const auto variant = c.top % 3;
    const auto &f = fmts::formats[id];
    const auto original = f.make(1500, "title", variant == 0 ? 0 : 1000);
    const auto depth = variant == 2 ? 3u : 2u;
    static const auto few = ways(false), all = ways(true);
    static const std::vector<Layout> two = { few[0], few[2] };
    const auto &layouts = vt::thorough() ? variant == 2 ? few : all : variant == 2 ? two : few;
    auto path = c.file((Bytes("f") + f.ext).c_str());
    vt::writeFile(path, original);
    const bool reuse = c.flip("same object");
    const auto before = fmts::content(c, id, original);
    State state;
    Bytes history = f.name;
    auto s = std::make_unique<Session>(path);
    for (unsigned i = 0; i < depth; ++i) {
        if (i && !reuse)
            s = std::make_unique<Session>(path);
        try {
            s->parse();
        } catch (const std::exception &e) {
            c.fail("parse", "%s: unable to parse: %s", history.c_str(), e.what());
        }
        const auto edit = c.choose(std::size(edits), "edit");
        if (depth == 3 && !edit)
            c.skip();
        const auto &l = c.pickFrom(layouts, "layout");
        apply(state, edit);
        apply(s->file, edit, state);
        history += fmt(" -> %s (%s)", edits[edit], str(l).c_str());
        saveOrFail(c, *s, l, history.c_str());
        c.log("%s", history.c_str());
    }
    s->file.close();
    const auto result = vt::readFile(path);
    const auto after = fmts::content(c, id, result);
    c.check(after.rest == before.rest, "changed", "%s: content changed from %s to %s", history.c_str(), before.rest.c_str(), after.rest.c_str());
    // apply directly
    const auto direct = c.file((Bytes("d") + f.ext).c_str());
    vt::writeFile(direct, original);
    Session d(direct);
    d.parse();
    applyDirectly(d.file, state);
    saveOrFail(c, d, few[1], "direct");
    d.file.close();
    const auto expected = fmts::content(c, id, vt::readFile(direct));
    vt::removeAllIn(c.scratch());
    c.check(after.tags == expected.tags, "history", "%s: tags are %s but applying the edit directly leads to %s", history.c_str(), quote(after.tags).c_str(), quote(expected.tags).c_str());
    c.check(state.removed || after.vendors == expected.vendors, "vendor", "%s: vendor is %s but applying the edit directly leads to %s", history.c_str(), quote(after.vendors).c_str(), quote(expected.vendors).c_str());
    for (auto &t : after.titles)
        c.check(!state.titleSet || t == state.title || t == state.title.substr(0, 30), "title", "%s: title is %s", history.c_str(), quote(t).c_str());
    c.state(vt::hashStr(history, after.padding));
}
