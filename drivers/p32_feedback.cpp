// P32: Diagnostics, progress/abortion, languages, tag targets and dimensions are aggregated and compared consistently.
// Bounded-exhaustive: all lists/sequences of operations up to the stated length on the real objects vs. a reference model.
#include "common.h"

#include <tagparser/localehelper.h>
#include <tagparser/margin.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/size.h>
#include <tagparser/tagtarget.h>

#include <optional>

using namespace ref;
using namespace TagParser;

const char *vt::property = "P32";
const char *vt::rule = "all lists of messages, languages and values, all pairs of tag targets and sizes and all sequences of operations on progress objects (with callbacks which may abort the operation) up to the "
                       "stated length vs. a reference model; states = distinct states of the model";
const char *vt::assumptions = "the level 'fatal' has no name (not used)|an undefined language of the preferred format may be returned as such or be considered absent|the exact wording of toString() is not judged, only "
                              "which parts it contains and in which order";

namespace {
const DiagLevel levels[] = { DiagLevel::None, DiagLevel::Debug, DiagLevel::Information, DiagLevel::Warning, DiagLevel::Critical, DiagLevel::Fatal };
const char *const levelNames[] = { "", "debug", "information", "warning", "critical" };
} // namespace

VT_SUITE(diagnostics, 7)
{
    // all lists of up to 5 messages
    const auto max = vt::thorough() ? 6u : 5u;
    Diagnostics diag;
    std::size_t worst = 0;
    std::vector<std::size_t> list;
    auto next = c.top;
    while (next && list.size() < max) {
        const auto l = next - 1;
        const std::string message = fmt("message %zu", list.size()), context = fmt("context %zu", l);
        switch (list.size() % 4) {
        case 0:
            diag.emplace_back(levels[l], message, context);
            break;
        case 1:
            diag.emplace_back(levels[l], std::string(message), context);
            break;
        case 2:
            diag.emplace_back(levels[l], message, std::string(context));
            break;
        default:
            diag.emplace_back(levels[l], std::string(message), std::string(context));
        }
        list.push_back(l);
        worst = std::max(worst, l);
        if (list.size() < max)
            next = c.choose(7, "next level");
    }
    c.check(diag.level() == levels[worst], "level", "level() is %d instead of %zu", (int)diag.level(), worst);
    for (std::size_t l = 0; l < 6; ++l)
        c.check(diag.has(levels[l]) == (!list.empty() && worst >= l), "has", "has(%zu) is %d but worst level is %zu", l, diag.has(levels[l]), worst);
    auto aggregated = DiagLevel::None;
    for (std::size_t i = 0; i < list.size(); ++i) {
        const auto &m = diag[i];
        const auto before = static_cast<std::size_t>(aggregated);
        c.check(&(aggregated |= m.level()) == &aggregated && static_cast<std::size_t>(aggregated) == std::max(before, list[i]), "or", "combining levels %zu and %zu gives %d", before, list[i],
            (int)aggregated);
        c.check(m.level() == levels[list[i]] && m.message() == fmt("message %zu", i) && m.context() == fmt("context %zu", list[i]), "message", "message %zu not preserved", i);
        if (list[i] < 5)
            c.check(m.levelName() == levelNames[list[i]] && diagLevelName(levels[list[i]]) == levelNames[list[i]], "levelName", "name of level %zu is %s", list[i], Bytes(m.levelName()).c_str());
        for (std::size_t k = 0; k < list.size(); ++k)
            c.check((m == diag[k]) == (i == k), "equal", "messages %zu and %zu compare as %d", i, k, m == diag[k]);
        c.check(m == DiagMessage(levels[list[i]], m.message(), m.context()) && !(m == DiagMessage(levels[(list[i] + 1) % 6], m.message(), m.context()))
                && !(m == DiagMessage(m.level(), m.message() + "x", m.context())) && !(m == DiagMessage(m.level(), m.message(), "x")),
            "equal", "comparison does not consider level, message and context");
    }
    c.check(aggregated == diag.level(), "or", "combining all levels gives something else than level()");
    auto h = list.size();
    for (const auto l : list)
        h = vt::mix(h, l);
    c.state(h);
    c.step(list.size() + 8);
}

VT_SUITE(lists, 6)
{
    static const char *const values[] = { "", "a", "b,c", "d and e", "\"" };
    std::vector<std::string> list;
    std::string expected;
    for (std::size_t i = 0; i < c.top; ++i)
        list.emplace_back(c.pick(values, "value"));
    for (std::size_t i = 0; i < list.size(); ++i)
        expected += (!i ? "" : i + 1 == list.size() ? " and " : ", ") + ("\"" + list[i] + "\"");
    c.check(DiagMessage::formatList(list) == expected, "formatList", "list is formatted as %s instead of %s", quote(DiagMessage::formatList(list)).c_str(), quote(expected).c_str());
    c.step();
    c.state(vt::hashStr(expected));
}

namespace {
// a model of what the callbacks observe
struct Event {
    bool percentageOnly;
    std::string step;
    unsigned percentage, overall;
    bool operator==(const Event &o) const
    {
        return percentageOnly == o.percentageOnly && step == o.step && percentage == o.percentage && overall == o.overall;
    }
};
template <class Feedback, bool abortable> void progress(Ctx &c, std::size_t callbacks, std::size_t first)
{
    std::vector<Event> events, expected;
    const auto abortAt = abortable && callbacks ? c.choose(4, "abort from callback") : 0; // 0: never, n: when invoking the n-th callback
    const auto copyAt = c.choose(3, "copy"); // 0: never
    const auto note = [&](Feedback &f, bool only) {
        events.push_back({ only, f.step(), f.stepPercentage(), f.overallPercentage() });
        if constexpr (abortable)
            if (abortAt && events.size() == abortAt)
                f.tryToAbort();
    };
    typename Feedback::Callback a, b;
    if (callbacks & 1)
        a = [&](Feedback &f) { note(f, false); };
    if (callbacks & 2)
        b = [&](Feedback &f) { note(f, true); };
    std::optional<Feedback> storage, copy;
    if (callbacks & 4)
        storage.emplace(a, b);
    else
        storage.emplace(typename Feedback::Callback(a), typename Feedback::Callback(b));
    auto *f = &*storage;
    std::string step;
    unsigned percentage = 0, overall = 0;
    auto aborted = false;
    const auto notify = [&](bool only) {
        if (only && (callbacks & 2))
            expected.push_back({ true, step, percentage, overall });
        else if (callbacks & 1)
            expected.push_back({ false, step, percentage, overall });
        else
            return;
        if (abortAt && expected.size() == abortAt)
            aborted = true;
    };
    constexpr std::size_t ops = abortable ? 12 : 8;
    for (std::size_t n = 0, depth = vt::thorough() ? 5 : 4; n < depth; ++n) {
        const auto op = n ? c.choose(ops + 1, "operation") : first % ops;
        if (op == ops)
            break;
        if (copyAt && n == copyAt) {
            // go on with a copy; the original is not affected
            copy.emplace(*f);
            f = &*copy;
        }
        auto stopped = false, expectStop = false;
        const std::string name = fmt("step %zu", n);
        const auto value = static_cast<std::uint8_t>(10 * n + 1);
        try {
            switch (op) {
            case 0:
            case 1:
            case 2:
                step = name;
                percentage = op == 2 ? 0 : value;
                notify(false);
                if (op == 0)
                    f->updateStep(name, value);
                else if (op == 1)
                    f->updateStep(std::string(name), value);
                else
                    f->updateStep(name);
                break;
            case 3:
                percentage = value;
                notify(true);
                f->updateStepPercentage(value);
                break;
            case 4:
            case 5:
            case 6: {
                static constexpr double fractions[] = { 0.0, 0.5, 1.0 };
                percentage = op == 4 ? 0 : op == 5 ? 50 : 100;
                notify(true);
                f->updateStepPercentageFromFraction(fractions[op - 4]);
                break;
            }
            case 7:
                overall = value;
                notify(true);
                f->updateOverallPercentage(value);
                break;
            default:
                if constexpr (abortable) {
                    switch (op) {
                    case 8:
                    case 9:
                        expectStop = aborted;
                        if (!aborted) {
                            step = name;
                            percentage = value;
                            notify(false);
                        }
                        if (op == 8)
                            f->nextStepOrStop(name, value);
                        else
                            f->nextStepOrStop(std::string(name), value);
                        break;
                    case 10:
                        aborted = true;
                        f->tryToAbort();
                        break;
                    case 11:
                        expectStop = aborted;
                        f->stopIfAborted();
                        break;
                    }
                }
            }
        } catch (const OperationAbortedException &) {
            stopped = true;
        }
        c.log("operation %zu\n", op);
        c.check(stopped == expectStop, "stop", "operation %zu %s", op, stopped ? "stopped without being aborted" : "did not stop");
        c.check(f->step() == step && f->stepPercentage() == percentage && f->overallPercentage() == overall, "values", "values are %s/%u/%u instead of %s/%u/%u", f->step().c_str(), f->stepPercentage(),
            f->overallPercentage(), step.c_str(), percentage, overall);
        if constexpr (abortable)
            c.check(f->isAborted() == aborted, "isAborted", "isAborted() is %d", f->isAborted());
        c.check(events == expected, "callbacks", "%zu callbacks have been invoked, expected %zu (or with other values)", events.size(), expected.size());
        c.step();
        c.state(vt::mix(vt::mix(vt::hashStr(step), percentage), overall * 8 + aborted * 4 + (callbacks & 3)));
    }
}
} // namespace
VT_SUITE(progress, 8 * 20)
{
    const auto op = c.top / 8;
    if (op < 8)
        progress<ProgressFeedback, false>(c, c.top % 8, op);
    else
        progress<AbortableProgressFeedback, true>(c, c.top % 8, op - 8);
}

namespace {
const LocaleFormat formats[] = { LocaleFormat::Unknown, LocaleFormat::DomainCountry, LocaleFormat::ISO_639_1, LocaleFormat::ISO_639_2_T, LocaleFormat::ISO_639_2_B, LocaleFormat::BCP_47 };
struct Lang {
    const char *code, *name;
};
const Lang langs[] = { { "", "" }, { "und", "" }, { "XXX", "" }, { "eng", "English" }, { "ger", "German" }, { "de", "" } };
constexpr std::size_t nDetails = 36;
} // namespace
VT_SUITE(locales, nDetails + 1)
{
    Locale l;
    std::vector<std::pair<std::size_t, std::size_t>> d;
    auto next = c.top;
    const auto max = vt::thorough() ? 4u : 3u;
    while (next) {
        d.emplace_back((next - 1) / 6, (next - 1) % 6);
        l.emplace_back(std::string_view(langs[d.back().second].code), formats[d.back().first]);
        if (d.size() == max)
            break;
        next = c.choose(nDetails + 1, "next detail");
    }
    const auto defined = [&](std::size_t i) { return d[i].second >= 3; };
    std::string all, name;
    for (std::size_t i = 0; i < d.size(); ++i) {
        if (d[i].second)
            all += (all.empty() ? "" : ", ") + std::string(langs[d[i].second].code);
    }
    for (std::size_t i = 0; i < d.size(); ++i)
        if (d[i].first == 3 || d[i].first == 4) {
            name = langs[d[i].second].name;
            break;
        }
    c.check(l.toString() == all, "toString", "all details are %s instead of %s", quote(l.toString()).c_str(), quote(all).c_str());
    c.check(l.fullName() == name, "fullName", "full name is %s instead of %s", quote(l.fullName()).c_str(), quote(name).c_str());
    const auto firstOf = [&](std::size_t f) {
        for (std::size_t i = 0; i < d.size(); ++i)
            if (d[i].first == f && defined(i))
                return std::string(langs[d[i].second].code);
        return std::string();
    };
    for (std::size_t f = 0; f < 6; ++f) {
        const auto &a = l.abbreviatedName(formats[f]);
        c.check(a == firstOf(f) && (a.empty() || a.format == formats[f]), "abbreviatedName", "name of format %zu is %s instead of %s", f, quote(a).c_str(), quote(firstOf(f)).c_str());
        const auto other = (f + 2) % 6, third = (f + 3) % 6;
        const auto e = !firstOf(f).empty() ? firstOf(f) : !firstOf(other).empty() ? firstOf(other) : firstOf(third);
        c.check(l.abbreviatedName(formats[f], formats[other], formats[third]) == e, "abbreviatedName-more", "name of format %zu, %zu or %zu is not %s", f, other, third, quote(e).c_str());
        // preferred one, otherwise most relevant one
        auto preferred = -1, relevant = -1;
        for (std::size_t i = 0; i < d.size(); ++i) {
            if (!d[i].second)
                continue;
            if (d[i].first == f && preferred < 0)
                preferred = static_cast<int>(i);
            if (relevant < 0 || d[i].first >= d[relevant].first)
                relevant = static_cast<int>(i);
        }
        const auto &s = l.someAbbreviatedName(formats[f]);
        const auto undefinedPreferred = preferred >= 0 && !defined(preferred);
        const auto expected = preferred >= 0 ? std::string(langs[d[preferred].second].code) : relevant >= 0 && defined(relevant) ? std::string(langs[d[relevant].second].code) : std::string();
        c.check(s == expected || undefinedPreferred, "someAbbreviatedName", "some name preferring format %zu is %s instead of %s", f, quote(s).c_str(), quote(expected).c_str());
        if (f == 5) {
            c.check(l.someAbbreviatedName() == s, "someAbbreviatedName-default", "BCP 47 is not preferred by default");
            c.check(l.fullOrSomeAbbreviatedName() == (name.empty() ? std::string(s) : name), "fullOrSome", "name for display is %s", quote(l.fullOrSomeAbbreviatedName()).c_str());
        }
        c.step(3);
    }
    c.state(vt::hashStr(all + name));
}

VT_SUITE(targets, 3 * 32)
{
    using Ids = TagTarget::IdContainerType;
    static const std::uint64_t lv[] = { 0, 30, 50 };
    static const Ids ids[] = { {}, { 1 }, { 1, 2 } };
    struct T {
        std::uint64_t level;
        std::size_t id[4];
        bool name;
    };
    const auto make = [&](const T &t, bool setters) {
        TagTarget r;
        if (setters) {
            r.setLevel(t.level);
            r.tracks() = ids[t.id[0]];
            r.chapters() = ids[t.id[1]];
            r.editions() = ids[t.id[2]];
            r.attachments() = ids[t.id[3]];
        } else
            r = TagTarget(t.level, ids[t.id[0]], ids[t.id[1]], ids[t.id[2]], ids[t.id[3]]);
        if (t.name)
            r.setLevelName("name");
        return r;
    };
    T a{ lv[c.top % 3], { c.top / 3 & 1, c.top / 6 & 1, c.top / 12 & 1, c.top / 24 & 1 }, !!(c.top / 48) };
    for (auto &i : a.id) // at most one list of two IDs
        if (i && c.flip("two IDs")) {
            i = 2;
            break;
        }
    T b{ c.pick(lv, "level"), {}, c.flip("name") };
    for (auto &i : b.id)
        i = c.choose(vt::thorough() ? 3 : 2, "IDs");
    if (!vt::thorough() && c.flip("two IDs"))
        for (auto &i : b.id)
            i *= 2;
    const auto x = make(a, false), y = make(b, true);
    const auto level = [](const T &t) { return t.level ? t.level : 50; };
    const auto same = level(a) == level(b) && std::equal(a.id, a.id + 4, b.id);
    auto matches = !a.level || level(a) == level(b);
    for (int i = 0; i < 4; ++i)
        matches = matches && (!a.id[i] || a.id[i] == b.id[i]);
    c.check(x.level() == level(a) && x.levelName() == (a.name ? "name" : "") && x.tracks() == ids[a.id[0]] && x.chapters() == ids[a.id[1]] && x.editions() == ids[a.id[2]]
            && x.attachments() == ids[a.id[3]],
        "fields", "fields are not the assigned ones");
    c.check(x == make(a, true) && x.matches(make(a, true)), "reflexive", "target does not equal/match itself");
    c.check((x == y) == same && (y == x) == same, "equal", "targets %s and %s compare as %d", x.toString(TagTargetLevel::Unspecified).c_str(), y.toString(TagTargetLevel::Unspecified).c_str(), x == y);
    c.check(x.matches(y) == matches, "matches", "target %s matching %s is %d", x.toString(TagTargetLevel::Unspecified).c_str(), y.toString(TagTargetLevel::Unspecified).c_str(), x.matches(y));
    const auto empty = [](const T &t) { return !t.level && !t.name && !t.id[0] && !t.id[1] && !t.id[2] && !t.id[3]; };
    c.check(x.isEmpty() == empty(a) && y.isEmpty() == empty(b), "isEmpty", "isEmpty() is wrong");
    auto z = make(b, false);
    z.clear();
    c.check(z.isEmpty() && z == TagTarget() && z.levelName().empty(), "clear", "clear() does not clear");
    if (empty(a))
        c.check(x.matches(y), "any", "empty target does not match any");
    // string representation contains all parts in order
    const auto s = y.toString([](std::uint64_t l) { return l == 30 ? TagTargetLevel::Track : TagTargetLevel::Album; });
    std::vector<std::string> parts{ fmt("level %d", (int)level(b)), b.name ? "'name'" : level(b) == 30 ? "'track, song, chapter'" : "'album" };
    static const char *const kinds[] = { "track", "chapter", "edition", "attachment" };
    for (int i = 0; i < 4; ++i)
        for (const auto id : ids[b.id[i]]) {
            parts.emplace_back(kinds[i]);
            parts.emplace_back(fmt("%d", (int)id));
        }
    std::size_t at = 0;
    for (const auto &p : parts) {
        at = s.find(p, at);
        c.check(at != std::string::npos, "toString", "%s does not contain %s", s.c_str(), p.c_str());
        at += p.size();
    }
    c.step(8);
    c.state(vt::hashStr(s));
}

VT_SUITE(sizes, 20)
{
    // all dimensions around the limits
    static const std::uint32_t heights[] = { 240, 320, 480, 576, 720, 1080, 2160, 4320 };
    static const char *const names[] = { "<240p", "240p", "320p", "480p", "576p", "720p", "1080p", "4k", "8k" };
    std::vector<std::uint32_t> values{ 0, 1, 65535, 0xFFFFFFFF };
    for (const auto h : heights)
        for (const auto d : { -1, 0, 1 }) {
            values.push_back(h + static_cast<std::uint32_t>(d));
            values.push_back(h * 4 / 3 + static_cast<std::uint32_t>(d));
            values.push_back(h * 16 / 9 + static_cast<std::uint32_t>(d));
        }
    const auto others = values;
    for (std::size_t i = c.top; i < values.size(); i += 20)
        for (const auto h : values) {
            const auto w = values[i];
            const Size s(w, h);
            Size t;
            c.check(t.isNull() && t.width() == 0 && t.height() == 0, "default", "default size is not null");
            t.setWidth(w);
            t.setHeight(h);
            std::size_t k = 0;
            for (const auto limit : heights)
                k += h >= limit && w >= limit * 4 / 3;
            c.check(s.width() == w && s.height() == h && s == t && s.isNull() == (!w && !h), "size", "size %ux%u is not stored", w, h);
            c.check(s.abbreviation() == names[k], "abbreviation", "%ux%u is called %s instead of %s", w, h, Bytes(s.abbreviation()).c_str(), names[k]);
            if (w < 65536 && h < 65536)
                c.check(s.resolution() == w * h, "resolution", "resolution of %ux%u is %u", w, h, s.resolution());
            for (std::size_t o = 0; o + 1 < others.size(); o += 3) {
                const Size u(others[o], others[o + 1]);
                c.check((s >= u) == (w >= u.width() && h >= u.height()) && (s == u) == (w == u.width() && h == u.height()), "compare", "%ux%u and %ux%u compare wrongly", w, h, u.width(), u.height());
            }
            Margin m(w, h, 7, 9), n;
            c.check(n.isNull() && !m.isNull(), "margin", "isNull() of margin wrong");
            n.setTop(w);
            c.check(n.isNull() == !w, "margin", "isNull() of margin wrong");
            n.setLeft(h);
            n.setBottom(7);
            n.setRight(9);
            c.check(m.top() == w && m.left() == h && m.bottom() == 7 && m.right() == 9 && n.top() == w && n.left() == h && n.bottom() == 7 && n.right() == 9, "margin", "margin is not stored");
            for (std::uint32_t one = 0; one < 4; ++one)
                c.check(!Margin(one == 0, one == 1, one == 2, one == 3).isNull(), "margin", "isNull() of margin wrong");
            c.step(others.size() / 3 + 4);
            c.state(vt::mix(k, s.isNull()));
        }
}
