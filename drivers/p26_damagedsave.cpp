// P26: saving a damaged file is safe and never loses the original.
#include "damage.h"

const char *vt::property = "P26";
const char *vt::rule = "every truncation, every byte set to each of a set of critical values, every field set to extreme values, every byte removed/duplicated of files of every format which contain as many structures as possible; each is "
                       "opened and, in spite of all problems reported, saved with an edit (titles set, titles exceeding the padding, tags removed) in every way (rewritten, possibly in place, under another path) by code instrumented "
                       "with AddressSanitizer and UndefinedBehaviorSanitizer; states = distinct outcomes";
const char *vt::assumptions = "bounds: 96 MiB at once and 512 MiB in total of memory and 4 seconds of CPU time (instrumented) for files of at most 3 KiB|allocation of memory succeeds";

namespace {
bool everyDamage()
{
    return false;
}
enum Way { Rewrite, InPlace, SaveAs, WayCount };
const char *const ways[] = { "rewritten", "possibly in place", "saved under another path" };
enum Edit { Title, LongTitle, Remove, EditCount };
const char *const edits[] = { "title set", "long title set", "tags removed" };

void damagedSave(Ctx &c, const corpus::Sample &s, const Bytes &data, Way way, Edit edit)
{
    c.log("%s, %s", ways[way], edits[edit]);
    const auto ext = Bytes(s.ext), path = c.file((Bytes("a") + ext).c_str()), other = c.file((Bytes("b") + ext).c_str()), backup = path + ".bak";
    ::unlink(other.c_str());
    ::unlink(backup.c_str());
    vt::writeFile(path, data);
    const Bytes title = edit == LongTitle ? Bytes(3000, 'x') : Bytes("New");
    bool saved = false, edited = false, reported = false;
    Bytes why;
    accounting = Accounting();
    const auto start = cpu();
    accounting.active = true;
    {
        Session f(path);
        try {
            f.parse();
        } catch (const Failure &) {
        } catch (const std::ios_base::failure &) {
        } // anything else is subject of P15
        try {
            if (edit == Remove) {
                f.file.removeAllTags();
            } else {
                TagCreationSettings settings;
                settings.flags |= TagCreationFlags::Id3TransferValuesOnRemoval;
                f.file.createAppropriateTags(settings);
                for (auto *const t : f.file.tags())
                    edited = t->setValue(KnownField::Title, TagValue(title, TagTextEncoding::Utf8)) || edited;
            }
            f.file.setForceRewrite(way != InPlace);
            f.file.setPreferredPadding(64);
            f.file.setMaxPadding(way == InPlace ? 4096 : 512);
            if (way == SaveAs)
                f.file.setSaveFilePath(other);
            c.step();
            f.file.applyChanges(f.diag, f.progress);
            saved = true;
            reported = f.diag.level() >= DiagLevel::Warning;
        } catch (const Failure &e) {
            why = fmt("Failure: %s", e.what());
        } catch (const std::ios_base::failure &e) {
            why = fmt("I/O error: %s", e.what());
        } catch (const vt::Fail &) {
            throw;
        } catch (const std::exception &e) {
            accounting.active = false;
            c.fail("undocumented-exception", "undocumented exception when saving: %s", e.what());
        } catch (...) {
            accounting.active = false;
            c.fail("undocumented-exception", "undocumented exception when saving");
        }
    }
    accounting.active = false;
    const auto took = cpu() - start;
    c.check(accounting.peak <= (96u << 20), "memory-peak", "%zu bytes of memory were occupied at once", accounting.peak);
    c.check(accounting.total <= (512u << 20), "memory-total", "%zu bytes of memory were allocated in total", accounting.total);
    c.check(took <= 4.0, "time", "saving took %f seconds of CPU time", took);

    // the original is never lost
    const auto now = vt::readFile(path);
    if (way == SaveAs)
        c.check(now == data, "original-modified", "the original has been modified although the file is saved under another path (%s)", why.c_str());
    else if (way == Rewrite && now != data)
        c.check(::access(backup.c_str(), F_OK) == 0 && vt::readFile(backup) == data, "original-lost", "neither the file nor the backup has the original content (%s)", saved ? "saved" : why.c_str());
    if (way == Rewrite && !saved)
        c.check(now == data, "not-restored", "saving failed (%s) but the original has not been restored", why.c_str());

    // a saved file is of reasonable size and can be read again
    if (!saved)
        return;
    const auto result = way == SaveAs && ::access(other.c_str(), F_OK) == 0 ? other : path;
    const auto content = vt::readFile(result);
    c.check(content.size() <= 2 * data.size() + 8 * title.size() + 8192, "size", "the saved file has %zu bytes, the original %zu", content.size(), data.size());
    c.state(vt::hashStr(content));
    if (const char *const keep = getenv("P26_KEEP")) {
        vt::writeFile(Bytes(keep) + ".in", data);
        vt::writeFile(Bytes(keep) + ".out", content);
    }
    Session f(result);
    try {
        f.parse(true);
    } catch (const Failure &) {
    } catch (const std::ios_base::failure &) {
    }
    if (edited && !reported) { // problems which have not been reported must not affect the result
        bool found = false;
        for (auto *const t : f.file.tags())
            found = found || t->value(KnownField::Title).toString(TagTextEncoding::Utf8) == title;
        c.check(found, "title", "the file has been saved without any warning but the title is not present: %s", diagText(f.diag).c_str());
    }
}
VT_SUITE(intact, samples().size())
{
    auto &s = samples()[c.top];
    examine(c, s, s.data);
}
} // namespace
namespace {
void examine(Ctx &c, const corpus::Sample &s, const Bytes &data)
{
    if (vt::thorough()) {
        const auto way = static_cast<Way>(c.choose(WayCount, "way"));
        const auto edit = static_cast<Edit>(c.choose(EditCount, "edit"));
        damagedSave(c, s, data, way, edit);
    } else {
        static constexpr std::pair<Way, Edit> combinations[] = { { Rewrite, LongTitle }, { InPlace, Title }, { SaveAs, Remove } };
        const auto &i = c.pick(combinations);
        damagedSave(c, s, data, i.first, i.second);
    }
}
} // namespace
