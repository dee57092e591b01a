// helpers of all drivers which save files: sessions, layout preferences, canonical dumps of what the library reads
#pragma once
#include "common.h"

#include <tagparser/abstractattachment.h>
#include <tagparser/abstractchapter.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>

#include <memory>

namespace ref {
using namespace TagParser;
struct Layout {
    std::size_t min = 0, max = 0, preferred = 0;
    bool force = false;
    ElementPosition tag = ElementPosition::Keep, index = ElementPosition::Keep;
    bool forceTag = false, forceIndex = false;
    bool saveAs = false;
};
inline std::string str(const Layout &l)
{
    return fmt("padding %zu..%zu(%zu)%s tag=%d%s index=%d%s%s", l.min, l.max, l.preferred, l.force ? " force" : "", static_cast<int>(l.tag), l.forceTag ? "!" : "", static_cast<int>(l.index),
        l.forceIndex ? "!" : "", l.saveAs ? " saveAs" : "");
}
inline void applyLayout(MediaFileInfo &f, const Layout &l)
{
    f.setMinPadding(l.min);
    f.setMaxPadding(l.max);
    f.setPreferredPadding(l.preferred);
    f.setForceRewrite(l.force);
    f.setTagPosition(l.tag);
    f.setForceTagPosition(l.forceTag);
    f.setIndexPosition(l.index);
    f.setForceIndexPosition(l.forceIndex);
}
struct Session {
    MediaFileInfo file;
    Diagnostics diag;
    AbortableProgressFeedback progress;
    explicit Session(const std::string &path)
        : file(path)
    {
    }
    void parse(bool readOnly = false)
    {
        file.open(readOnly);
        file.parseEverything(diag, progress);
    }
};
// saves and reports whether that was successful
inline bool save(Ctx &c, Session &s, std::string *what = nullptr)
{
    c.step();
    try {
        s.file.applyChanges(s.diag, s.progress);
        return true;
    } catch (const std::exception &e) {
        if (what)
            *what = e.what();
        return false;
    }
}
} // namespace ref
