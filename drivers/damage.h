// enumeration of single damages of the samples of the corpus and accounting of memory and CPU time (only with AddressSanitizer)
// the driver defines examine()
#pragma once
#include "corpus.h"
#include "digest.h"
#include "save.h"

#include <tagparser/exceptions.h>

#include <sys/stat.h>
#include <time.h>

using namespace ref;

// accounting of memory allocations (provided by the sanitizer's runtime)
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, std::size_t), void (*)(const volatile void *));
std::size_t __sanitizer_get_allocated_size(const volatile void *);
}
namespace {
struct Accounting {
    bool active = false;
    std::size_t total = 0, peak = 0, count = 0;
    long long live = 0;
} accounting;
void onMalloc(const volatile void *, std::size_t n)
{
    if (!accounting.active)
        return;
    ++accounting.count;
    accounting.total += n;
    accounting.live += static_cast<long long>(n);
    accounting.peak = std::max(accounting.peak, static_cast<std::size_t>(std::max(accounting.live, 0ll)));
}
void onFree(const volatile void *p)
{
    if (accounting.active && p)
        accounting.live -= static_cast<long long>(__sanitizer_get_allocated_size(p));
}
const int installed = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
double cpu()
{
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9;
}
const std::vector<corpus::Sample> &samples()
{
    static const auto s = corpus::make();
    return s;
}
constexpr std::size_t slices = 16;
bool everyDamage(); // defined by the driver: whether all values are enumerated or only critical ones

void examine(Ctx &c, const corpus::Sample &s, const Bytes &data);
VT_SUITE(truncate, samples().size())
{
    auto &s = samples()[c.top];
    const auto n = c.choose(s.data.size(), "size");
    c.log("%s truncated to %zu bytes", s.name, n);
    examine(c, s, s.data.substr(0, n));
}
// positions are distributed over the slices
std::size_t position(Ctx &c, std::size_t n)
{
    const auto slice = c.top % slices;
    if (n <= slice)
        c.skip();
    return slice + slices * c.choose((n - slice + slices - 1) / slices, "position");
}
VT_SUITE(bytes, samples().size() * slices)
{
    auto &s = samples()[c.top / slices];
    auto data = s.data;
    const auto at = position(c, data.size());
    const auto old = static_cast<unsigned char>(data[at]);
    unsigned value = 0;
    if (everyDamage()) {
        value = static_cast<unsigned>(c.choose(256, "value"));
    } else {
        const unsigned values[] = { 0x00, 0x01, 0x7F, 0x80, 0xFF, (old + 1u) & 0xFF, (old - 1u) & 0xFF, old ^ 0x80u, old ^ 0x10u };
        const auto i = c.choose(std::size(values), "value");
        value = values[i];
        for (std::size_t k = 0; k < i; ++k)
            if (values[k] == value)
                c.skip();
    }
    if (value == old)
        c.skip();
    c.log("%s: byte at %zu set from %02X to %02X", s.name, at, old, value);
    data[at] = static_cast<char>(value);
    examine(c, s, data);
}
VT_SUITE(fields, samples().size() * slices)
{
    auto &s = samples()[c.top / slices];
    auto data = s.data;
    const auto at = position(c, data.size());
    static const int widths[] = { 2, 3, 4, 8 };
    const auto width = static_cast<std::size_t>(widths[everyDamage() ? c.choose(4, "width") : 2 + c.choose(2, "width")]);
    if (at + width > data.size())
        c.skip();
    // extreme values and values which overflow when a small header size is added
    Bytes v(width, '\xFF');
    const auto kind = c.choose(everyDamage() ? 20 : 4, "value");
    switch (kind) {
    case 0: break;
    case 1: v[0] = '\x7F'; break;
    case 2: v[width - 1] = '\xF6'; break;
    case 3: v[width - 1] = '\xF8'; break;
    case 4: v.assign(width, '\0'); break;
    case 5: v.assign(width, '\0'), v[0] = '\x80'; break;
    default: v[width - 1] = static_cast<char>(0xF0 + kind - 6);
    }
    if (everyDamage() && c.flip("little endian"))
        std::reverse(v.begin(), v.end());
    c.log("%s: field of %zu bytes at %zu set to %s", s.name, width, at, hex(v).c_str());
    data.replace(at, width, v);
    examine(c, s, data);
}
VT_SUITE(shift, samples().size())
{
    auto &s = samples()[c.top];
    auto data = s.data;
    const auto at = c.choose(data.size(), "position");
    const auto insert = c.flip("insert");
    c.log("%s: byte at %zu %s", s.name, at, insert ? "duplicated" : "removed");
    if (insert)
        data.insert(at, 1, data[at]);
    else
        data.erase(at, 1);
    examine(c, s, data);
}
} // namespace
