// helpers shared by all drivers: reference text codecs, byte builders/readers, description of tag values
#pragma once
#include "vt.h"

#include <tagparser/diagnostics.h>
#include <tagparser/exceptions.h>
#include <tagparser/tag.h>
#include <tagparser/tagvalue.h>

#include <c++utilities/conversion/conversionexception.h>

#include <algorithm>
#include <array>
#include <cstdint>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ref {
using TagParser::KnownField;
using TagParser::PositionInSet;
using TagParser::TagDataType;
using TagParser::TagTextEncoding;
using TagParser::TagValue;
using Bytes = std::string;
using vt::Ctx;
using vt::fmt;
using vt::hex;
using vt::quote;

// --- text (independent implementation) -------------------------------------------------------------------------
inline std::u32string decodeUtf8(std::string_view s)
{
    std::u32string r;
    for (std::size_t i = 0; i < s.size();) {
        const unsigned char c = s[i];
        const int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        char32_t v = n == 1 ? c : n == 2 ? c & 0x1F : n == 3 ? c & 0xF : c & 7;
        for (int k = 1; k < n && i + k < s.size(); ++k)
            v = (v << 6) | (static_cast<unsigned char>(s[i + k]) & 0x3F);
        r += v;
        i += n;
    }
    return r;
}
inline Bytes encodeUtf8(const std::u32string &s)
{
    Bytes r;
    for (char32_t c : s) {
        if (c < 0x80)
            r += static_cast<char>(c);
        else if (c < 0x800) {
            r += static_cast<char>(0xC0 | (c >> 6));
            r += static_cast<char>(0x80 | (c & 0x3F));
        } else if (c < 0x10000) {
            r += static_cast<char>(0xE0 | (c >> 12));
            r += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            r += static_cast<char>(0x80 | (c & 0x3F));
        } else {
            r += static_cast<char>(0xF0 | (c >> 18));
            r += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
            r += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            r += static_cast<char>(0x80 | (c & 0x3F));
        }
    }
    return r;
}
inline bool isLatin1(std::string_view utf8)
{
    for (char32_t c : decodeUtf8(utf8))
        if (c > 0xFF)
            return false;
    return true;
}
inline Bytes encode(std::string_view utf8, TagTextEncoding e)
{
    Bytes r;
    if (e == TagTextEncoding::Utf8 || e == TagTextEncoding::Unspecified)
        return Bytes(utf8);
    auto put = [&](std::uint16_t u) {
        const char hi = static_cast<char>(u >> 8), lo = static_cast<char>(u & 0xFF);
        if (e == TagTextEncoding::Utf16BigEndian) {
            r += hi;
            r += lo;
        } else {
            r += lo;
            r += hi;
        }
    };
    for (char32_t c : decodeUtf8(utf8)) {
        if (e == TagTextEncoding::Latin1)
            r += static_cast<char>(c);
        else if (c < 0x10000)
            put(c);
        else {
            put(0xD800 + ((c - 0x10000) >> 10));
            put(0xDC00 + ((c - 0x10000) & 0x3FF));
        }
    }
    return r;
}
inline Bytes decode(std::string_view b, TagTextEncoding e)
{
    if (e == TagTextEncoding::Utf8 || e == TagTextEncoding::Unspecified)
        return Bytes(b);
    std::u32string r;
    if (e == TagTextEncoding::Latin1) {
        for (unsigned char c : b)
            r += c;
        return encodeUtf8(r);
    }
    std::vector<std::uint16_t> u;
    for (std::size_t i = 0; i + 1 < b.size(); i += 2) {
        const auto a = static_cast<unsigned char>(b[i]), c = static_cast<unsigned char>(b[i + 1]);
        u.push_back(e == TagTextEncoding::Utf16BigEndian ? a << 8 | c : c << 8 | a);
    }
    for (std::size_t i = 0; i < u.size(); ++i) {
        if (u[i] >= 0xD800 && u[i] < 0xDC00 && i + 1 < u.size()) {
            r += 0x10000 + ((u[i] - 0xD800) << 10) + (u[i + 1] - 0xDC00);
            ++i;
        } else
            r += u[i];
    }
    auto s = encodeUtf8(r);
    if (b.size() % 2)
        s += "<odd>";
    return s;
}
inline const char *encName(TagTextEncoding e)
{
    static const char *n[] = { "Latin1", "UTF-8", "UTF-16LE", "UTF-16BE", "unspecified" };
    return n[static_cast<int>(e)];
}
constexpr TagTextEncoding allEncodings[] = { TagTextEncoding::Latin1, TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };

// a text value in the given encoding, built from UTF-8 by the reference encoder
inline TagValue text(std::string_view utf8, TagTextEncoding e = TagTextEncoding::Utf8)
{
    const auto b = encode(utf8, e);
    return TagValue(b.data(), b.size(), e);
}
inline Bytes valueUtf8(const TagValue &v) // for text values: content as UTF-8 via the reference decoder
{
    return decode(std::string_view(v.dataSize() ? v.dataPointer() : "", v.dataSize()), v.dataEncoding());
}
inline Bytes descUtf8(const TagValue &v)
{
    return decode(v.description(), v.descriptionEncoding());
}
inline std::string describe(const TagValue &v)
{
    std::string r = std::string(TagParser::tagDataTypeString(v.type())) + ":";
    if (v.type() == TagDataType::Text)
        r += std::string(encName(v.dataEncoding())) + quote(valueUtf8(v));
    else
        r += hex(std::string_view(v.dataSize() ? v.dataPointer() : "", v.dataSize()), 40);
    if (!v.description().empty())
        r += " desc=" + quote(descUtf8(v));
    if (!v.mimeType().empty())
        r += " mime=" + quote(v.mimeType());
    for (auto &l : v.locale())
        r += " locale=" + l;
    return r;
}

// --- bytes -----------------------------------------------------------------------------------------------------
inline void be(Bytes &b, std::uint64_t v, int n)
{
    for (int i = n - 1; i >= 0; --i)
        b += static_cast<char>(i < 8 ? (v >> (8 * i)) & 0xFF : 0);
}
inline void le(Bytes &b, std::uint64_t v, int n)
{
    for (int i = 0; i < n; ++i)
        b += static_cast<char>(i < 8 ? (v >> (8 * i)) & 0xFF : 0);
}
inline Bytes BE(std::uint64_t v, int n)
{
    Bytes b;
    be(b, v, n);
    return b;
}
inline Bytes LE(std::uint64_t v, int n)
{
    Bytes b;
    le(b, v, n);
    return b;
}
inline std::uint64_t rdBE(std::string_view b, std::size_t off, int n)
{
    std::uint64_t v = 0;
    for (int i = 0; i < n; ++i)
        v = v << 8 | (off + i < b.size() ? static_cast<unsigned char>(b[off + i]) : 0);
    return v;
}
inline std::uint64_t rdLE(std::string_view b, std::size_t off, int n)
{
    std::uint64_t v = 0;
    for (int i = n - 1; i >= 0; --i)
        v = v << 8 | (off + i < b.size() ? static_cast<unsigned char>(b[off + i]) : 0);
    return v;
}
inline Bytes syncsafe(std::uint32_t v)
{
    Bytes b;
    for (int i = 3; i >= 0; --i)
        b += static_cast<char>((v >> (7 * i)) & 0x7F);
    return b;
}
inline std::uint32_t rdSyncsafe(std::string_view b, std::size_t off)
{
    std::uint32_t v = 0;
    for (int i = 0; i < 4; ++i)
        v = v << 7 | (static_cast<unsigned char>(b[off + i]) & 0x7F);
    return v;
}
// deterministic, position dependent filler so that any shift or overlap shows
inline Bytes filler(std::size_t n, unsigned seed)
{
    Bytes b(n, '\0');
    std::uint32_t x = seed * 2654435761u + 12345;
    for (std::size_t i = 0; i < n; ++i) {
        x = x * 1664525u + 1013904223u;
        b[i] = static_cast<char>(x >> 24);
    }
    return b;
}
inline std::string diagText(const TagParser::Diagnostics &diag)
{
    std::string r;
    for (const auto &m : diag)
        r += "[" + std::string(m.levelName()) + "] " + m.context() + ": " + m.message() + "; ";
    return r;
}
inline bool hasLevel(const TagParser::Diagnostics &diag, TagParser::DiagLevel l)
{
    for (const auto &m : diag)
        if (m.level() >= l)
            return true;
    return false;
}
inline std::size_t firstDiff(std::string_view a, std::string_view b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    return i;
}
} // namespace ref
