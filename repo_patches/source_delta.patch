From ff6b302b8be6cd792c461f890686f79de0c6065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 001/176] fix: don't read beyond the end of ID3v2 frames with
 unterminated strings

---
 id3/id3v2frame.cpp | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index df12b8e..86ca712 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -932,16 +932,12 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
             get<0>(res) += 3;
         }
         const char *pos = get<0>(res);
-        for (; *pos != 0x00; ++pos) {
-            if (pos < get<2>(res)) {
-                ++get<1>(res);
-            } else {
-                if (addWarnings) {
-                    diag.emplace_back(
-                        DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
-                }
-                break;
-            }
+        const char *const end = get<2>(res);
+        for (; pos != end && *pos != 0x00; ++pos) {
+            ++get<1>(res);
+        }
+        if (pos == end && addWarnings) {
+            diag.emplace_back(DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
         }
         get<2>(res) = pos + 1;
         break;
@@ -964,19 +960,16 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
                 get<0>(res) += 2;
             }
         }
-        const std::uint16_t *pos = reinterpret_cast<const std::uint16_t *>(get<0>(res));
-        for (; *pos != 0x0000; ++pos) {
-            if (pos < reinterpret_cast<const std::uint16_t *>(get<2>(res))) {
-                get<1>(res) += 2;
-            } else {
-                if (addWarnings) {
-                    diag.emplace_back(
-                        DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
-                }
-                break;
-            }
+        const char *pos = get<0>(res);
+        const char *const end = get<2>(res);
+        for (; end - pos >= 2 && (pos[0] || pos[1]); pos += 2) {
+            get<1>(res) += 2;
+        }
+        if (end - pos < 2 && addWarnings) {
+            diag.emplace_back(
+                DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
         }
-        get<2>(res) = reinterpret_cast<const char *>(pos + 1);
+        get<2>(res) = pos + 2;
         break;
     }
     }
-- 
2.43.0


From 9c536637f5b13eff99a38a31488ea9e617d854cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 002/176] fix: make order of ID3v2 frames a strict weak
 ordering when short and long IDs are mixed

---
 id3/id3v2tag.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index f90071f..ba121f0 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -709,25 +709,17 @@ void Id3v2Tag::setVersion(std::uint8_t majorVersion, std::uint8_t revisionVersio
  */
 bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
 {
-    if (lhs == rhs) {
-        return false;
-    }
-
-    const bool lhsLong = Id3v2FrameIds::isLongId(lhs);
-    const bool rhsLong = Id3v2FrameIds::isLongId(rhs);
-    if (lhsLong != rhsLong) {
-        if (!lhsLong) {
-            lhs = Id3v2FrameIds::convertToLongId(lhs);
-            if (!lhs) {
-                return true;
-            }
-        } else if (!rhsLong) {
-            rhs = Id3v2FrameIds::convertToLongId(rhs);
-            if (!rhs) {
-                return true;
+    // compare by the long IDs so the order is consistent regardless whether long and short IDs are mixed
+    for (auto *const id : { &lhs, &rhs }) {
+        if (Id3v2FrameIds::isShortId(*id)) {
+            if (const auto longId = Id3v2FrameIds::convertToLongId(*id)) {
+                *id = longId;
             }
         }
     }
+    if (lhs == rhs) {
+        return false;
+    }
 
     if (lhs == Id3v2FrameIds::lUniqueFileId || lhs == Id3v2FrameIds::sUniqueFileId) {
         return true;
-- 
2.43.0


From f3506a9e9fa600de0611eb15a5d9106630ee84a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 003/176] fix: don't write superfluous bytes at the end of
 ID3v2 comment and lyrics frames

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 86ca712..1430dc9 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1305,7 +1305,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
     // note: encoding byte + language + description size + actual data size + BOMs and termination
     const auto data = comment.toString(encoding);
     const auto requiredBufferSize = 1 + 3 + descriptionSize + data.size()
-        + (encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 6 : 1) + data.size();
+        + (encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 6 : 1);
     if (requiredBufferSize > numeric_limits<uint32_t>::max()) {
         diag.emplace_back(DiagLevel::Critical, "Required size exceeds maximum.", context);
         throw InvalidDataException();
-- 
2.43.0


From 3fc0006f41977f7d4518ec1e122ef034ec43d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 004/176] fix: don't drop last character of unterminated URL in
 ID3v2 frames

---
 id3/id3v2frame.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 1430dc9..c109e27 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -278,13 +278,14 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         auto dataEncoding = isTextFrame ? parseTextEncodingByte(static_cast<std::uint8_t>(*(currentOffset++)), diag) : TagTextEncoding::Latin1;
 
         // parse string values (since ID3v2.4 a text frame may contain multiple strings)
-        for (size_t currentIndex = 1; currentIndex < m_dataSize;) {
+        const auto startIndex = isTextFrame ? std::size_t(1) : std::size_t(0); // URL frames have no text encoding byte
+        for (auto currentIndex = startIndex; currentIndex < m_dataSize;) {
             // determine the next substring
             const auto substr(parseSubstring(currentOffset, m_dataSize - currentIndex, dataEncoding, false, diag));
 
             // handle case when string is empty
             if (!get<1>(substr)) {
-                if (currentIndex == 1) {
+                if (currentIndex == startIndex) {
                     value().clearDataAndMetadata();
                 }
                 currentIndex = static_cast<size_t>(get<2>(substr) - buffer.get());
-- 
2.43.0


From 3680eda1c15065742631d7b86724cae2bd8b719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 005/176] fix: treat numbers which are not a known genre index
 as text when parsing ID3v2 genre

---
 id3/id3v2frame.cpp | 40 ++++++++++++----------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index c109e27..f3ddb11 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1,4 +1,5 @@
 #include "./id3v2frame.h"
+#include "./id3genres.h"
 #include "./id3v2frameids.h"
 
 #include "../diagnostics.h"
@@ -68,36 +69,19 @@ Id3v2Frame::Id3v2Frame(const IdentifierType &id, const TagValue &value, std::uin
 template <class stringtype> static int parseGenreIndex(const stringtype &denotation)
 {
     auto index = -1;
+    auto hasParenthesis = false;
     for (auto c : denotation) {
-        if (index == -1) {
-            switch (c) {
-            case ' ':
-                break;
-            case '(':
-                index = 0;
-                break;
-            case '\0':
-                return -1;
-            default:
-                if (c >= '0' && c <= '9') {
-                    index = c - '0';
-                } else {
-                    return -1;
-                }
-            }
-        } else {
-            switch (c) {
-            case ')':
-                return index;
-            case '\0':
-                return index;
-            default:
-                if (c >= '0' && c <= '9') {
-                    index = index * 10 + c - '0';
-                } else {
-                    return -1;
-                }
+        if (c >= '0' && c <= '9') {
+            index = (index == -1 ? 0 : index * 10) + (c - '0');
+            if (!Id3Genres::isIndexSupported(index) && !Id3Genres::isEmptyGenre(index)) {
+                return -1; // not a known genre index, treat it as text
             }
+        } else if (index != -1) {
+            return c == ')' || c == '\0' ? index : -1;
+        } else if (c == '(' && !hasParenthesis) {
+            hasParenthesis = true;
+        } else if (c != ' ' || hasParenthesis) {
+            return -1;
         }
     }
     return index;
-- 
2.43.0


From 4656935afdaf32ab966f07eb0cfec1955570c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 006/176] fix: handle flags, group byte and compression of
 ID3v2 frames according to the specification

---
 id3/id3v2frame.cpp | 83 ++++++++++++++++++++++++++++++++++++----------
 id3/id3v2frame.h   |  7 ++--
 2 files changed, 69 insertions(+), 21 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index f3ddb11..6fed471 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -137,6 +137,9 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
     static const string defaultContext("parsing ID3v2 frame");
     string context;
 
+    // remember the version as the meaning of the flags depends on it
+    m_parsedVersion = version;
+
     // parse header
     if (version < 3) {
         // parse header for ID3v2.1 and ID3v2.2
@@ -188,9 +191,9 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             throw TruncatedDataException();
         }
 
-        // -> read flags and group
+        // -> read flags
         m_flag = reader.readUInt16BE();
-        m_group = hasGroupInformation() ? reader.readByte() : 0;
+        m_group = 0;
         if (isEncrypted()) {
             // encryption is not implemented
             diag.emplace_back(DiagLevel::Critical, "Encrypted frames aren't supported.", context);
@@ -213,14 +216,36 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         throw InvalidDataException();
     }
 
+    // read additional information denoted by flags (it is part of the frame data)
+    const auto additionalSize = (hasDataLengthIndicator() ? 4u : 0u) + (hasGroupInformation() ? 1u : 0u);
+    if (additionalSize >= m_dataSize && additionalSize) {
+        diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
+        throw TruncatedDataException();
+    }
+    m_dataSize -= additionalSize;
+    auto decompressedSize = uLongf();
+    if (version < 4 && hasDataLengthIndicator()) {
+        decompressedSize = reader.readUInt32BE();
+    }
+    if (hasGroupInformation()) {
+        m_group = reader.readByte();
+    }
+    if (version >= 4 && hasDataLengthIndicator()) {
+        decompressedSize = reader.readSynchsafeUInt32BE();
+    }
+
     // parse the data
     unique_ptr<char[]> buffer;
 
     // -> decompress data if compressed; otherwise just read it
     if (isCompressed()) {
-        uLongf decompressedSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        if (decompressedSize < m_dataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed size is smaller than the compressed size.", context);
+        if (!hasDataLengthIndicator()) {
+            diag.emplace_back(DiagLevel::Critical, "The decompressed size is not denoted.", context);
+            throw InvalidDataException();
+        }
+        // -> avoid allocating memory for a decompressed size which is impossible considering the maximum compression factor of zlib
+        if (decompressedSize > maxId3v2FrameDataSize || decompressedSize / 1032u > m_dataSize) {
+            diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
             throw InvalidDataException();
         }
         const auto bufferCompressed = make_unique<char[]>(m_dataSize);
@@ -243,8 +268,8 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             diag.emplace_back(DiagLevel::Critical, "Decompressing failed (unknown reason).", context);
             throw InvalidDataException();
         }
-        if (decompressedSize > maxId3v2FrameDataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
+        if (!decompressedSize) {
+            diag.emplace_back(DiagLevel::Warning, "The frame size is 0.", context);
             throw InvalidDataException();
         }
         m_dataSize = static_cast<std::uint32_t>(decompressedSize);
@@ -445,6 +470,28 @@ void Id3v2Frame::internallyClearFurtherData()
     m_padding = false;
 }
 
+/*!
+ * \brief Returns the flags as they are supposed to be written when making the frame for the specified \a version.
+ * \remarks The position of the flags within the flag bytes depends on the version of the tag.
+ */
+std::uint16_t Id3v2Frame::flagForVersion(std::uint32_t version) const
+{
+    auto flag = m_flag;
+    if ((version >= 4) != (m_parsedVersion >= 4)) {
+        flag = static_cast<std::uint16_t>(version >= 4 ? (m_flag & 0xE000u) >> 1 : (m_flag & 0x7000u) << 1);
+        if (isCompressed()) {
+            flag |= version >= 4 ? 0x8 : 0x80;
+        }
+        if (hasGroupInformation()) {
+            flag |= version >= 4 ? 0x40 : 0x20;
+        }
+    }
+    if (version >= 4 && (flag & 0x8)) {
+        flag |= 0x1; // the data length indicator is mandatory when compression is used
+    }
+    return flag;
+}
+
 /*!
  * \brief Returns a diag message that additional values are ignored.
  */
@@ -802,8 +849,8 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
         if (m_frame.hasGroupInformation()) {
             m_requiredSize += 1;
         }
-        // -> decompressed size
-        if (version >= 3 && m_frame.isCompressed()) {
+        // -> decompressed size/data length indicator
+        if (m_frame.flagForVersion(version) & (version >= 4 ? 0x1 : 0x80)) {
             m_requiredSize += 4;
         }
     }
@@ -822,22 +869,22 @@ void Id3v2FrameMaker::make(BinaryWriter &writer)
         writer.writeUInt24BE(m_frameId);
         writer.writeUInt24BE(m_dataSize);
     } else {
+        const auto flag = m_frame.flagForVersion(m_version);
         writer.writeUInt32BE(m_frameId);
         if (m_version >= 4) {
-            writer.writeSynchsafeUInt32BE(m_dataSize);
+            writer.writeSynchsafeUInt32BE(m_requiredSize - 10);
         } else {
-            writer.writeUInt32BE(m_dataSize);
+            writer.writeUInt32BE(m_requiredSize - 10);
+        }
+        writer.writeUInt16BE(flag);
+        if (m_version < 4 && (flag & 0x80)) {
+            writer.writeUInt32BE(m_decompressedSize);
         }
-        writer.writeUInt16BE(m_frame.flag());
         if (m_frame.hasGroupInformation()) {
             writer.writeByte(m_frame.group());
         }
-        if (m_version >= 3 && m_frame.isCompressed()) {
-            if (m_version >= 4) {
-                writer.writeSynchsafeUInt32BE(m_decompressedSize);
-            } else {
-                writer.writeUInt32BE(m_decompressedSize);
-            }
+        if (m_version >= 4 && (flag & 0x1)) {
+            writer.writeSynchsafeUInt32BE(m_decompressedSize);
         }
     }
     writer.write(m_data.get(), m_dataSize);
diff --git a/id3/id3v2frame.h b/id3/id3v2frame.h
index 27799aa..c39b278 100644
--- a/id3/id3v2frame.h
+++ b/id3/id3v2frame.h
@@ -146,6 +146,7 @@ public:
 private:
     void internallyClearValue();
     void internallyClearFurtherData();
+    std::uint16_t flagForVersion(std::uint32_t version) const;
     std::string ignoreAdditionalValuesDiagMsg() const;
 
     std::vector<TagValue> m_additionalValues;
@@ -236,7 +237,7 @@ inline std::uint32_t Id3v2Frame::dataSize() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
 {
-    return m_flag & 0x8000;
+    return m_parsedVersion >= 4 ? m_flag & 0x4000 : m_flag & 0x8000;
 }
 
 /*!
@@ -244,7 +245,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
 {
-    return m_flag & 0x4000;
+    return m_parsedVersion >= 4 ? m_flag & 0x2000 : m_flag & 0x4000;
 }
 
 /*!
@@ -252,7 +253,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
  */
 inline bool Id3v2Frame::isReadOnly() const
 {
-    return m_flag & 0x2000;
+    return m_parsedVersion >= 4 ? m_flag & 0x1000 : m_flag & 0x2000;
 }
 
 /*!
-- 
2.43.0


From f5acba368afef836b069231189aec23c6c5865bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 007/176] fix: preserve composer, unique file ID and
 synchronized lyrics when changing ID3v2 version from/to 2.2

---
 id3/id3v2frameids.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/id3/id3v2frameids.cpp b/id3/id3v2frameids.cpp
index 9afb674..7f01cba 100644
--- a/id3/id3v2frameids.cpp
+++ b/id3/id3v2frameids.cpp
@@ -105,6 +105,12 @@ std::uint32_t convertToShortId(std::uint32_t id)
         return sUserDefinedURL;
     case lSubtitleOrDescriptionRefinement:
         return sSubtitleOrDescriptionRefinement;
+    case lSynchronizedLyrics:
+        return sSynchronizedLyrics;
+    case lComposer:
+        return sComposer;
+    case lUniqueFileId:
+        return sUniqueFileId;
     default:
         return 0;
     }
@@ -195,6 +201,12 @@ std::uint32_t convertToLongId(std::uint32_t id)
         return lUserDefinedURL;
     case sSubtitleOrDescriptionRefinement:
         return lSubtitleOrDescriptionRefinement;
+    case sSynchronizedLyrics:
+        return lSynchronizedLyrics;
+    case sComposer:
+        return lComposer;
+    case sUniqueFileId:
+        return lUniqueFileId;
     default:
         return 0;
     }
-- 
2.43.0


From e36133660876dcbfd8b355e34ad78b4c8bf4e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 008/176] fix: map ISRC field of ID3v2 tags and type of ID3v2.2
 disk position

---
 id3/id3v2tag.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index ba121f0..2eb6a0f 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -202,6 +202,8 @@ Id3v2Tag::IdentifierType Id3v2Tag::internallyGetFieldId(KnownField field) const
             return lOriginalMediaType;
         case KnownField::Mood:
             return lMood;
+        case KnownField::ISRC:
+            return lISRC;
         case KnownField::InitialKey:
             return lKey;
         case KnownField::PublisherWebpage:
@@ -270,6 +272,8 @@ Id3v2Tag::IdentifierType Id3v2Tag::internallyGetFieldId(KnownField field) const
             return sCopyright;
         case KnownField::OriginalMediaType:
             return sOriginalMediaType;
+        case KnownField::ISRC:
+            return sISRC;
         case KnownField::InitialKey:
             return sKey;
         case KnownField::PublisherWebpage:
@@ -449,6 +453,7 @@ TagDataType Id3v2Tag::internallyGetProposedDataType(const std::uint32_t &id) con
     case lTrackPosition:
     case sTrackPosition:
     case lDiskPosition:
+    case sDiskPosition:
         return TagDataType::PositionInSet;
     case lCover:
     case sCover:
-- 
2.43.0


From b99d4f0c792ac4f3ebdcd12ba5dd638169455161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 009/176] fix: don't truncate UTF-16 descriptions at zero bytes
 of adjacent code units when making ID3v2 frames

---
 id3/id3v2frame.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 6fed471..2f55c7f 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1163,6 +1163,22 @@ size_t Id3v2Frame::makeBom(char *buffer, TagTextEncoding encoding)
     }
 }
 
+/*!
+ * \brief Returns the size of the specified \a str excluding a possibly present termination and everything after it.
+ */
+static std::string::size_type computeStringSize(const std::string &str, TagTextEncoding encoding)
+{
+    if (encoding != TagTextEncoding::Utf16BigEndian && encoding != TagTextEncoding::Utf16LittleEndian) {
+        return std::min(str.find('\0'), str.size());
+    }
+    for (auto i = std::string::size_type(); i + 1 < str.size(); i += 2) {
+        if (!str[i] && !str[i + 1]) {
+            return i;
+        }
+    }
+    return str.size();
+}
+
 /*!
  * \brief Writes the specified picture to the specified buffer (ID3v2.2 compatible).
  */
@@ -1172,11 +1188,7 @@ void Id3v2Frame::makeLegacyPicture(
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    auto descriptionSize = computeStringSize(picture.description(), descriptionEncoding);
     if (descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1247,11 +1259,7 @@ void Id3v2Frame::makePicture(std::unique_ptr<char[]> &buffer, std::uint32_t &buf
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    auto descriptionSize = computeStringSize(picture.description(), descriptionEncoding);
     if (version < 4 && descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1321,11 +1329,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
         throw InvalidDataException();
     }
     StringData convertedDescription;
-    string::size_type descriptionSize = comment.description().find(
-        "\0\0", 0, encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = comment.description().size();
-    }
+    auto descriptionSize = computeStringSize(comment.description(), encoding);
     if (version < 4 && encoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         encoding = TagTextEncoding::Utf16LittleEndian;
-- 
2.43.0


From 77bc7612acc997205f213a02134114821c9d4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 010/176] fix: preserve MIME type of ID3v2.2 pictures when
 parsing

---
 id3/id3v2frame.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 2f55c7f..9b361dd 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -16,6 +16,7 @@
 #include <cstring>
 #include <limits>
 #include <memory>
+#include <string_view>
 
 using namespace std;
 using namespace CppUtilities;
@@ -1072,6 +1073,17 @@ void Id3v2Frame::parseLegacyPicture(const char *buffer, std::size_t maxSize, Tag
     }
     const char *end = buffer + maxSize;
     auto dataEncoding = parseTextEncodingByte(static_cast<std::uint8_t>(*buffer), diag); // the first byte stores the encoding
+    // the next three bytes store the image format (or "-->" in case of a link)
+    const auto imageFormat = std::string_view(buffer + 1, 3);
+    if (imageFormat == "JPG") {
+        tagValue.setMimeType("image/jpeg");
+    } else if (imageFormat == "PNG") {
+        tagValue.setMimeType("image/png");
+    } else if (imageFormat == "GIF") {
+        tagValue.setMimeType("image/gif");
+    } else if (imageFormat == "-->") {
+        tagValue.setMimeType("-->");
+    }
     typeInfo = static_cast<unsigned char>(*(buffer + 4));
     auto substr = parseSubstring(buffer + 5, static_cast<size_t>(end - 5 - buffer), dataEncoding, true, diag);
     tagValue.setDescription(string(get<0>(substr), get<1>(substr)), dataEncoding);
-- 
2.43.0


From d6bcfd11419ef7fed88b4e8fb1d544dba974c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 011/176] fix: don't drop text consisting of only one character
 when reading ID3v1 tags

---
 id3/id3v1tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 66f40de..997b0f4 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -278,11 +278,11 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
 void Id3v1Tag::readValue(TagValue &value, size_t maxLength, const char *buffer)
 {
     const char *end = buffer + maxLength - 1;
-    while ((*end == 0x0 || *end == ' ') && end >= buffer) {
+    while (maxLength && (*end == 0x0 || *end == ' ')) {
         --end;
         --maxLength;
     }
-    if (buffer == end) {
+    if (!maxLength) {
         return;
     }
     if (maxLength >= 3 && BE::toUInt24(buffer) == 0x00EFBBBF) {
-- 
2.43.0


From c2f554036cb66d8984e862b3ad3bb9b787d60dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 012/176] fix: read track numbers greater than 127 from ID3v1
 tags correctly

---
 id3/id3v1tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 997b0f4..137a8ce 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -78,7 +78,7 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     }
     readValue(m_comment, is11 ? 28 : 30, buffer + 97);
     if (is11) {
-        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<char *>(buffer + 126), 0));
+        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
     m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
 }
-- 
2.43.0


From f359b158da7b04128dd39770a297eced5ec0f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 013/176] fix: consider record date in Id3v1Tag::hasField()

---
 id3/id3v1tag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 137a8ce..97b397e 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -207,6 +207,7 @@ bool Id3v1Tag::hasField(KnownField field) const
         return !m_artist.isEmpty();
     case KnownField::Album:
         return !m_album.isEmpty();
+    case KnownField::RecordDate:
         return !m_year.isEmpty();
     case KnownField::Comment:
         return !m_comment.isEmpty();
-- 
2.43.0


From 1b038f9fe6a3ecc0b5e3d7e0289d63eaa2e9b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 014/176] fix: don't write genre "Blues" to ID3v1 tags if the
 assigned genre can not be represented

---
 id3/id3v1tag.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 97b397e..cf365e4 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -1,4 +1,5 @@
 #include "./id3v1tag.h"
+#include "./id3genres.h"
 
 #include "../diagnostics.h"
 #include "../exceptions.h"
@@ -109,7 +110,7 @@ void Id3v1Tag::make(ostream &stream, Diagnostics &diag)
     // set "default" values for numeric fields
     buffer[0] = 0x0; // empty byte
     buffer[1] = 0x0; // track number
-    buffer[2] = 0x0; // genre
+    buffer[2] = static_cast<char>(Id3Genres::emptyGenreIndex()); // genre
 
     // write track
     if (!m_trackPos.isEmpty()) {
-- 
2.43.0


From e124d4ade0050ffaff9735e880f9698de7ec53e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 015/176] fix: warn when UTF-8 text is truncated in ID3v1 tags
 due to the byte order mark

---
 id3/id3v1tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index cf365e4..906813b 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -341,9 +341,9 @@ void Id3v1Tag::writeValue(const TagValue &value, size_t length, char *buffer, os
     }
 
     // copy the string
-    if (valueAsString.size() > length) {
+    if (valueAsString.size() > valueLength) {
         diag.emplace_back(
-            DiagLevel::Warning, argsToString("Value has been truncated. Max. ", length, " characters supported."), "making ID3v1 tag field");
+            DiagLevel::Warning, argsToString("Value has been truncated. Max. ", valueLength, " characters supported."), "making ID3v1 tag field");
     }
     valueAsString.copy(valueStart, valueLength);
 
-- 
2.43.0


From 3b0227aa0877a4577f573dc96d78a858a8800492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 016/176] fix: write vendor of Vorbis comments always as UTF-8

---
 vorbis/vorbiscomment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 0a7ac6f..9abdc4c 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -391,7 +391,7 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
     static const string context("making Vorbis comment");
     string vendor;
     try {
-        m_vendor.toString(vendor);
+        m_vendor.toString(vendor, TagTextEncoding::Utf8);
     } catch (const ConversionException &) {
         diag.emplace_back(DiagLevel::Warning, "Can not convert the assigned vendor to string.", context);
     }
-- 
2.43.0


From 776c9247d357224ca1d92814ef2c0e9e6f47087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 017/176] fix: write all covers when making a Vorbis comment
 instead of only the first

---
 vorbis/vorbiscomment.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 9abdc4c..9638638 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -410,13 +410,17 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
     // write fields
     std::uint32_t fieldsWritten = 0;
     static const auto coverId = std::string(VorbisCommentIds::cover());
-    for (auto &i : fields()) {
-        if (i.first != coverId) { // write cover at the end
-            fieldsWritten += makeField(i.second, writer, flags, diag);
+    const auto covers = fields().equal_range(coverId);
+    for (auto i = fields().begin(), end = fields().end(); i != end;) {
+        if (i == covers.first && covers.first != covers.second) { // write covers at the end
+            i = covers.second;
+            continue;
         }
+        fieldsWritten += makeField(i->second, writer, flags, diag);
+        ++i;
     }
-    if (const auto cover = fields().find(coverId); cover != fields().end()) {
-        fieldsWritten += makeField(cover->second, writer, flags, diag);
+    for (auto i = covers.first; i != covers.second; ++i) {
+        fieldsWritten += makeField(i->second, writer, flags, diag);
     }
     // write field count
     const auto framingByteOffset = stream.tellp();
-- 
2.43.0


From e4298852d05d986274b9c439b307b340f75e64fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 018/176] fix: avoid reading beyond the end of
 METADATA_BLOCK_PICTURE fields without value

---
 vorbis/vorbiscommentfield.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index aebc010..142ceb7 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -74,6 +74,10 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
                 throw InvalidDataException();
             } else if (id() == VorbisCommentIds::cover()) {
                 // extract cover value
+                if (idSize == size) {
+                    diag.emplace_back(DiagLevel::Critical, "METADATA_BLOCK_PICTURE has no value.", context);
+                    throw InvalidDataException();
+                }
                 try {
                     auto decoded = decodeBase64(data.get() + idSize + 1, size - idSize - 1);
                     stringstream bufferStream(ios_base::in | ios_base::out | ios_base::binary);
-- 
2.43.0


From 8dfe5e7f527f0d9293ead2a5ede39e94c8217229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 019/176] fix: treat description of FLAC pictures as UTF-8

---
 flac/flacmetadata.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/flac/flacmetadata.cpp b/flac/flacmetadata.cpp
index b212a63..365a999 100644
--- a/flac/flacmetadata.cpp
+++ b/flac/flacmetadata.cpp
@@ -90,7 +90,7 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
     m_value.setMimeType(reader.readString(size));
     size = reader.readUInt32BE();
     CHECK_MAX_SIZE(size);
-    m_value.setDescription(reader.readString(size));
+    m_value.setDescription(reader.readString(size), TagTextEncoding::Utf8);
     // skip width, height, color depth, number of colors used
     inputStream.seekg(4 * 4, ios_base::cur);
     size = reader.readUInt32BE();
@@ -104,6 +104,21 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
     }
 }
 
+/// \cond
+/*!
+ * \brief Returns the description of the specified \a value as UTF-8 which is the encoding mandated by the FLAC specification.
+ */
+static std::string makeDescription(const TagValue &value)
+{
+    auto description = TagValue();
+    description.setDescription(value.description(), value.descriptionEncoding());
+    if (value.descriptionEncoding() != TagTextEncoding::Unspecified) {
+        description.convertDescriptionEncoding(TagTextEncoding::Utf8);
+    }
+    return description.description();
+}
+/// \endcond
+
 /*!
  * \brief Returns the number of bytes make() will write.
  * \remarks Any changes to the object will invalidate this value.
@@ -111,7 +126,7 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
  */
 std::uint32_t FlacMetaDataBlockPicture::requiredSize() const
 {
-    const auto requiredSize(32 + m_value.mimeType().size() + m_value.description().size() + m_value.dataSize());
+    const auto requiredSize(32 + m_value.mimeType().size() + makeDescription(m_value).size() + m_value.dataSize());
     if (requiredSize > numeric_limits<std::uint32_t>::max()) {
         throw InvalidDataException();
     }
@@ -124,7 +139,8 @@ std::uint32_t FlacMetaDataBlockPicture::requiredSize() const
  */
 void FlacMetaDataBlockPicture::make(ostream &outputStream)
 {
-    if (m_value.mimeType().size() > numeric_limits<std::uint32_t>::max() || m_value.description().size() > numeric_limits<std::uint32_t>::max()
+    const auto description = makeDescription(m_value);
+    if (m_value.mimeType().size() > numeric_limits<std::uint32_t>::max() || description.size() > numeric_limits<std::uint32_t>::max()
         || m_value.dataSize() > numeric_limits<std::uint32_t>::max()) {
         throw InvalidDataException();
     }
@@ -132,8 +148,8 @@ void FlacMetaDataBlockPicture::make(ostream &outputStream)
     writer.writeUInt32BE(pictureType());
     writer.writeUInt32BE(static_cast<std::uint32_t>(m_value.mimeType().size()));
     writer.writeString(m_value.mimeType());
-    writer.writeUInt32BE(static_cast<std::uint32_t>(m_value.description().size()));
-    writer.writeString(m_value.description());
+    writer.writeUInt32BE(static_cast<std::uint32_t>(description.size()));
+    writer.writeString(description);
     writer.writeUInt32BE(0); // skip width
     writer.writeUInt32BE(0); // skip height
     writer.writeUInt32BE(0); // skip color depth
-- 
2.43.0


From 340cfcddf951e8b7ad6ee392ba1f558a3b36f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 020/176] fix: treat names of Vorbis comment fields
 case-insensitively when handling covers and ratings

---
 vorbis/vorbiscommentfield.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index 142ceb7..c196f75 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -1,6 +1,8 @@
 #include "./vorbiscommentfield.h"
 #include "./vorbiscommentids.h"
 
+#include "../caseinsensitivecomparer.h"
+
 #include "../flac/flacmetadata.h"
 
 #include "../ogg/oggiterator.h"
@@ -42,6 +44,17 @@ VorbisCommentField::VorbisCommentField(const IdentifierType &id, const TagValue
 {
 }
 
+/// \cond
+/*!
+ * \brief Returns whether the specified field IDs are the same considering that field names are case-insensitive.
+ */
+static bool isSameId(std::string_view lhs, std::string_view rhs)
+{
+    const auto less = CaseInsensitiveStringComparer();
+    return !less(lhs, rhs) && !less(rhs, lhs);
+}
+/// \endcond
+
 /*!
  * \brief Internal implementation for parsing.
  */
@@ -72,7 +85,7 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("The field ID at ", static_cast<std::streamoff>(stream.tellg()), " is empty."), context);
                 throw InvalidDataException();
-            } else if (id() == VorbisCommentIds::cover()) {
+            } else if (isSameId(id(), VorbisCommentIds::cover())) {
                 // extract cover value
                 if (idSize == size) {
                     diag.emplace_back(DiagLevel::Critical, "METADATA_BLOCK_PICTURE has no value.", context);
@@ -103,7 +116,7 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
                 }
             } else if (id().size() + 1 < size) {
                 const auto str = std::string_view(data.get() + idSize + 1, size - idSize - 1);
-                if (id() == VorbisCommentIds::rating()) {
+                if (isSameId(id(), VorbisCommentIds::rating())) {
                     try {
                         // set rating as Popularity to preserve the scale information
                         value().assignPopularity(Popularity{ .rating = stringToNumber<double>(str), .scale = TagType::VorbisComment });
@@ -188,7 +201,7 @@ bool VorbisCommentField::make(BinaryWriter &writer, VorbisCommentFlags flags, Di
     try {
         // try to convert value to string
         string valueString;
-        if (id() == VorbisCommentIds::cover()) {
+        if (isSameId(id(), VorbisCommentIds::cover())) {
             if (flags & VorbisCommentFlags::NoCovers) {
                 return false;
             }
-- 
2.43.0


From 45c868d96404efede92e04dfa88f235ed88dad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 021/176] fix: initialize all members when constructing
 TagValue from a C-string

---
 tagvalue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index aaa0924..cfb825d 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -189,6 +189,8 @@ TagValue::TagValue(const char *text, std::size_t textSize, TagTextEncoding textE
  * \remarks Strips the BOM of the specified \a text.
  */
 TagValue::TagValue(const char *text, TagTextEncoding textEncoding, TagTextEncoding convertTo)
+    : m_descEncoding(TagTextEncoding::Latin1)
+    , m_flags(TagValueFlags::None)
 {
     assignText(text, std::strlen(text), textEncoding, convertTo);
 }
-- 
2.43.0


From ef147003fd3588e8e198447be631ee8187599701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 022/176] fix: copy flags and native data when copying a
 TagValue

---
 tagvalue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index cfb825d..2353eda 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -137,10 +137,11 @@ TagValue::TagValue(const TagValue &other)
     , m_desc(other.m_desc)
     , m_mimeType(other.m_mimeType)
     , m_locale(other.m_locale)
+    , m_nativeData(other.m_nativeData)
     , m_type(other.m_type)
     , m_encoding(other.m_encoding)
     , m_descEncoding(other.m_descEncoding)
-    , m_flags(TagValueFlags::None)
+    , m_flags(other.m_flags)
 {
     if (!other.isEmpty()) {
         m_ptr = make_unique<char[]>(m_size);
@@ -297,6 +298,7 @@ TagValue &TagValue::operator=(const TagValue &other)
     m_desc = other.m_desc;
     m_mimeType = other.m_mimeType;
     m_locale = other.m_locale;
+    m_nativeData = other.m_nativeData;
     m_flags = other.m_flags;
     m_encoding = other.m_encoding;
     m_descEncoding = other.m_descEncoding;
-- 
2.43.0


From 8ad9a64f7d78adffa9f35c332d95af36ad65c774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 023/176] fix: leave TagValue in a consistent state when moving
 from it

---
 tagvalue.cpp | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 2353eda..2cab3ee 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -149,7 +149,23 @@ TagValue::TagValue(const TagValue &other)
     }
 }
 
-TagValue::TagValue(TagValue &&other) = default;
+/*!
+ * \brief Moves the value of another TagValue into a new instance leaving \a other without data.
+ */
+TagValue::TagValue(TagValue &&other)
+    : m_ptr(std::move(other.m_ptr))
+    , m_size(std::exchange(other.m_size, 0))
+    , m_desc(std::move(other.m_desc))
+    , m_mimeType(std::move(other.m_mimeType))
+    , m_locale(std::move(other.m_locale))
+    , m_nativeData(std::move(other.m_nativeData))
+    , m_type(other.m_type)
+    , m_encoding(other.m_encoding)
+    , m_descEncoding(other.m_descEncoding)
+    , m_flags(other.m_flags)
+    , m_p(std::move(other.m_p))
+{
+}
 
 /*!
  * \brief Constructs an empty TagValue.
@@ -311,7 +327,27 @@ TagValue &TagValue::operator=(const TagValue &other)
     return *this;
 }
 
-TagValue &TagValue::operator=(TagValue &&other) = default;
+/*!
+ * \brief Moves the value of another TagValue into the current instance leaving \a other without data.
+ */
+TagValue &TagValue::operator=(TagValue &&other)
+{
+    if (this == &other) {
+        return *this;
+    }
+    m_ptr = std::move(other.m_ptr);
+    m_size = std::exchange(other.m_size, 0);
+    m_desc = std::move(other.m_desc);
+    m_mimeType = std::move(other.m_mimeType);
+    m_locale = std::move(other.m_locale);
+    m_nativeData = std::move(other.m_nativeData);
+    m_type = other.m_type;
+    m_encoding = other.m_encoding;
+    m_descEncoding = other.m_descEncoding;
+    m_flags = other.m_flags;
+    m_p = std::move(other.m_p);
+    return *this;
+}
 
 /// \cond
 TagTextEncoding pickUtfEncoding(TagTextEncoding encoding1, TagTextEncoding encoding2)
-- 
2.43.0


From 8272b0df5cbad2f2675701445e3fdaf07092c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 024/176] fix: don't return an empty string in
 TagValue::toWString() for values which are not text

---
 tagvalue.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 2cab3ee..b26b18f 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1163,7 +1163,7 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
     string regularStrRes;
     switch (m_type) {
     case TagDataType::Text:
-        if (encoding == TagTextEncoding::Unspecified || encoding == dataEncoding()) {
+        if (encoding == TagTextEncoding::Unspecified || dataEncoding() == TagTextEncoding::Unspecified || encoding == dataEncoding()) {
             result.assign(reinterpret_cast<const char16_t *>(m_ptr.get()), m_size / sizeof(char16_t));
         } else {
             StringData encodedData;
@@ -1215,7 +1215,7 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
         regularStrRes = toTimeSpan().toString();
         break;
     case TagDataType::DateTime:
-        regularStrRes = toDateTime().toString(DateTimeOutputFormat::IsoOmittingDefaultComponents);
+        regularStrRes = toDateTime().toIsoString();
         break;
     case TagDataType::Popularity:
         regularStrRes = toPopularity().toString();
@@ -1229,11 +1229,13 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
     default:
         throw ConversionException(argsToString("Can not convert ", tagDataTypeString(m_type), " to string."));
     }
-    if (encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian) {
-        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), result.size())
-                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), result.size());
-        result.assign(reinterpret_cast<const char16_t *>(encodedData.first.get()), encodedData.second / sizeof(const char16_t));
+    if (regularStrRes.empty()) {
+        result.clear();
+        return;
     }
+    const auto encodedData = encoding == TagTextEncoding::Utf16BigEndian ? convertUtf8ToUtf16BE(regularStrRes.data(), regularStrRes.size())
+                                                                         : convertUtf8ToUtf16LE(regularStrRes.data(), regularStrRes.size());
+    result.assign(reinterpret_cast<const char16_t *>(encodedData.first.get()), encodedData.second / sizeof(const char16_t));
 }
 
 /*!
-- 
2.43.0


From 9a30ac600b35345dd350959e57259ef4a50aeacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 025/176] fix: keep text when converting from or to an
 unspecified encoding

---
 tagvalue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index b26b18f..46c2cc0 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -963,7 +963,7 @@ void TagValue::convertDataEncoding(TagTextEncoding encoding)
     if (m_encoding == encoding) {
         return;
     }
-    if (type() == TagDataType::Text) {
+    if (type() == TagDataType::Text && m_size && encoding != TagTextEncoding::Unspecified && m_encoding != TagTextEncoding::Unspecified) {
         StringData encodedData;
         switch (encoding) {
         case TagTextEncoding::Utf8:
@@ -1015,7 +1015,7 @@ void TagValue::convertDescriptionEncoding(TagTextEncoding encoding)
     if (encoding == m_descEncoding) {
         return;
     }
-    if (m_desc.empty()) {
+    if (m_desc.empty() || encoding == TagTextEncoding::Unspecified || m_descEncoding == TagTextEncoding::Unspecified) {
         m_descEncoding = encoding;
         return;
     }
@@ -1260,7 +1260,7 @@ void TagValue::assignText(const char *text, std::size_t textSize, TagTextEncodin
         return;
     }
 
-    if (convertTo == TagTextEncoding::Unspecified || textEncoding == convertTo) {
+    if (convertTo == TagTextEncoding::Unspecified || textEncoding == TagTextEncoding::Unspecified || textEncoding == convertTo) {
         m_ptr = make_unique<char[]>(m_size = textSize);
         copy(text, text + textSize, m_ptr.get());
         return;
-- 
2.43.0


From 02a4331f57ecff591e5bf6abaab89461e88ecc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 026/176] fix: convert greatest unsigned integers to position
 and time span

---
 tagvalue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 46c2cc0..4f8ea38 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -744,7 +744,7 @@ PositionInSet TagValue::toPositionInSet() const
         switch (m_size) {
         case sizeof(std::uint64_t): {
             const auto track = *(reinterpret_cast<std::uint64_t *>(m_ptr.get()));
-            if (track < std::numeric_limits<std::int32_t>::max()) {
+            if (track <= std::numeric_limits<std::int32_t>::max()) {
                 return PositionInSet(static_cast<std::int32_t>(track));
             }
         }
@@ -783,7 +783,7 @@ TimeSpan TagValue::toTimeSpan() const
         switch (m_size) {
         case sizeof(std::uint64_t): {
             const auto ticks = *(reinterpret_cast<std::uint64_t *>(m_ptr.get()));
-            if (ticks < static_cast<std::uint64_t>(std::numeric_limits<std::int64_t>::max())) {
+            if (ticks <= static_cast<std::uint64_t>(std::numeric_limits<std::int64_t>::max())) {
                 return TimeSpan(static_cast<std::int64_t>(ticks));
             }
         }
-- 
2.43.0


From b3a22dc663a83284de389807744c60f818407976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 027/176] fix: parse positions with a trailing separator

---
 positioninset.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/positioninset.h b/positioninset.h
index 357781d..dacb6e3 100644
--- a/positioninset.h
+++ b/positioninset.h
@@ -53,8 +53,10 @@ PositionInSet::PositionInSet(const StringType &numericString)
     , m_total(0)
 {
     const auto separator = numericString.find('/');
-    if (separator == StringType::npos || separator == numericString.length() - 1) {
+    if (separator == StringType::npos) {
         m_position = CppUtilities::stringToNumber<std::int32_t, StringType>(numericString);
+    } else if (separator && separator == numericString.length() - 1) {
+        m_position = CppUtilities::stringToNumber<std::int32_t, StringType>(numericString.substr(0, separator));
     } else if (separator == 0) {
         m_total = CppUtilities::stringToNumber<std::int32_t, StringType>(numericString.substr(1));
     } else {
-- 
2.43.0


From d15d792a4d9f5fdd48d4d9a6b57f81af331ceae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 028/176] fix: make comparison of TagValue objects reflexive
 and symmetric

Compare UTF-16 text case-insensitively by characters, don't throw if the
description can not be converted, consider values with identical raw data
always equal and compare string representations using the same encoding.
---
 tagvalue.cpp | 120 +++++++++++++++++++++++----------------------------
 1 file changed, 53 insertions(+), 67 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 4f8ea38..73877e4 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -368,6 +368,49 @@ TagTextEncoding pickUtfEncoding(TagTextEncoding encoding1, TagTextEncoding encod
     }
     return TagTextEncoding::Utf8;
 }
+
+/*!
+ * \brief Returns whether the specified texts represent the same characters.
+ * \remarks Returns false if the texts can not be converted to a common encoding (unless the raw data is identical).
+ */
+static bool compareText(std::string_view text1, TagTextEncoding encoding1, std::string_view text2, TagTextEncoding encoding2, bool ignoreCase)
+{
+    // compare raw data directly if possible
+    if (encoding1 == TagTextEncoding::Unspecified) {
+        encoding1 = encoding2;
+    } else if (encoding2 == TagTextEncoding::Unspecified) {
+        encoding2 = encoding1;
+    }
+    const auto isUtf16 = encoding1 == TagTextEncoding::Utf16LittleEndian || encoding1 == TagTextEncoding::Utf16BigEndian;
+    if (text1.empty() || text2.empty()) {
+        return text1.empty() && text2.empty();
+    }
+    if (encoding1 == encoding2) {
+        if (!ignoreCase || !isUtf16 || text1 == text2) {
+            return TagValue::compareData(text1.data(), text1.size(), text2.data(), text2.size(), ignoreCase);
+        }
+    }
+
+    // compare UTF-8 or UTF-16 representation of strings avoiding unnecessary conversions; the case can only be ignored when comparing UTF-8
+    const auto utfEncodingToUse = ignoreCase ? TagTextEncoding::Utf8 : pickUtfEncoding(encoding1, encoding2);
+    const auto convert = [utfEncodingToUse](std::string_view text, TagTextEncoding encoding, std::string &buffer) {
+        if (encoding == utfEncodingToUse) {
+            return text;
+        }
+        const auto inputParameter = encodingParameter(encoding), outputParameter = encodingParameter(utfEncodingToUse);
+        const auto converted
+            = convertString(inputParameter.first, outputParameter.first, text.data(), text.size(), outputParameter.second / inputParameter.second);
+        buffer.assign(converted.first.get(), converted.second);
+        return std::string_view(buffer);
+    };
+    try {
+        auto buffer1 = std::string(), buffer2 = std::string();
+        const auto converted1 = convert(text1, encoding1, buffer1), converted2 = convert(text2, encoding2, buffer2);
+        return TagValue::compareData(converted1.data(), converted1.size(), converted2.data(), converted2.size(), ignoreCase);
+    } catch (const ConversionException &) {
+        return false;
+    }
+}
 /// \endcond
 
 /*!
@@ -401,79 +444,21 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
         }
 
         // check description which might use different encodings
-        if (m_descEncoding == other.m_descEncoding || m_descEncoding == TagTextEncoding::Unspecified
-            || other.m_descEncoding == TagTextEncoding::Unspecified || m_desc.empty() || other.m_desc.empty()) {
-            if (!compareData(m_desc, other.m_desc, options & TagValueComparisionFlags::CaseInsensitive)) {
-                return false;
-            }
-        } else {
-            const auto utfEncodingToUse = pickUtfEncoding(m_descEncoding, other.m_descEncoding);
-            StringData str1, str2;
-            const char *data1, *data2;
-            size_t size1, size2;
-            if (m_descEncoding != utfEncodingToUse) {
-                const auto inputParameter = encodingParameter(m_descEncoding), outputParameter = encodingParameter(utfEncodingToUse);
-                str1 = convertString(
-                    inputParameter.first, outputParameter.first, m_desc.data(), m_desc.size(), outputParameter.second / inputParameter.second);
-                data1 = str1.first.get();
-                size1 = str1.second;
-            } else {
-                data1 = m_desc.data();
-                size1 = m_desc.size();
-            }
-            if (other.m_descEncoding != utfEncodingToUse) {
-                const auto inputParameter = encodingParameter(other.m_descEncoding), outputParameter = encodingParameter(utfEncodingToUse);
-                str2 = convertString(inputParameter.first, outputParameter.first, other.m_desc.data(), other.m_desc.size(),
-                    outputParameter.second / inputParameter.second);
-                data2 = str2.first.get();
-                size2 = str2.second;
-            } else {
-                data2 = other.m_desc.data();
-                size2 = other.m_desc.size();
-            }
-            if (!compareData(data1, size1, data2, size2, options & TagValueComparisionFlags::CaseInsensitive)) {
-                return false;
-            }
+        if (!compareText(m_desc, m_descEncoding, other.m_desc, other.m_descEncoding, options & TagValueComparisionFlags::CaseInsensitive)) {
+            return false;
         }
     }
 
     try {
         // check for equality if both types are identical
         if (m_type == other.m_type) {
-            switch (m_type) {
-            case TagDataType::Text: {
-                // compare raw data directly if the encoding is the same
-                if (m_size != other.m_size && m_encoding == other.m_encoding) {
-                    return false;
-                }
-                if (m_encoding == other.m_encoding || m_encoding == TagTextEncoding::Unspecified
-                    || other.m_encoding == TagTextEncoding::Unspecified) {
-                    return compareData(other, options & TagValueComparisionFlags::CaseInsensitive);
-                }
-
-                // compare UTF-8 or UTF-16 representation of strings avoiding unnecessary conversions
-                const auto utfEncodingToUse = pickUtfEncoding(m_encoding, other.m_encoding);
-                string str1, str2;
-                const char *data1, *data2;
-                size_t size1, size2;
-                if (m_encoding != utfEncodingToUse) {
-                    str1 = toString(utfEncodingToUse);
-                    data1 = str1.data();
-                    size1 = str1.size();
-                } else {
-                    data1 = m_ptr.get();
-                    size1 = m_size;
-                }
-                if (other.m_encoding != utfEncodingToUse) {
-                    str2 = other.toString(utfEncodingToUse);
-                    data2 = str2.data();
-                    size2 = str2.size();
-                } else {
-                    data2 = other.m_ptr.get();
-                    size2 = other.m_size;
-                }
-                return compareData(data1, size1, data2, size2, options & TagValueComparisionFlags::CaseInsensitive);
+            // consider identical raw data always equal, even if it is not a valid value of the particular type
+            if (m_type != TagDataType::Text && compareData(other)) {
+                return true;
             }
+            switch (m_type) {
+            case TagDataType::Text:
+                return compareText(data(), m_encoding, other.data(), other.m_encoding, options & TagValueComparisionFlags::CaseInsensitive);
             case TagDataType::PositionInSet:
                 return toPositionInSet() == other.toPositionInSet();
             case TagDataType::StandardGenreIndex:
@@ -524,7 +509,8 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
         }
 
         // handle other types where an implicit conversion to string can be done by comparing the string representation
-        return compareData(toString(), other.toString(m_encoding), options & TagValueComparisionFlags::CaseInsensitive);
+        return compareData(
+            toString(TagTextEncoding::Utf8), other.toString(TagTextEncoding::Utf8), options & TagValueComparisionFlags::CaseInsensitive);
 
     } catch (const ConversionException &) {
         return false;
-- 
2.43.0


From 147195413a8f0fadea40afe37544198b1a517a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:06 +0000
Subject: [PATCH 029/176] fix: don't consider empty TagValue objects equal to
 the integer zero

---
 tagvalue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 73877e4..4c38879 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -494,6 +494,10 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
         }
 
         // handle types where an implicit conversion to the specific type can be done
+        const auto isInteger = [](TagDataType type) { return type == TagDataType::Integer || type == TagDataType::UnsignedInteger; };
+        if ((isInteger(m_type) || isInteger(other.m_type)) && isEmpty() != other.isEmpty()) {
+            return false; // the integer 0 is not equal to an empty value
+        }
         if (m_type == TagDataType::Integer || other.m_type == TagDataType::Integer) {
             return toInteger() == other.toInteger();
         } else if (m_type == TagDataType::UnsignedInteger || other.m_type == TagDataType::UnsignedInteger) {
-- 
2.43.0


From 88fd3142d6da87ad0f341bda69c2a949b07ccee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 030/176] fix: refuse converting negative integers to date time

---
 tagvalue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 4c38879..543f939 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -805,6 +805,10 @@ DateTime TagValue::toDateTime() const
         }
     }
     case TagDataType::Integer:
+        if (m_size == sizeof(std::int32_t) && *(reinterpret_cast<std::int32_t *>(m_ptr.get())) < 0) {
+            throw ConversionException("Can not convert negative value to date time.");
+        }
+        [[fallthrough]];
     case TagDataType::DateTime:
     case TagDataType::UnsignedInteger:
         if (m_size == sizeof(std::int32_t)) {
-- 
2.43.0


From 82dec3b241939db9e3e20e8bb98b46a8f2c96bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 031/176] fix: write predefined genre of MP4 tags starting from
 one

---
 mp4/mp4tagfield.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index bffd89b..be67699 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -681,7 +681,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                     break;
                 }
                 case Mp4TagAtomIds::PreDefinedGenre:
-                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex()));
+                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1)); // the stored index starts at 1
                     break;
                 default:
                     if (writeSpecialInteger(m_field.id(), value, m_writer)) {
-- 
2.43.0


From 7a1b97bbdaeb5917ec0281474329c635d745ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 032/176] fix: write UTF-16 text of MP4 tags as big endian

---
 mp4/mp4tagfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index be67699..b140c57 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -628,8 +628,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 }
                 break;
             case RawDataType::Utf16:
-                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16LittleEndian) {
-                    m_writer.writeString(value.toString(TagTextEncoding::Utf16LittleEndian));
+                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16BigEndian) {
+                    m_writer.writeString(value.toString(TagTextEncoding::Utf16BigEndian));
                 }
                 break;
             case RawDataType::BeSignedInt: {
-- 
2.43.0


From f6f46759a4b3e0c00b72419b6c0bd10d9df60d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 033/176] fix: read big unsigned integers from MP4 tags

---
 mp4/mp4tagfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index b140c57..057c2ad 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -218,8 +218,8 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     } else if (dataAtom->dataSize() == (8 + 1)) {
                         number = reader.readByte();
                     }
-                    if (number <= static_cast<std::uint64_t>(std::numeric_limits<int>::max())
-                        && !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
+                    if (number > static_cast<std::uint64_t>(std::numeric_limits<int>::max())
+                        || !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
                         val->assignUnsignedInteger(number);
                     }
                     break;
-- 
2.43.0


From 324247bdcfaaae668c944bba999f55f26cc982f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 034/176] fix: accept short mean atoms in MP4 tags

---
 mp4/mp4tagfield.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 057c2ad..76c4371 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -262,7 +262,7 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     }
                 }
             } else if (dataAtom->id() == Mp4AtomIds::Mean) {
-                if (dataAtom->dataSize() < 8) {
+                if (dataAtom->dataSize() < 4) {
                     diag.emplace_back(DiagLevel::Warning,
                         "Truncated child atom \"mean\" in tag atom (ilst child) found. It will be ignored and discarded when applying changes.",
                         context);
-- 
2.43.0


From 33c921ce0095aa4af997be3c1df1889cd030b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 035/176] fix: preserve type of GIF covers when writing MP4
 tags

---
 mp4/mp4tagfield.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 76c4371..114e913 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -469,6 +469,8 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
             return RawDataType::Png;
         } else if (mimeType == "image/bmp") {
             return RawDataType::Bmp;
+        } else if (mimeType == "image/gif") {
+            return RawDataType::Gif;
         }
     } break;
     case Extended:
@@ -658,6 +660,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 }
                 break;
             }
+            case RawDataType::Gif:
             case RawDataType::Bmp:
             case RawDataType::Jpeg:
             case RawDataType::Png:
-- 
2.43.0


From 8e4a1c3a7169cff2337f2e809f1badd4cdc2ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:51 +0000
Subject: [PATCH 036/176] fix: read integers stored with 3 or 8 bytes from MP4
 tags

---
 mp4/mp4tagfield.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 114e913..43129e7 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -189,11 +189,29 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                 }
                 case RawDataType::BeSignedInt: {
                     auto number = int();
+                    if (dataAtom->dataSize() == (8 + 8)) {
+                        const auto bigNumber = reader.readInt64BE();
+                        if (bigNumber > std::numeric_limits<int>::max()) {
+                            val->assignUnsignedInteger(static_cast<std::uint64_t>(bigNumber));
+                            break;
+                        }
+                        if (bigNumber < std::numeric_limits<int>::min()) {
+                            diag.emplace_back(DiagLevel::Critical, "Data atom stores an integer which is too small to be handled.", context);
+                            break;
+                        }
+                        number = static_cast<int>(bigNumber);
+                        if (!assignSpecialInteger(ilstChild, number, *val)) {
+                            val->assignInteger(number);
+                        }
+                        break;
+                    }
                     if (dataAtom->dataSize() > (8 + 4)) {
                         diag.emplace_back(DiagLevel::Warning, "Data atom stores integer of invalid size. Trying to read data anyway.", context);
                     }
                     if (dataAtom->dataSize() >= (8 + 4)) {
                         number = reader.readInt32BE();
+                    } else if (dataAtom->dataSize() == (8 + 3)) {
+                        number = reader.readInt24BE();
                     } else if (dataAtom->dataSize() == (8 + 2)) {
                         number = reader.readInt16BE();
                     } else if (dataAtom->dataSize() == (8 + 1)) {
@@ -213,6 +231,8 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                         number = reader.readUInt64BE();
                     } else if (dataAtom->dataSize() >= (8 + 4)) {
                         number = reader.readUInt32BE();
+                    } else if (dataAtom->dataSize() == (8 + 3)) {
+                        number = reader.readUInt24BE();
                     } else if (dataAtom->dataSize() == (8 + 2)) {
                         number = reader.readUInt16BE();
                     } else if (dataAtom->dataSize() == (8 + 1)) {
-- 
2.43.0


From 540df35b3de057f786633c980d0d61788dc90c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:51 +0000
Subject: [PATCH 037/176] fix: handle great and negative positions when writing
 MP4 tags

---
 mp4/mp4tagfield.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 43129e7..27d0aa6 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -692,9 +692,10 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 case Mp4TagAtomIds::TrackPosition:
                 case Mp4TagAtomIds::DiskPosition: {
                     PositionInSet pos = value.toPositionInSet();
-                    m_writer.writeInt32BE(pos.position());
-                    if (pos.total() <= numeric_limits<std::int16_t>::max()) {
-                        m_writer.writeInt16BE(static_cast<std::int16_t>(pos.total()));
+                    if (pos.position() >= 0 && pos.position() <= numeric_limits<std::uint16_t>::max() && pos.total() >= 0
+                        && pos.total() <= numeric_limits<std::uint16_t>::max()) {
+                        m_writer.writeInt32BE(pos.position());
+                        m_writer.writeUInt16BE(static_cast<std::uint16_t>(pos.total()));
                     } else {
                         throw ConversionException(
                             "Integer can not be assigned to the field with the id \"" % interpretIntegerAsString<std::uint32_t>(m_field.id())
-- 
2.43.0


From c267c808160bc928a36e7fdc83d73d40d14ddb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:51 +0000
Subject: [PATCH 038/176] fix: do not write raw value if conversion yields
 empty string in MP4 tags

---
 mp4/mp4tagfield.cpp | 18 +++++++++++++-----
 mp4/mp4tagfield.h   |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 27d0aa6..82e4e12 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -643,15 +643,20 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
     try {
         if (!value.isEmpty()) { // there might be only mean and name info, but no data
             data.convertedData.exceptions(std::stringstream::failbit | std::stringstream::badbit);
+            data.isConverted = true;
             switch (data.rawType) {
             case RawDataType::Utf8:
                 if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf8) {
                     m_writer.writeString(value.toString(TagTextEncoding::Utf8));
+                } else {
+                    data.isConverted = false;
                 }
                 break;
             case RawDataType::Utf16:
                 if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16BigEndian) {
                     m_writer.writeString(value.toString(TagTextEncoding::Utf16BigEndian));
+                } else {
+                    data.isConverted = false;
                 }
                 break;
             case RawDataType::BeSignedInt: {
@@ -684,7 +689,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
             case RawDataType::Bmp:
             case RawDataType::Jpeg:
             case RawDataType::Png:
-                break; // leave converted data empty to write original data later
+                data.isConverted = false; // write original data later
+                break;
             default:
                 switch (m_field.id()) {
                 // track number and disk number are exceptions
@@ -711,7 +717,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                     if (writeSpecialInteger(m_field.id(), value, m_writer)) {
                         break;
                     }
-                    // leave converted data empty to write original data later
+                    data.isConverted = false; // write original data later
                 }
             }
         }
@@ -728,7 +734,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
     // calculate data size; assign raw data
     if (value.isEmpty()) {
         return data.size = 0;
-    } else if (data.convertedData.tellp()) {
+    } else if (data.isConverted) {
         data.size = static_cast<std::size_t>(data.convertedData.tellp());
     } else {
         data.rawData = std::string_view(value.dataPointer(), data.size = value.dataSize());
@@ -775,9 +781,11 @@ void Mp4TagFieldMaker::make(ostream &stream)
         m_writer.writeUInt24BE(data.rawType);
         m_writer.writeUInt16BE(data.countryIndicator);
         m_writer.writeUInt16BE(data.languageIndicator);
-        if (data.convertedData.tellp()) {
+        if (data.isConverted) {
             // write converted data
-            stream << data.convertedData.rdbuf();
+            if (data.size > 16) {
+                stream << data.convertedData.rdbuf();
+            }
         } else {
             // no conversion was needed, write data directly from tag value
             stream.write(data.rawData.data(), static_cast<std::streamoff>(data.rawData.size()));
diff --git a/mp4/mp4tagfield.h b/mp4/mp4tagfield.h
index a491763..1d4239b 100644
--- a/mp4/mp4tagfield.h
+++ b/mp4/mp4tagfield.h
@@ -76,6 +76,7 @@ private:
         Data(Data &&) = default;
         std::string_view rawData;
         std::stringstream convertedData;
+        bool isConverted = false;
         std::uint64_t size = 0;
         std::uint32_t rawType = 0;
         std::uint16_t countryIndicator = 0;
-- 
2.43.0


From 2ef0981258d0a37849de85a131d4280d53b48161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 039/176] fix: use suitable raw data type for each data atom
 when making MP4 tags

---
 mp4/mp4tagfield.cpp | 65 ++++++++++++++++++++++++++++++++++++++-------
 mp4/mp4tagfield.h   |  4 +--
 2 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 82e4e12..163e102 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -144,10 +144,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     diag.emplace_back(DiagLevel::Warning,
                         "The version indicator byte is not zero, the tag atom might be unsupported and hence not be parsed correctly.", context);
                 }
-                setTypeInfo(*rawDataType = reader.readUInt24BE());
+                *rawDataType = reader.readUInt24BE();
+                if (dataAtomFound == 1) {
+                    setTypeInfo(*rawDataType);
+                }
                 try { // try to show warning if parsed raw data type differs from expected raw data type for this atom id
                     const vector<std::uint32_t> expectedRawDataTypes = this->expectedRawDataTypes();
-                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), m_parsedRawDataType) == expectedRawDataTypes.cend()) {
+                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), *rawDataType) == expectedRawDataTypes.cend()) {
                         diag.emplace_back(DiagLevel::Warning, "Unexpected data type indicator found.", context);
                     }
                 } catch (const Failure &) {
@@ -160,13 +163,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                 case RawDataType::Utf16:
                     stream.seekg(static_cast<streamoff>(dataAtom->dataOffset() + 8));
                     val->assignText(reader.readString(dataAtom->dataSize() - 8),
-                        (m_parsedRawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
+                        (*rawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
                     break;
                 case RawDataType::Gif:
                 case RawDataType::Jpeg:
                 case RawDataType::Png:
                 case RawDataType::Bmp: {
-                    switch (m_parsedRawDataType) {
+                    switch (*rawDataType) {
                     case RawDataType::Gif:
                         val->setMimeType("image/gif");
                         break;
@@ -571,9 +574,10 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
     m_totalSize = 8 + (m_field.name().empty() ? 0 : (12 + m_field.name().size())) + (m_field.mean().empty() ? 0 : (12 + m_field.mean().size()));
 
     // prepare making data atom and calculate the expected size
-    m_totalSize += prepareDataAtom(field.value(), field.countryIndicator(), field.languageIndicator(), context, diag);
+    m_totalSize += prepareDataAtom(field.value(), field.isTypeInfoAssigned() ? &field.typeInfo() : nullptr, field.countryIndicator(), field.languageIndicator(), context, diag);
     for (const auto &additionalData : m_field.additionalData()) {
-        m_totalSize += prepareDataAtom(additionalData.value, additionalData.countryIndicator, additionalData.languageIndicator, context, diag);
+        m_totalSize += prepareDataAtom(additionalData.value, additionalData.rawDataType != RawDataType::Reserved ? &additionalData.rawDataType : nullptr,
+            additionalData.countryIndicator, additionalData.languageIndicator, context, diag);
     }
 
     if (m_totalSize > numeric_limits<std::uint32_t>::max()) {
@@ -606,13 +610,52 @@ static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue
     }
     return false;
 }
+
+static bool isRawData(const TagValue &value)
+{
+    switch (value.type()) {
+    case TagDataType::Picture:
+    case TagDataType::Binary:
+    case TagDataType::Undefined:
+        return true;
+    default:
+        return false;
+    }
+}
+
+static bool isRawDataTypeSuitable(std::underlying_type_t<Mp4TagAtomIds::KnownValue> fieldId, std::uint32_t rawDataType, const TagValue &value)
+{
+    if (fieldId == Mp4TagAtomIds::Cover) {
+        // use specified type only if there's no MIME type
+        return value.mimeType().empty();
+    }
+    switch (rawDataType) {
+    case RawDataType::Utf8:
+    case RawDataType::Utf16:
+    case RawDataType::BeSignedInt:
+    case RawDataType::BeUnsignedInt:
+        return !isRawData(value);
+    default:
+        switch (fieldId) {
+        case Mp4TagAtomIds::TrackPosition:
+        case Mp4TagAtomIds::DiskPosition:
+        case Mp4TagAtomIds::PreDefinedGenre:
+        case Mp4TagAtomIds::MediaType:
+        case Mp4TagAtomIds::Rating:
+            return true;
+        default:
+            return isRawData(value);
+        }
+    }
+}
 /// \endcond
 
 /*!
  * \brief Prepares making a data atom for the specified \a value.
+ * \remarks The \a specifiedRawType (e.g. determined when parsing the field) is used unless it does not fit to \a value.
  */
-std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
-    const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
+std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, const std::uint32_t *specifiedRawType, std::uint16_t countryIndicator,
+    std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
 {
     // add new data entry
     auto &data = m_data.emplace_back();
@@ -625,7 +668,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
 
     try {
         // try to use appropriate raw data type
-        data.rawType = m_field.isTypeInfoAssigned() ? m_field.typeInfo() : m_field.appropriateRawDataTypeForValue(value);
+        data.rawType
+            = specifiedRawType && isRawDataTypeSuitable(m_field.id(), *specifiedRawType, value) ? *specifiedRawType : m_field.appropriateRawDataTypeForValue(value);
     } catch (const Failure &) {
         // unable to obtain appropriate raw data type
         if (m_field.id() == Mp4TagAtomIds::Cover) {
@@ -633,6 +677,9 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
             data.rawType = RawDataType::Jpeg;
             diag.emplace_back(
                 DiagLevel::Warning, "It was not possible to find an appropriate raw data type id. JPEG image will be assumed.", context);
+        } else if (isRawData(value)) {
+            // write data as-is
+            data.rawType = RawDataType::Reserved;
         } else {
             // assume UTF-8 text
             data.rawType = RawDataType::Utf8;
diff --git a/mp4/mp4tagfield.h b/mp4/mp4tagfield.h
index 1d4239b..6741f83 100644
--- a/mp4/mp4tagfield.h
+++ b/mp4/mp4tagfield.h
@@ -85,8 +85,8 @@ private:
     /// \endcond
 
     Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag);
-    std::uint64_t prepareDataAtom(
-        const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
+    std::uint64_t prepareDataAtom(const TagValue &value, const std::uint32_t *specifiedRawType, std::uint16_t countryIndicator,
+        std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
 
     Mp4TagField &m_field;
     CppUtilities::BinaryWriter m_writer;
-- 
2.43.0


From d976f05f6a5aa8a10d8dc64eca685b5eaf0356b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 040/176] fix: write further values of MP4 tag fields if the
 first value is empty

---
 mp4/mp4tag.cpp      | 12 +++++++++++-
 mp4/mp4tagfield.cpp |  3 ++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index eb230b6..cd146b6 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -8,6 +8,8 @@
 #include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/binarywriter.h>
 
+#include <algorithm>
+
 using namespace std;
 using namespace CppUtilities;
 
@@ -468,6 +470,14 @@ void Mp4Tag::make(ostream &stream, Diagnostics &diag)
  * An instance can be obtained using the Mp4Tag::prepareMaking() method.
  */
 
+/// \cond
+static bool hasNonEmptyValue(const Mp4TagField &field)
+{
+    return !field.value().isEmpty()
+        || std::any_of(field.additionalData().cbegin(), field.additionalData().cend(), [](const auto &data) { return !data.value.isEmpty(); });
+}
+/// \endcond
+
 /*!
  * \brief Prepares making the specified \a tag.
  * \sa See Mp4Tag::prepareMaking() for more information.
@@ -486,7 +496,7 @@ Mp4TagMaker::Mp4TagMaker(Mp4Tag &tag, Diagnostics &diag)
 {
     m_maker.reserve(m_tag.fields().size());
     for (auto &field : m_tag.fields()) {
-        if (!field.second.value().isEmpty() && (!m_omitPreDefinedGenre || field.first != Mp4TagAtomIds::PreDefinedGenre)) {
+        if (hasNonEmptyValue(field.second) && (!m_omitPreDefinedGenre || field.first != Mp4TagAtomIds::PreDefinedGenre)) {
             try {
                 m_ilstSize += m_maker.emplace_back(field.second.prepareMaking(diag)).requiredSize();
             } catch (const Failure &) {
diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 163e102..1f5c844 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -565,7 +565,8 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
         throw InvalidDataException();
     }
     const string context("making MP4 tag field " + Mp4TagField::fieldIdToString(m_field.id()));
-    if (m_field.value().isEmpty() && (!m_field.mean().empty() || !m_field.name().empty())) {
+    if (m_field.value().isEmpty() && (!m_field.mean().empty() || !m_field.name().empty())
+        && std::all_of(m_field.additionalData().cbegin(), m_field.additionalData().cend(), [](const auto &data) { return data.value.isEmpty(); })) {
         diag.emplace_back(DiagLevel::Critical, "No tag value assigned.", context);
         throw InvalidDataException();
     }
-- 
2.43.0


From 976996feb66814c591de2570d42cd2e724601cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 041/176] fix: set multiple values of extended MP4 tag fields

---
 mp4/mp4tag.cpp | 60 +++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index cd146b6..260838a 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -312,36 +312,42 @@ bool Mp4Tag::setValue(KnownField field, const TagValue &value)
 
 bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 {
-    if (const auto extendedId = Mp4ExtendedFieldId(field)) {
-        auto valuesIterator = values.cbegin();
-        auto range = fields().equal_range(Mp4TagAtomIds::Extended);
-        for (; valuesIterator != values.cend() && range.first != range.second;) {
-            if (!valuesIterator->isEmpty()) {
-                auto &extendedField = range.first->second;
-                if (extendedId.matches(extendedField) && (!extendedId.updateOnly || !extendedField.value().isEmpty())) {
-                    extendedField.clearValue();
-                    extendedField.setValue(*valuesIterator);
-                    // note: Not sure which extended tag fields support multiple data atoms and which don't. Let's simply use
-                    //       only one data atom per extended field here and get rid of any possibly assigned additional data
-                    //       atoms.
-                    ++valuesIterator;
-                }
-                ++range.first;
-            } else {
-                ++valuesIterator;
-            }
-        }
-        for (; valuesIterator != values.cend(); ++valuesIterator) {
-            if (valuesIterator->isEmpty()) {
-                fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
-                    std::forward_as_tuple(extendedId.mean, extendedId.name, *valuesIterator));
-            }
+    if (field == KnownField::Genre) {
+        // ensure the genre is not denoted via both, the regular and the predefined genre field
+        fields().erase(Mp4TagAtomIds::PreDefinedGenre);
+    }
+    const auto extendedId = Mp4ExtendedFieldId(field);
+    if (!extendedId) {
+        return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
+    }
+    auto valuesIterator = values.cbegin();
+    const auto skipEmptyValues = [&] {
+        for (; valuesIterator != values.cend() && valuesIterator->isEmpty(); ++valuesIterator)
+            ;
+        return valuesIterator != values.cend();
+    };
+    auto range = fields().equal_range(Mp4TagAtomIds::Extended);
+    for (; range.first != range.second; ++range.first) {
+        auto &extendedField = range.first->second;
+        if (!extendedId.matches(extendedField) || (extendedId.updateOnly && extendedField.value().isEmpty())) {
+            continue;
         }
-        for (; range.first != range.second; ++range.first) {
-            range.first->second.clearValue();
+        // note: Not sure which extended tag fields support multiple data atoms and which don't. Let's simply use
+        //       only one data atom per extended field here and get rid of any possibly assigned additional data
+        //       atoms.
+        extendedField.clearValue();
+        if (skipEmptyValues()) {
+            extendedField.setValue(*valuesIterator++);
         }
     }
-    return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
+    if (extendedId.updateOnly) {
+        return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
+    }
+    for (; skipEmptyValues(); ++valuesIterator) {
+        fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
+            std::forward_as_tuple(extendedId.mean, extendedId.name, *valuesIterator));
+    }
+    return true;
 }
 
 /*!
-- 
2.43.0


From fa8dd3d77adab59ea9888f694fbd4bb43abe8e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 042/176] fix: consider predefined genre and extended fields of
 MP4 tags consistently

---
 mp4/mp4tag.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 260838a..ec2b7d1 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -87,15 +87,15 @@ const TagValue &Mp4Tag::value(KnownField field) const
 std::vector<const TagValue *> Mp4Tag::values(KnownField field) const
 {
     auto values = FieldMapBasedTag<Mp4Tag>::values(field);
-    if (const auto extendedId = Mp4ExtendedFieldId(field)) {
+    if (values.empty() && field == KnownField::Genre) {
+        return FieldMapBasedTag<Mp4Tag>::values(Mp4TagAtomIds::PreDefinedGenre);
+    }
+    if (const auto extendedId = Mp4ExtendedFieldId(field); extendedId && (values.empty() || !extendedId.updateOnly)) {
         auto range = fields().equal_range(Mp4TagAtomIds::Extended);
         for (auto i = range.first; i != range.second; ++i) {
             const auto &extendedField = i->second;
             if (extendedId.matches(extendedField)) {
-                values.emplace_back(&extendedField.value());
-                for (const auto &additionalData : extendedField.additionalData()) {
-                    values.emplace_back(&additionalData.value);
-                }
+                internallyGetValuesFromField(extendedField, values);
             }
         }
     }
@@ -375,6 +375,9 @@ bool Mp4Tag::hasField(KnownField field) const
     switch (field) {
     case KnownField::Genre:
         return FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::PreDefinedGenre) || FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::Genre);
+    case KnownField::EncoderSettings:
+    case KnownField::RecordLabel:
+        return !values(field).empty();
     default:
         return FieldMapBasedTag<Mp4Tag>::hasField(field);
     }
-- 
2.43.0


From fb856c56067b482805092b45f7f28070de4a9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 043/176] fix: do not add empty extended fields to MP4 tags

---
 mp4/mp4tag.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index ec2b7d1..00bbfed 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -366,6 +366,9 @@ bool Mp4Tag::setValue(std::string_view mean, std::string_view name, const TagVal
             return true;
         }
     }
+    if (value.isEmpty()) {
+        return false;
+    }
     fields().insert(make_pair(Mp4TagAtomIds::Extended, FieldType(mean, name, value)));
     return true;
 }
-- 
2.43.0


From 942ebc2a58735cc1cb3c7a5ff93f97d7f1818437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 044/176] fix: write predefined genre of MP4 tags with the
 expected data type

---
 mp4/mp4tagfield.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 1f5c844..9631fa2 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -478,8 +478,8 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
         break;
     case TrackPosition:
     case DiskPosition:
-        return RawDataType::Reserved;
     case PreDefinedGenre:
+        return RawDataType::Reserved;
     case Bpm:
     case Rating:
     case Mp4TagAtomIds::MediaType:
@@ -591,6 +591,9 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
 static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue> fieldId, const TagValue &value, CppUtilities::BinaryWriter &writer)
 {
     switch (fieldId) {
+    case Mp4TagAtomIds::PreDefinedGenre:
+        writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1)); // the stored index starts at 1
+        return true;
     case Mp4TagAtomIds::MediaType:
         if (value.type() == TagDataType::Text) {
             if (const auto id = mp4TagMediaTypeId(value.toString(TagTextEncoding::Utf8)); id.has_value()) {
@@ -758,9 +761,6 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, const std
                     m_writer.writeUInt16BE(0);
                     break;
                 }
-                case Mp4TagAtomIds::PreDefinedGenre:
-                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1)); // the stored index starts at 1
-                    break;
                 default:
                     if (writeSpecialInteger(m_field.id(), value, m_writer)) {
                         break;
-- 
2.43.0


From 82ae2974fcb72666daadcf138d3d52eaec04ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 045/176] fix: write media type and rating of MP4 tags as
 integer

---
 mp4/mp4tagfield.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 9631fa2..7a0ccb2 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -644,8 +644,6 @@ static bool isRawDataTypeSuitable(std::underlying_type_t<Mp4TagAtomIds::KnownVal
         case Mp4TagAtomIds::TrackPosition:
         case Mp4TagAtomIds::DiskPosition:
         case Mp4TagAtomIds::PreDefinedGenre:
-        case Mp4TagAtomIds::MediaType:
-        case Mp4TagAtomIds::Rating:
             return true;
         default:
             return isRawData(value);
-- 
2.43.0


From 750fb9270eaa50a3b06c422709a58d037ce812f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 046/176] fix: compute size of Matroska tag fields with binary
 value

---
 matroska/matroskatagfield.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 581e35d..1be0502 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -238,6 +238,7 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
         = m_languageIETF.empty() ? 0 : (2 + EbmlElement::calculateSizeDenotationLength(m_languageIETF.size()) + m_languageIETF.size());
 
     // compute "SimpleTag" element size
+    const auto valueSize = m_isBinary ? m_field.value().dataSize() : m_stringValue.size();
     m_simpleTagSize =
         // "TagName" element
         +2 + EbmlElement::calculateSizeDenotationLength(m_field.id().size())
@@ -248,8 +249,8 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
         // "TagDefault" element
         + 2 + 1
         + 1
-        // "TagString" element
-        + 2 + EbmlElement::calculateSizeDenotationLength(m_stringValue.size()) + m_stringValue.size();
+        // "TagString"/"TagBinary" element
+        + 2 + EbmlElement::calculateSizeDenotationLength(valueSize) + valueSize;
 
     // compute size of nested tags
     for (auto &nestedField : field.nestedFields()) {
-- 
2.43.0


From 9d681d96bccff40b3b93bfd254fdd4ca8f5a4bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 047/176] fix: convert rating of Matroska tags only once the
 whole field has been parsed

---
 matroska/matroskatagfield.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 1be0502..e002826 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -137,14 +137,14 @@ void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag,
                     "\"SimpleTag\"-element contains unknown element ", child->idToString(), " at ", child->startOffset(), ". It will be ignored."),
                 context);
         }
+    }
 
-        // set rating as Popularity to preserve the scale information
-        if (id() == MatroskaTagIds::rating()) {
-            try {
-                value().assignPopularity(Popularity{ .rating = stringToNumber<double>(value().toString()), .scale = TagType::MatroskaTag });
-            } catch (const ConversionException &) {
-                diag.emplace_back(DiagLevel::Warning, argsToString("The rating is not a number."), context);
-            }
+    // set rating as Popularity to preserve the scale information
+    if (id() == MatroskaTagIds::rating() && !value().isEmpty()) {
+        try {
+            value().assignPopularity(Popularity{ .rating = stringToNumber<double>(value().toString()), .scale = TagType::MatroskaTag });
+        } catch (const ConversionException &) {
+            diag.emplace_back(DiagLevel::Warning, argsToString("The rating is not a number."), context);
         }
     }
 }
-- 
2.43.0


From 394b8785b039861e1d8775c8ea54e388b32604ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 048/176] fix: preserve Matroska tag fields which have only
 nested fields

---
 matroska/matroskatag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskatag.cpp b/matroska/matroskatag.cpp
index 1c3c20f..e4b8317 100644
--- a/matroska/matroskatag.cpp
+++ b/matroska/matroskatag.cpp
@@ -460,7 +460,7 @@ MatroskaTagMaker::MatroskaTagMaker(MatroskaTag &tag, Diagnostics &diag)
     m_maker.reserve(m_tag.fields().size());
     m_simpleTagsSize = 0; // including ID and size
     for (auto &pair : m_tag.fields()) {
-        if (pair.second.value().isNull()) {
+        if (pair.second.value().isNull() && pair.second.nestedFields().empty()) {
             continue;
         }
         try {
-- 
2.43.0


From 1f336bb84ca3dc6adda77d6e015d2353003d85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 049/176] fix: assume Matroska tag fields without TagDefault
 element to be default

---
 matroska/matroskatagfield.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index e002826..2261c23 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -139,6 +139,11 @@ void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag,
         }
     }
 
+    // assume the default value specified by the Matroska specification if "TagDefault" is absent
+    if (!tagDefaultFound) {
+        setDefault(true);
+    }
+
     // set rating as Popularity to preserve the scale information
     if (id() == MatroskaTagIds::rating() && !value().isEmpty()) {
         try {
-- 
2.43.0


From 6223b4e68d4496680e9ffffca319cb343d068872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:31 +0000
Subject: [PATCH 050/176] fix: check signature of ID3v2 footer at the right
 offset

---
 id3/id3v2tag.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 2eb6a0f..033684f 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -648,9 +648,10 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     if (!hasFooter()) {
         return;
     }
-    if (maximalSize && m_size + 10 < maximalSize) {
+    if (!maximalSize || m_size + 10u <= maximalSize) {
         // the footer does not provide additional information, just check the signature
-        stream.seekg(static_cast<streamoff>(startOffset + (m_size += 10)));
+        stream.seekg(static_cast<streamoff>(startOffset + m_size));
+        m_size += 10;
         if (reader.readUInt24LE() != 0x494433u) {
             diag.emplace_back(DiagLevel::Critical, "Footer signature is invalid.", context);
         }
-- 
2.43.0


From 00cca0a9f000fc725009bd9eeedd7a09c084b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:31 +0000
Subject: [PATCH 051/176] fix: do not denote a footer when writing ID3v2 tags
 without one

---
 id3/id3v2tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 033684f..7912858 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -898,8 +898,8 @@ void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostic
     // -> version
     writer.writeByte(m_tag.majorVersion());
     writer.writeByte(m_tag.revisionVersion());
-    // -> flags, but without extended header or compression bit set
-    writer.writeByte(m_tag.flags() & 0xBF);
+    // -> flags, but without extended header or compression bit set and without footer bit set (as no footer is written)
+    writer.writeByte(m_tag.flags() & 0xAF);
     // -> size (excluding header)
     writer.writeSynchsafeUInt32BE(m_framesSize + padding);
 
-- 
2.43.0


From 1eba9db38b0a64de983c780763d1f1f237c24d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:31 +0000
Subject: [PATCH 052/176] fix: report new size after adding ID3v1 tag

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cb56aa9..7d0153f 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1704,6 +1704,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                     diag.emplace_back(DiagLevel::Warning, "Unable to write ID3v1 tag.", context);
                 }
             }
+            // report new size
+            reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
             // prevent deferring final write operations (to catch and handle possible errors here)
             stream().flush();
         }
-- 
2.43.0


From 46423d9cb5bbc20eec34d5a4316722a40cb36379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:16 +0000
Subject: [PATCH 053/176] fix: handle size of extended header of ID3v2.3 tags

---
 id3/id3v2tag.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 7912858..ae945c3 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -594,7 +594,11 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             diag.emplace_back(DiagLevel::Critical, "Extended header denoted but not present.", context);
             throw TruncatedDataException();
         }
-        m_extendedHeaderSize = reader.readSynchsafeUInt32BE();
+        // note: The size field itself is only included in the size as of ID3v2.4. It is also only a synchsafe integer as of that version.
+        m_extendedHeaderSize = majorVersion >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
+        if (majorVersion < 4 && m_extendedHeaderSize <= m_sizeExcludingHeader) {
+            m_extendedHeaderSize += 4;
+        }
         if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > m_sizeExcludingHeader || (maximalSize && maximalSize < (10 + m_extendedHeaderSize))) {
             diag.emplace_back(DiagLevel::Critical, "Extended header is invalid/truncated.", context);
             throw TruncatedDataException();
-- 
2.43.0


From 7f2f3536a34bb61c00507ea0753c91e3192560c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:38 +0000
Subject: [PATCH 054/176] fix: keep content of unrecognised files when treating
 them as MP3 files

---
 mediafileinfo.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 7d0153f..528ff8f 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -296,6 +296,11 @@ startParsingSignature:
         }
     }
 
+    // don't consider any bytes as skipped if no container format could be detected within the remaining data
+    if (m_containerFormat == ContainerFormat::Unknown) {
+        m_containerOffset = id3v2Size;
+    }
+
     if (bytesSkippedBeforeContainer) {
         diag.emplace_back(DiagLevel::Warning, argsToString(bytesSkippedBeforeContainer, " bytes of junk skipped"), context);
     }
-- 
2.43.0


From b7865740ea138fbb0f3eabe4edf258ab066c827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 055/176] fix: do not overwrite contents of last FLAC metadata
 block when adjusting its header

---
 flac/flacstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 0b8cfee..e084517 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -221,7 +221,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(!m_vorbisComment);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        originalStream.seekg(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
+        outputStream.seekp(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
     }
 
     // write Vorbis comment
@@ -290,7 +290,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(true);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        outputStream.seekp(lastActuallyWrittenHeader.dataSize());
+        outputStream.seekp(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
     }
 
     return lastStartOffset;
-- 
2.43.0


From 622e97aca2c01c424d77e5cd9525e2527eb05e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 056/176] fix: handle FLAC files where pictures are preceding
 the Vorbis comment

---
 flac/flacstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index e084517..c2eee3c 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -2,6 +2,7 @@
 #include "./flacmetadata.h"
 
 #include "../vorbis/vorbiscomment.h"
+#include "../vorbis/vorbiscommentids.h"
 
 #include "../exceptions.h"
 #include "../mediafileinfo.h"
@@ -129,7 +130,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
             try {
                 // parse the cover
                 VorbisCommentField coverField;
-                coverField.setId(m_vorbisComment->fieldId(KnownField::Cover));
+                coverField.setId(std::string(VorbisCommentIds::cover()));
                 FlacMetaDataBlockPicture picture(coverField.value());
                 picture.parse(*m_istream, header.dataSize());
                 coverField.setTypeInfo(picture.pictureType());
-- 
2.43.0


From cb643de9393b4241d41feacad29a1c559d895096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 057/176] fix: refuse to write FLAC metadata blocks which are
 too big

---
 flac/flacstream.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index c2eee3c..bbbeffa 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -244,8 +244,8 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     header.setType(FlacMetaDataBlockType::VorbisComment);
     auto dataSize(static_cast<std::uint64_t>(endOffset) - static_cast<std::uint64_t>(lastStartOffset) - 4);
     if (dataSize > 0xFFFFFF) {
-        dataSize = 0xFFFFFF;
-        diag.emplace_back(DiagLevel::Critical, "Vorbis Comment is too big and will be truncated.", "write Vorbis Comment to FLAC stream");
+        diag.emplace_back(DiagLevel::Critical, "Vorbis Comment is too big.", "write Vorbis Comment to FLAC stream");
+        throw InvalidDataException();
     }
     header.setDataSize(static_cast<std::uint32_t>(dataSize));
     header.setLast(!m_vorbisComment->hasField(coverId));
@@ -260,15 +260,19 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     }
     header.setType(FlacMetaDataBlockType::Picture);
     const auto coverFields = m_vorbisComment->fields().equal_range(coverId);
-    for (auto i = coverFields.first; i != coverFields.second;) {
+    for (auto i = coverFields.first; i != coverFields.second; ++i) {
         const auto lastCoverStartOffset = outputStream.tellp();
 
         try {
             // write the structure
             FlacMetaDataBlockPicture pictureBlock(i->second.value());
             pictureBlock.setPictureType(i->second.typeInfo());
-            header.setDataSize(pictureBlock.requiredSize());
-            header.setLast(++i == coverFields.second);
+            const auto pictureSize = pictureBlock.requiredSize();
+            if (pictureSize > 0xFFFFFF) {
+                throw InvalidDataException();
+            }
+            header.setDataSize(pictureSize);
+            header.setLast(std::next(i) == coverFields.second);
             header.makeHeader(outputStream);
             pictureBlock.make(outputStream);
 
-- 
2.43.0


From 2f9d318215a41e4c9d75b6e8809fd595d9cb1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 058/176] fix: do not write padding twice when saving FLAC
 files with ID3v2 tag

---
 mediafileinfo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 528ff8f..b7ff39e 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1844,11 +1844,12 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 i->make(outputStream, 0, diag);
             }
             // include padding into the last ID3v2 tag
-            makers.back().make(outputStream, (flacStream && padding && padding < 4) ? 0 : static_cast<std::uint32_t>(padding), diag);
+            makers.back().make(outputStream, static_cast<std::uint32_t>(padding), diag);
         }
 
         if (flacStream) {
-            if (padding && startOfLastMetaDataBlock) {
+            const auto makeFlacPadding = padding && makers.empty(); // padding is otherwise already included in the last ID3v2 tag
+            if (makeFlacPadding && startOfLastMetaDataBlock) {
                 // if appending padding, ensure the last flag of the last "METADATA_BLOCK_HEADER" is not set
                 flacMetaData.seekg(startOfLastMetaDataBlock);
                 flacMetaData.seekp(startOfLastMetaDataBlock);
@@ -1860,7 +1861,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             outputStream << flacMetaData.rdbuf();
 
             // write padding
-            if (padding) {
+            if (makeFlacPadding) {
                 flacStream->makePadding(outputStream, static_cast<std::uint32_t>(padding), true, diag);
             }
         }
-- 
2.43.0


From 3c18a0762c6b31810e10add10e8fb761ee765ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 059/176] fix: avoid writing a huge "Void"-element if the
 padding of a Matroska file would be one byte

---
 matroska/matroskacontainer.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 22b8c3f..8a693e1 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1333,10 +1333,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             }
                             if (totalOffset <= segment.firstClusterElement->startOffset()) {
                                 // calculate new padding
+                                segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset;
                                 if (segment.newPadding != 1) {
-                                    // "Void"-element is at least 2 byte long -> can't add 1 byte padding
-                                    newPadding += (segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset);
+                                    newPadding += segment.newPadding;
                                 } else {
+                                    // "Void"-element is at least 2 byte long -> can't add 1 byte padding
                                     rewriteRequired = true;
                                 }
                             } else {
@@ -1371,8 +1372,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
                     if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
-                        // simply use the preferred padding
-                        segment.totalDataSize += (segment.newPadding = newPadding = fileInfo().preferredPadding());
+                        // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
+                        newPadding = fileInfo().preferredPadding();
+                        if (newPadding == 1) {
+                            newPadding = fileInfo().maxPadding() > 1 ? 2 : 0;
+                        }
+                        segment.totalDataSize += (segment.newPadding = newPadding);
                     }
 
                     // pretend writing "Cluster"-element
-- 
2.43.0


From d67503090b231e3771687f0855fb7cd7b9e1069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 060/176] fix: do not truncate Matroska files without clusters
 when saving

---
 matroska/matroskacontainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 8a693e1..1a6f29a 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1347,7 +1347,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             rewriteRequired = true;
                         }
                     } else {
+                        // there is nothing which could be left in place
                         diag.emplace_back(DiagLevel::Warning, argsToString("There are no clusters in segment ", segmentIndex, "."), context);
+                        rewriteRequired = true;
                     }
 
                     if (rewriteRequired) {
-- 
2.43.0


From fb9346df98f58fe1cf17a384c3345162514d0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 061/176] fix: write correct CRC-32 checksum of Matroska
 segments

---
 matroska/matroskacontainer.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 1a6f29a..de3058b 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -809,6 +809,27 @@ void MatroskaContainer::internalParseAttachments(Diagnostics &diag, AbortablePro
     }
 }
 
+/*!
+ * \brief Computes the checksum used in EBML "CRC-32"-elements for the next \a length bytes of the specified \a stream.
+ */
+static std::uint32_t readEbmlCrc32(std::istream &stream, std::uint64_t length)
+{
+    char buffer[0x1000];
+    auto crc = std::uint32_t(0xFFFFFFFF);
+    while (length) {
+        const auto bytesToRead = std::min<std::uint64_t>(length, sizeof(buffer));
+        stream.read(buffer, static_cast<std::streamsize>(bytesToRead));
+        for (auto *i = buffer, *end = buffer + bytesToRead; i != end; ++i) {
+            crc ^= static_cast<std::uint8_t>(*i);
+            for (auto bit = 0; bit != 8; ++bit) {
+                crc = (crc >> 1) ^ ((crc & 1) ? 0xEDB88320u : 0u);
+            }
+        }
+        length -= bytesToRead;
+    }
+    return ~crc;
+}
+
 /// \brief The private SegmentData struct is used in MatroskaContainer::internalMakeFile() to store segment specific data.
 struct SegmentData {
     /// \brief Constructs a new segment data object.
@@ -1881,8 +1902,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             progress.updateStep("Updating CRC-32 checksums ...");
             for (const auto &crc32Offset : crc32Offsets) {
                 outputStream.seekg(static_cast<streamoff>(get<0>(crc32Offset) + 6));
+                const auto crc32 = readEbmlCrc32(outputStream, get<1>(crc32Offset) - 6);
                 outputStream.seekp(static_cast<streamoff>(get<0>(crc32Offset) + 2));
-                writer().writeUInt32LE(reader().readCrc32(get<1>(crc32Offset) - 6));
+                outputWriter.writeUInt32LE(crc32);
             }
         }
 
-- 
2.43.0


From 6d9a66c87231c60c2410d6b04c1d4c5cef27e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 062/176] fix: write "CueReference"-elements correctly

---
 matroska/matroskacues.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matroska/matroskacues.cpp b/matroska/matroskacues.cpp
index ff48ec2..a092693 100644
--- a/matroska/matroskacues.cpp
+++ b/matroska/matroskacues.cpp
@@ -330,7 +330,7 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                 break;
                             case MatroskaIds::CueReference:
                                 // write "CueReference"-element
-                                stream.put(static_cast<char>(MatroskaIds::CueRefTime));
+                                stream.put(static_cast<char>(MatroskaIds::CueReference));
                                 len = EbmlElement::makeSizeDenotation(m_sizes[cueTrackPositionsChild], buff);
                                 stream.write(buff, len);
                                 for (EbmlElement *cueReferenceChild = cueTrackPositionsChild->firstChild(); cueReferenceChild;
@@ -345,7 +345,6 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                         // write unchanged children of "CueReference"-element
                                         cueReferenceChild->copyBuffer(stream);
                                         cueReferenceChild->discardBuffer();
-                                        cueReferenceChild->copyEntirely(stream, diag, nullptr);
                                         break;
                                     case MatroskaIds::CueRefCluster:
                                     case MatroskaIds::CueRefCodecState:
-- 
2.43.0


From 544dbff49daef1536fd9d4572c136e73fec99d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 063/176] fix: do not copy outdated checksum of Matroska tracks

---
 matroska/matroskatrack.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 74beeb4..9058364 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -597,6 +597,8 @@ MatroskaTrackHeaderMaker::MatroskaTrackHeaderMaker(const MatroskaTrack &track, D
         case MatroskaIds::TrackFlagDefault:
         case MatroskaIds::TrackFlagForced:
             // skip recognized elements
+        case EbmlIds::Crc32:
+            // skip checksum which would not be correct anymore
             break;
         default:
             trackInfoElement->makeBuffer();
@@ -648,6 +650,8 @@ void MatroskaTrackHeaderMaker::make(ostream &stream) const
         case MatroskaIds::TrackFlagDefault:
         case MatroskaIds::TrackFlagForced:
             // skip recognized elements
+        case EbmlIds::Crc32:
+            // skip checksum which would not be correct anymore
             break;
         default:
             trackInfoElement->copyBuffer(stream);
-- 
2.43.0


From c4b3547ba79017584408f8a3c416e89d19b0ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 064/176] fix: avoid endless loop when computing size
 denotation of Matroska segment

---
 matroska/matroskacontainer.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index de3058b..43953bf 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1270,7 +1270,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 diag.emplace_back(DiagLevel::Critical, "Header size of \"Segment\"-element from original file is invalid.", context);
                                 throw InvalidDataException();
                             }
-                            segment.sizeDenotationLength = static_cast<std::uint8_t>(level0Element->headerSize() - 4u);
+                            // -> keep using it unless it is too small to avoid shifting the segment data when not necessary
+                            segment.sizeDenotationLength
+                                = std::max(segment.sizeDenotationLength, static_cast<std::uint8_t>(level0Element->headerSize() - 4u));
 
                         nonRewriteCalculations:
                             // pretend writing "Cluster"-elements assuming there is no rewrite required
@@ -1340,14 +1342,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                             // calculate total offset again (taking everything into account)
                             // -> check whether assumed size denotation was correct
-                            if (segment.sizeDenotationLength != (sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))) {
+                            if (segment.sizeDenotationLength < (sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))) {
                                 // assumption was wrong -> recalculate with new length
                                 segment.sizeDenotationLength = sizeLength;
                                 level1Element = segment.firstClusterElement;
                                 goto nonRewriteCalculations;
                             }
 
-                            totalOffset = currentOffset + 4 + sizeLength + offset;
+                            totalOffset = currentOffset + 4 + segment.sizeDenotationLength + offset;
                             // offset does not include size of "Cues"-element
                             if (newCuesPos == ElementPosition::BeforeData) {
                                 totalOffset += segment.cuesUpdater.totalSize();
@@ -1498,8 +1500,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // increase the current segment index
                 ++segmentIndex;
 
+                // use the minimal length for the size denotation when rewriting the file
+                if (rewriteRequired) {
+                    segment.sizeDenotationLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize);
+                }
+
                 // increase write offsets by the size of the segment which size has just been computed
-                segment.totalSize = 4 + EbmlElement::calculateSizeDenotationLength(segment.totalDataSize) + segment.totalDataSize;
+                segment.totalSize = 4 + segment.sizeDenotationLength + segment.totalDataSize;
                 currentPosition += segment.totalSize;
                 currentOffset += segment.totalSize;
 
@@ -1630,7 +1637,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // write "Segment"-element actually
                 progress.updateStep("Writing segment header ...");
                 outputWriter.writeUInt32BE(MatroskaIds::Segment);
-                sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff);
+                sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff, segment.sizeDenotationLength);
                 outputStream.write(buff, sizeLength);
                 segment.newDataOffset = offset = static_cast<std::uint64_t>(outputStream.tellp()); // store segment data offset here
 
-- 
2.43.0


From c5dd0deedf9cc0b8b3d4904311fb36caeb556a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 065/176] fix: update positions within Matroska clusters when
 clusters are left in place

---
 matroska/matroskacontainer.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 43953bf..348c7d4 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1788,12 +1788,28 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // can't just skip existing "Cluster"-elements: "Position"-elements must be updated
                     progress.nextStepOrStop("Updating cluster ...",
                         static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
-                    for (; level1Element; level1Element = level1Element->nextSibling()) {
+                    // -> this is only required if the start of the segment data has been moved
+                    if (segment.newDataOffset == level0Element->dataOffset()) {
+                        level1Element = nullptr;
+                    }
+                    for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag)) {
+                        progress.stopIfAborted();
+                        std::uint64_t crc32Offset = 0;
                         for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                            level2Element->parse(diag);
                             switch (level2Element->id()) {
+                            case EbmlIds::Crc32:
+                                crc32Offset = level2Element->startOffset();
+                                break;
                             case MatroskaIds::Position:
+                                // void checksum of the cluster as it will not be correct anymore
+                                if (crc32Offset) {
+                                    outputStream.seekp(static_cast<streamoff>(crc32Offset));
+                                    outputStream.put(static_cast<char>(EbmlIds::Void));
+                                    crc32Offset = 0;
+                                }
                                 // calculate new position
-                                sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segmentData.front().newDataOffset, buff,
+                                sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segment.newDataOffset, buff,
                                     level2Element->dataSize() > 8 ? 8 : static_cast<std::uint8_t>(level2Element->dataSize()));
                                 // new position can only applied if it doesn't need more bytes than the previous position
                                 if (level2Element->dataSize() < sizeLength) {
-- 
2.43.0


From d65e42a4241892533f0f4a4c750f8b9be69d60a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 066/176] fix: update size of previous cluster when rewriting
 Matroska files

---
 matroska/matroskacontainer.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 348c7d4..5389bad 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1407,6 +1407,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Cluster"-element
                     segment.clusterSizes.clear();
+                    std::uint64_t prevClusterSize = 0;
                     bool cuesInvalidated = false;
                     for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                         // update offset of "Cluster"-element in "Cues"-element
@@ -1434,13 +1435,17 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     case MatroskaIds::Position:
                                         clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
                                         break;
+                                    case MatroskaIds::PrevSize:
+                                        clusterSize += index ? 1u + 1u + EbmlElement::calculateUIntegerLength(prevClusterSize) : level2Element->totalSize();
+                                        break;
                                     default:
                                         clusterSize += level2Element->totalSize();
                                     }
                                     clusterReadSize += level2Element->totalSize();
                                 }
                                 segment.clusterSizes.push_back(clusterSize);
-                                segment.totalDataSize += 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
+                                prevClusterSize = 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
+                                segment.totalDataSize += prevClusterSize;
                             }
                         }
                         // check whether aborted (because this loop might take some seconds to process)
@@ -1757,6 +1762,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // write "Cluster"-element
                     auto clusterSizesIterator = segment.clusterSizes.cbegin();
                     unsigned int index = 0;
+                    std::uint64_t prevClusterSize = 0;
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++clusterSizesIterator, ++index) {
                         // calculate position of cluster in segment
                         clusterSize = currentPosition + (static_cast<std::uint64_t>(outputStream.tellp()) - offset);
@@ -1773,10 +1779,18 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             case MatroskaIds::Position:
                                 EbmlElement::makeSimpleElement(outputStream, MatroskaIds::Position, clusterSize);
                                 break;
+                            case MatroskaIds::PrevSize:
+                                if (index) {
+                                    EbmlElement::makeSimpleElement(outputStream, MatroskaIds::PrevSize, prevClusterSize);
+                                } else {
+                                    level2Element->copyEntirely(outputStream, diag, nullptr);
+                                }
+                                break;
                             default:
                                 level2Element->copyEntirely(outputStream, diag, nullptr);
                             }
                         }
+                        prevClusterSize = 4u + sizeLength + *clusterSizesIterator;
                         // update percentage, check whether the operation has been aborted
                         progress.stopIfAborted();
                         if (index % 50 == 0) {
-- 
2.43.0


From c622ca37a0a658949b4cb7f25ebb49e65e3e0437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 067/176] fix: compute positions in Matroska files relative to
 the segment they are in

---
 matroska/matroskacontainer.cpp | 64 +++++++++++++---------------------
 1 file changed, 25 insertions(+), 39 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 5389bad..4f35346 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -411,7 +411,6 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
     m_tagsElements.clear();
     m_seekInfos.clear();
     m_segmentCount = 0;
-    std::uint64_t currentOffset = 0;
     vector<MatroskaSeekInfo>::difference_type seekInfosIndex = 0;
 
     // loop through all top level elements
@@ -506,7 +505,7 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                             // -> take elements from seek tables within this segment into account
                             for (auto i = m_seekInfos.cbegin() + seekInfosIndex, end = m_seekInfos.cend(); i != end; ++i, ++seekInfosIndex) {
                                 for (const auto &infoPair : (*i)->info()) {
-                                    std::uint64_t offset = currentOffset + topLevelElement->dataOffset() + infoPair.second;
+                                    std::uint64_t offset = topLevelElement->dataOffset() + infoPair.second;
                                     if (offset >= fileInfo().size()) {
                                         diag.emplace_back(DiagLevel::Critical,
                                             argsToString("Offset (", offset, ") denoted by \"SeekHead\" element is invalid."), context);
@@ -573,7 +572,6 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                         break;
                     }
                 }
-                currentOffset += topLevelElement->totalSize();
                 break;
             default:;
             }
@@ -929,8 +927,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
     std::uint64_t offset;
     // current total offset (including EBML header)
     std::uint64_t totalOffset;
-    // current write offset (used to calculate positions)
-    std::uint64_t currentPosition = 0;
     // holds the offsets of all CRC-32 elements and the length of the enclosing block
     std::vector<std::tuple<std::uint64_t, std::uint64_t>> crc32Offsets;
     // size length used to make size denotations
@@ -1077,8 +1073,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // define variables to store sizes, offsets and other information required to make a header and "Segment"-elements
         // -> current "pretent" write offset
         std::uint64_t currentOffset = ebmlHeaderSize;
-        // -> current read offset (used to calculate positions)
-        std::uint64_t readOffset = 0;
         // -> index of current element during iteration
         unsigned int index;
 
@@ -1094,7 +1088,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         }
 
         // calculate sizes and other information required to make segments
-        for (level0Element = firstElement(), currentPosition = newPadding = segmentIndex = 0; level0Element;
+        for (level0Element = firstElement(), newPadding = segmentIndex = 0; level0Element;
             level0Element = level0Element->nextSibling()) {
             switch (level0Element->id()) {
             case EbmlIds::Header:
@@ -1150,7 +1144,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 for (level1Element = level0Element->childById(MatroskaIds::SegmentInfo, diag), index = 0; level1Element;
                     level1Element = level1Element->siblingById(MatroskaIds::SegmentInfo, diag), ++index) {
                     // update offset in "SeekHead"-element
-                    if (segment.seekInfo.push(index, MatroskaIds::SegmentInfo, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(index, MatroskaIds::SegmentInfo, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "SegmentInfo"-element
@@ -1186,7 +1180,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // pretend writing "Tracks"-element
                 if (trackHeaderSize) {
                     // update offsets in "SeekHead"-element
-                    if (segment.seekInfo.push(0, MatroskaIds::Tracks, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(0, MatroskaIds::Tracks, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Tracks"-element
@@ -1198,7 +1192,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 for (level1Element = level0Element->childById(MatroskaIds::Chapters, diag), index = 0; level1Element;
                     level1Element = level1Element->siblingById(MatroskaIds::Chapters, diag), ++index) {
                     // update offset in "SeekHead"-element
-                    if (segment.seekInfo.push(index, MatroskaIds::Chapters, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(index, MatroskaIds::Chapters, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of element
@@ -1214,7 +1208,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // pretend writing "Tags"-element
                     if (tagsSize) {
                         // update offsets in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Tags"-element
@@ -1224,7 +1218,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // pretend writing "Attachments"-element
                     if (attachmentsSize) {
                         // update offsets in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Attachments"-element
@@ -1238,7 +1232,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // pretend writing "Cues"-element
                 if (newCuesPos == ElementPosition::BeforeData && segment.cuesElement) {
                     // update offset of "Cues"-element in "SeekHead"-element
-                    if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Cues"-element
@@ -1278,17 +1272,17 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             // pretend writing "Cluster"-elements assuming there is no rewrite required
                             // -> update offset in "SeakHead"-element
                             if (segment.seekInfo.push(
-                                    0, MatroskaIds::Cluster, level1Element->startOffset() - 4 - segment.sizeDenotationLength - ebmlHeaderSize)) {
+                                    0, MatroskaIds::Cluster, level1Element->startOffset() - currentOffset - 4 - segment.sizeDenotationLength)) {
                                 goto calculateSegmentSize;
                             }
                             // -> update offset of "Cluster"-element in "Cues"-element and get end offset of last "Cluster"-element
                             bool cuesInvalidated = false;
                             for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
-                                clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
+                                clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset();
                                 segment.clusterEndOffset = level1Element->endOffset();
                                 if (segment.cuesElement
                                     && segment.cuesUpdater.updateOffsets(
-                                        clusterReadOffset, level1Element->startOffset() - 4 - segment.sizeDenotationLength - ebmlHeaderSize)
+                                        clusterReadOffset, level1Element->startOffset() - currentOffset - 4 - segment.sizeDenotationLength)
                                     && newCuesPos == ElementPosition::BeforeData) {
                                     cuesInvalidated = true;
                                 }
@@ -1309,7 +1303,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             progress.updateStep("Calculating offsets of elements after cluster ...");
                             if (newCuesPos == ElementPosition::AfterData && segment.cuesElement) {
                                 // update offset of "Cues"-element in "SeekHead"-element
-                                if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                                if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                                     goto calculateSegmentSize;
                                 } else {
                                     // add size of "Cues"-element
@@ -1321,7 +1315,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 // pretend writing "Tags"-element
                                 if (tagsSize) {
                                     // update offsets in "SeekHead"-element
-                                    if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                                    if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                                         goto calculateSegmentSize;
                                     } else {
                                         // add size of "Tags"-element
@@ -1331,7 +1325,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 // pretend writing "Attachments"-element
                                 if (attachmentsSize) {
                                     // update offsets in "SeekHead"-element
-                                    if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                                    if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                                         goto calculateSegmentSize;
                                     } else {
                                         // add size of "Attachments"-element
@@ -1396,7 +1390,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // if rewrite is required, pretend writing the remaining elements to compute total segment size and cluster sizes
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
-                    if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
+                    level1Element = level0Element->childById(MatroskaIds::Cluster, diag);
+                    if (!segmentIndex && level1Element) {
                         // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
                         newPadding = fileInfo().preferredPadding();
                         if (newPadding == 1) {
@@ -1411,12 +1406,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     bool cuesInvalidated = false;
                     for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                         // update offset of "Cluster"-element in "Cues"-element
-                        clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
-                        if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, currentPosition + segment.totalDataSize)
+                        clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset();
+                        if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, segment.totalDataSize)
                             && newCuesPos == ElementPosition::BeforeData) {
                             cuesInvalidated = true;
                         } else {
-                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, currentPosition + segment.totalDataSize)) {
+                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Cluster"-element
@@ -1433,7 +1428,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     case EbmlIds::Crc32:
                                         break;
                                     case MatroskaIds::Position:
-                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
+                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.totalDataSize);
                                         break;
                                     case MatroskaIds::PrevSize:
                                         clusterSize += index ? 1u + 1u + EbmlElement::calculateUIntegerLength(prevClusterSize) : level2Element->totalSize();
@@ -1467,7 +1462,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     progress.updateStep("Calculating offsets of elements after cluster ...");
                     if (newCuesPos == ElementPosition::AfterData && segment.cuesElement) {
                         // update offset of "Cues"-element in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Cues"-element
@@ -1482,7 +1477,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         // pretend writing "Tags"-element
                         if (tagsSize) {
                             // update offsets in "SeekHead"-element
-                            if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                            if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Tags"-element
@@ -1492,7 +1487,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         // pretend writing "Attachments"-element
                         if (attachmentsSize) {
                             // update offsets in "SeekHead"-element
-                            if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                            if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Attachments"-element
@@ -1512,12 +1507,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                 // increase write offsets by the size of the segment which size has just been computed
                 segment.totalSize = 4 + segment.sizeDenotationLength + segment.totalDataSize;
-                currentPosition += segment.totalSize;
                 currentOffset += segment.totalSize;
 
-                // increase the read offset by the size of the segment read from the original file
-                readOffset += level0Element->totalSize();
-
                 break;
             }
             default:
@@ -1526,7 +1517,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     "The top-level element \"" % level0Element->idToString() + "\" of the original file is unknown and will just be copied.",
                     context);
                 currentOffset += level0Element->totalSize();
-                readOffset += level0Element->totalSize();
             }
         }
 
@@ -1622,7 +1612,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         EbmlElement::makeSimpleElement(outputStream, EbmlIds::DocTypeReadVersion, m_doctypeReadVersion);
 
         // iterates through all level 0 elements of the original file
-        for (level0Element = firstElement(), segmentIndex = 0, currentPosition = 0; level0Element; level0Element = level0Element->nextSibling()) {
+        for (level0Element = firstElement(), segmentIndex = 0; level0Element; level0Element = level0Element->nextSibling()) {
 
             // write all level 0 elements of the original file
             switch (level0Element->id()) {
@@ -1765,7 +1755,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     std::uint64_t prevClusterSize = 0;
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++clusterSizesIterator, ++index) {
                         // calculate position of cluster in segment
-                        clusterSize = currentPosition + (static_cast<std::uint64_t>(outputStream.tellp()) - offset);
+                        clusterSize = static_cast<std::uint64_t>(outputStream.tellp()) - offset;
                         // write header; checking whether clusterSizesIterator is valid shouldn't be necessary
                         outputWriter.writeUInt32BE(MatroskaIds::Cluster);
                         sizeLength = EbmlElement::makeSizeDenotation(*clusterSizesIterator, buff);
@@ -1875,15 +1865,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // increase the current segment index
                 ++segmentIndex;
 
-                // increase write offsets by the size of the segment which has just been written
-                currentPosition += segment.totalSize;
-
                 break;
             }
             default:
                 // just copy any unknown top-level elements
                 level0Element->copyEntirely(outputStream, diag, nullptr);
-                currentPosition += level0Element->totalSize();
             }
         }
 
-- 
2.43.0


From 3f6b83db08208dc0fa31e5013e665adec5c0bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:41 +0000
Subject: [PATCH 068/176] fix: do not write tracks of all segments into each
 segment of a Matroska file

---
 matroska/matroskacontainer.cpp | 43 +++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 4f35346..d4784ee 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -857,6 +857,10 @@ struct SegmentData {
     MatroskaCuePositionUpdater cuesUpdater;
     /// \brief size of the "SegmentInfo"-element
     std::uint64_t infoDataSize;
+    /// \brief used to make "Tracks"-element
+    std::vector<const MatroskaTrackHeaderMaker *> trackHeaderMaker;
+    /// \brief size of the "TrackEntry"-elements
+    std::uint64_t trackHeaderElementsSize = 0;
     /// \brief cluster sizes, needed because cluster elements are not necessarily copied as-is so they're size might change
     std::vector<std::uint64_t> clusterSizes;
     /// \brief first "Cluster"-element (original file)
@@ -915,8 +919,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
     std::uint64_t attachmentsSize;
     std::vector<MatroskaTrackHeaderMaker> trackHeaderMaker;
     trackHeaderMaker.reserve(tracks().size());
-    std::uint64_t trackHeaderElementsSize = 0;
-    std::uint64_t trackHeaderSize;
 
     // define variables to store sizes, offsets and other information required to make a header and "Segment"-elements
     // current segment index
@@ -1009,19 +1011,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         attachmentsSize
             = attachedFileElementsSize ? 4 + EbmlElement::calculateSizeDenotationLength(attachedFileElementsSize) + attachedFileElementsSize : 0;
 
-        // calculate size of "Tracks"-element
+        // prepare making "Tracks"-elements
         for (auto &track : tracks()) {
             try {
-                const auto &maker = trackHeaderMaker.emplace_back(track->prepareMakingHeader(diag));
-                if (maker.requiredSize() > 3) {
-                    // a track header of 3 bytes size is empty and can be skipped
-                    trackHeaderElementsSize += maker.requiredSize();
-                }
+                trackHeaderMaker.emplace_back(track->prepareMakingHeader(diag));
             } catch (const Failure &) {
             }
         }
-        trackHeaderSize
-            = trackHeaderElementsSize ? 4 + EbmlElement::calculateSizeDenotationLength(trackHeaderElementsSize) + trackHeaderElementsSize : 0;
 
         // inspect layout of original file
         //  - number of segments
@@ -1128,6 +1124,19 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // set start offset of the segment in the new file
                 segment.startOffset = currentOffset;
 
+                // determine tracks of the segment and calculate size of "TrackEntry"-elements
+                segment.trackHeaderMaker.clear();
+                segment.trackHeaderElementsSize = 0;
+                for (const auto &maker : trackHeaderMaker) {
+                    // a track header of 3 bytes size is empty and can be skipped
+                    const auto trackOffset = maker.track().startOffset();
+                    if (maker.requiredSize() > 3
+                        && (!lastSegmentIndex || (trackOffset >= level0Element->startOffset() && trackOffset < level0Element->endOffset()))) {
+                        segment.trackHeaderMaker.emplace_back(&maker);
+                        segment.trackHeaderElementsSize += maker.requiredSize();
+                    }
+                }
+
                 // check whether the segment has a CRC-32 element
                 segment.hasCrc32 = level0Element->firstChild() && level0Element->firstChild()->id() == EbmlIds::Crc32;
 
@@ -1178,13 +1187,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 }
 
                 // pretend writing "Tracks"-element
-                if (trackHeaderSize) {
+                if (segment.trackHeaderElementsSize) {
                     // update offsets in "SeekHead"-element
                     if (segment.seekInfo.push(0, MatroskaIds::Tracks, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Tracks"-element
-                        segment.totalDataSize += trackHeaderSize;
+                        segment.totalDataSize += 4 + EbmlElement::calculateSizeDenotationLength(segment.trackHeaderElementsSize)
+                            + segment.trackHeaderElementsSize;
                     }
                 }
 
@@ -1391,6 +1401,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
                     level1Element = level0Element->childById(MatroskaIds::Cluster, diag);
+                    segment.newPadding = 0;
                     if (!segmentIndex && level1Element) {
                         // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
                         newPadding = fileInfo().preferredPadding();
@@ -1683,12 +1694,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 }
 
                 // write "Tracks"-element
-                if (trackHeaderElementsSize) {
+                if (segment.trackHeaderElementsSize) {
                     outputWriter.writeUInt32BE(MatroskaIds::Tracks);
-                    sizeLength = EbmlElement::makeSizeDenotation(trackHeaderElementsSize, buff);
+                    sizeLength = EbmlElement::makeSizeDenotation(segment.trackHeaderElementsSize, buff);
                     outputStream.write(buff, sizeLength);
-                    for (auto &maker : trackHeaderMaker) {
-                        maker.make(outputStream);
+                    for (const auto *const maker : segment.trackHeaderMaker) {
+                        maker->make(outputStream);
                     }
                 }
 
-- 
2.43.0


From 0742da5b0fb2fb2a188a12138d6e917b0bcbd003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:41 +0000
Subject: [PATCH 069/176] fix: rewrite Matroska files if elements between
 clusters can not be left in place

---
 matroska/matroskacontainer.cpp | 36 ++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index d4784ee..78da1c3 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1048,6 +1048,42 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 }
             }
 
+            // force rewriting if elements which are written separately are between clusters or unknown top-level elements are present
+            // as those elements can not be left in place
+            for (level0Element = firstElement(); level0Element && !rewriteRequired; level0Element = level0Element->nextSibling()) {
+                switch (level0Element->id()) {
+                case EbmlIds::Header:
+                case EbmlIds::Void:
+                case EbmlIds::Crc32:
+                    continue;
+                case MatroskaIds::Segment:
+                    break;
+                default:
+                    rewriteRequired = true;
+                    continue;
+                }
+                auto clusterFound = false, otherElementFound = false;
+                for (level1Element = level0Element->firstChild(); level1Element; level1Element = level1Element->nextSibling()) {
+                    level1Element->parse(diag);
+                    switch (level1Element->id()) {
+                    case MatroskaIds::Cluster:
+                        clusterFound = true;
+                        rewriteRequired = rewriteRequired || otherElementFound;
+                        break;
+                    case MatroskaIds::SeekHead:
+                    case MatroskaIds::SegmentInfo:
+                    case MatroskaIds::Tracks:
+                    case MatroskaIds::Chapters:
+                    case MatroskaIds::Tags:
+                    case MatroskaIds::Attachments:
+                    case MatroskaIds::Cues:
+                        otherElementFound = clusterFound;
+                        break;
+                    default:;
+                    }
+                }
+            }
+
             // now the number of segments is known -> allocate segment specific data
             segmentData.resize(lastSegmentIndex + 1);
 
-- 
2.43.0


From 8410c9e29b8c93de9f50066516c0a0b4419d793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:41 +0000
Subject: [PATCH 070/176] fix: find elements behind the clusters of Matroska
 files without seek head

---
 matroska/matroskacontainer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 78da1c3..4f87abf 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -409,6 +409,8 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
     m_tracksElements.clear();
     m_segmentInfoElements.clear();
     m_tagsElements.clear();
+    m_chaptersElements.clear();
+    m_attachmentsElements.clear();
     m_seekInfos.clear();
     m_segmentCount = 0;
     vector<MatroskaSeekInfo>::difference_type seekInfosIndex = 0;
@@ -561,7 +563,8 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                                 }
                             }
                             // -> stop if tracks and tags have been found or the file exceeds the max. size to fully process
-                            if (((!m_tracksElements.empty() && !m_tagsElements.empty()) || fileInfo().size() > fileInfo().maxFullParseSize())
+                            // -> don't stop if there's no seek table because other elements might follow after the clusters
+                            if (((!m_tracksElements.empty() && !m_tagsElements.empty() && !m_seekInfos.empty()) || fileInfo().size() > fileInfo().maxFullParseSize())
                                 && !m_segmentInfoElements.empty()) {
                                 goto finish;
                             }
-- 
2.43.0


From cbe07743ab517ea127956d40a46be27a7a44029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:00 +0000
Subject: [PATCH 071/176] fix: follow references to further "SeekHead"-elements
 correctly

---
 matroska/matroskaseekinfo.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskaseekinfo.cpp b/matroska/matroskaseekinfo.cpp
index 5d45573..ef688a5 100644
--- a/matroska/matroskaseekinfo.cpp
+++ b/matroska/matroskaseekinfo.cpp
@@ -97,7 +97,8 @@ void MatroskaSeekInfo::parse(EbmlElement *seekHeadElement, Diagnostics &diag, si
 
             // follow possibly referenced seek head element
             if (m_info.back().first == MatroskaIds::SeekHead) {
-                const auto startOffset = m_info.back().second;
+                const auto *const segmentElement = m_seekHeadElements.front()->parent(); // positions are relative to the segment data
+                const auto startOffset = (segmentElement ? segmentElement->dataOffset() : 0) + m_info.back().second;
                 if (!maxIndirection) {
                     diag.emplace_back(DiagLevel::Warning,
                         argsToString("Not following reference by \"Seek\"-element at ", seekElement->startOffset(),
@@ -121,6 +122,12 @@ void MatroskaSeekInfo::parse(EbmlElement *seekHeadElement, Diagnostics &diag, si
                     break;
                 }
                 m_additionalSeekHeadElements.emplace_back(make_unique<EbmlElement>(seekHeadElement->container(), startOffset));
+                m_additionalSeekHeadElements.back()->parse(diag);
+                if (m_additionalSeekHeadElements.back()->id() != MatroskaIds::SeekHead) {
+                    diag.emplace_back(DiagLevel::Warning,
+                        argsToString("The \"Seek\"-element at ", seekElement->startOffset(), " does not point to another \"SeekHead\"-element."), context);
+                    break;
+                }
                 parse(m_additionalSeekHeadElements.back().get(), diag, maxIndirection - 1);
             }
 
-- 
2.43.0


From dc21317a779ddc58f40bd9bfeeef1262bb1fca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 072/176] fix: recognise EBML elements of unknown size
 regardless of the length of the size denotation

---
 matroska/ebmlelement.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index d1baf02..255577b 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -173,6 +173,11 @@ void EbmlElement::internalParse(Diagnostics &diag)
             // xor the first byte in buffer which has been read from the file with mask
             *(buf + (maximumSizeLengthSupported() - m_sizeLength)) ^= static_cast<char>(mask);
             m_dataSize = BE::toInt<std::uint64_t>(buf);
+            // check whether the element size is unknown (denoted by setting all bits); the size denotation might have any length
+            if (m_sizeLength > 1 && m_dataSize == (std::uint64_t(1) << (7 * m_sizeLength)) - 1) {
+                m_sizeUnknown = true;
+                m_dataSize = maxTotalSize() - std::min<std::uint64_t>(maxTotalSize(), headerSize());
+            }
             // check if element is truncated
             if (totalSize() > maxTotalSize()) {
                 if (m_idLength + m_sizeLength > maxTotalSize()) { // header truncated
-- 
2.43.0


From 8f631634eaeb1f0cd9b05223bb6d55a206174ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 073/176] fix: determine size of Matroska clusters of unknown
 size when parsing them

---
 matroska/ebmlelement.cpp | 50 ++++++++++++++++++++++++++++++++++++++++
 matroska/ebmlelement.h   |  1 +
 2 files changed, 51 insertions(+)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index 255577b..c1c1160 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -193,6 +193,12 @@ void EbmlElement::internalParse(Diagnostics &diag)
             }
         }
 
+        // determine actual size of clusters of unknown size
+        if (m_sizeUnknown && m_parent && m_id == MatroskaIds::Cluster) {
+            m_dataSize = determineClusterSize(m_dataSize);
+            m_sizeUnknown = false;
+        }
+
         // check if there's a first child
         const std::uint64_t firstChildOffset = this->firstChildOffset();
         if (firstChildOffset && firstChildOffset < totalSize()) {
@@ -225,6 +231,50 @@ void EbmlElement::internalParse(Diagnostics &diag)
     throw InvalidDataException();
 }
 
+/*!
+ * \brief Determines the data size of a "Cluster"-element of unknown size which ends at the next top-level or level 1 element.
+ */
+std::uint64_t EbmlElement::determineClusterSize(std::uint64_t maxSize)
+{
+    for (std::uint64_t offset = 0; offset + 2 <= maxSize;) {
+        // read header of next child; just use the max. size if it is invalid
+        char header[maximumIdLengthSupported() + maximumSizeLengthSupported()] = { 0 };
+        stream().seekg(static_cast<streamoff>(dataOffset() + offset));
+        stream().read(header, static_cast<std::streamsize>(std::min<std::uint64_t>(sizeof(header), maxSize - offset)));
+        std::uint32_t idLength = 1, sizeLength = 1, id = 0;
+        for (auto byte = static_cast<std::uint8_t>(header[0]); idLength <= maximumIdLengthSupported() && !(byte & 0x80); byte <<= 1) {
+            ++idLength;
+        }
+        if (idLength > maximumIdLengthSupported()) {
+            break;
+        }
+        for (std::uint32_t i = 0; i != idLength; ++i) {
+            id = (id << 8) | static_cast<std::uint8_t>(header[i]);
+        }
+        switch (matroskaIdLevel(id)) {
+        case MatroskaElementLevel::TopLevel:
+        case MatroskaElementLevel::Level1:
+            return offset;
+        default:;
+        }
+        for (auto byte = static_cast<std::uint8_t>(header[idLength]); sizeLength <= maximumSizeLengthSupported() && !(byte & 0x80); byte <<= 1) {
+            ++sizeLength;
+        }
+        if (sizeLength > maximumSizeLengthSupported() || idLength + sizeLength > maxSize - offset) {
+            break;
+        }
+        std::uint64_t size = static_cast<std::uint8_t>(header[idLength]) & (0xFFu >> sizeLength);
+        for (std::uint32_t i = 1; i != sizeLength; ++i) {
+            size = (size << 8) | static_cast<std::uint8_t>(header[idLength + i]);
+        }
+        if (size > maxSize - offset - idLength - sizeLength) {
+            break;
+        }
+        offset += idLength + sizeLength + size;
+    }
+    return maxSize;
+}
+
 /*!
  * \brief Reads the content of the element as string.
  */
diff --git a/matroska/ebmlelement.h b/matroska/ebmlelement.h
index fd8abcc..248be25 100644
--- a/matroska/ebmlelement.h
+++ b/matroska/ebmlelement.h
@@ -63,6 +63,7 @@ protected:
 
 private:
     std::string parsingContext() const;
+    std::uint64_t determineClusterSize(std::uint64_t maxSize);
 };
 
 /*!
-- 
2.43.0


From 9d94dbf171648e5e0ce16cfa63546a504baa411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 074/176] fix: do not write outdated entries into "SeekHead" of
 Matroska files

---
 matroska/matroskacontainer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 4f87abf..6c53b32 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1163,6 +1163,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // set start offset of the segment in the new file
                 segment.startOffset = currentOffset;
 
+                // discard seek information from previous calculation
+                segment.seekInfo.clear();
+
                 // determine tracks of the segment and calculate size of "TrackEntry"-elements
                 segment.trackHeaderMaker.clear();
                 segment.trackHeaderElementsSize = 0;
-- 
2.43.0


From 170be594fb61dff99ed665fda79f777492e25b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 075/176] fix: parse all segments of Matroska files

---
 matroska/matroskacontainer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 6c53b32..edf207a 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -413,6 +413,7 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
     m_attachmentsElements.clear();
     m_seekInfos.clear();
     m_segmentCount = 0;
+    auto segmentCompleted = false;
     vector<MatroskaSeekInfo>::difference_type seekInfosIndex = 0;
 
     // loop through all top level elements
@@ -469,7 +470,9 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                 break;
             case MatroskaIds::Segment:
                 ++m_segmentCount;
-                for (EbmlElement *subElement = topLevelElement->firstChild(); subElement; subElement = subElement->nextSibling()) {
+                segmentCompleted = false;
+                for (EbmlElement *subElement = topLevelElement->firstChild(); subElement && !segmentCompleted;
+                    subElement = subElement->nextSibling()) {
                     try {
                         subElement->parse(diag);
                         switch (subElement->id()) {
@@ -566,7 +569,7 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                             // -> don't stop if there's no seek table because other elements might follow after the clusters
                             if (((!m_tracksElements.empty() && !m_tagsElements.empty() && !m_seekInfos.empty()) || fileInfo().size() > fileInfo().maxFullParseSize())
                                 && !m_segmentInfoElements.empty()) {
-                                goto finish;
+                                segmentCompleted = true;
                             }
                             break;
                         }
@@ -586,7 +589,6 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
     }
 
     // finally parse the "Info"-element and fetch "EditionEntry"-elements
-finish:
     try {
         parseSegmentInfo(diag);
     } catch (const Failure &) {
-- 
2.43.0


From 2f4482f6b2e68228ca72047fd8ab810838e8389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 076/176] fix: do not drop attachments missing in the seek head
 when saving Matroska files

---
 matroska/matroskacontainer.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index edf207a..31ea393 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -919,7 +919,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
     std::uint64_t tagElementsSize = 0;
     std::uint64_t tagsSize;
     std::vector<MatroskaAttachmentMaker> attachmentMaker;
-    attachmentMaker.reserve(m_attachments.size());
     std::uint64_t attachedFileElementsSize = 0;
     std::uint64_t attachmentsSize;
     std::vector<MatroskaTrackHeaderMaker> trackHeaderMaker;
@@ -1000,6 +999,24 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         }
         tagsSize = tagElementsSize ? 4 + EbmlElement::calculateSizeDenotationLength(tagElementsSize) + tagElementsSize : 0;
 
+        // parse attachments which have been missed so far because they are behind the clusters and not present in the "SeekHead"-element
+        auto knownAttachmentsElements = m_attachmentsElements;
+        m_attachmentsElements.clear();
+        for (auto *element = level0Element; element; element = element->nextSibling()) {
+            element->parse(diag);
+            if (element->id() != MatroskaIds::Segment) {
+                continue;
+            }
+            for (auto *attachmentsElement = element->childById(MatroskaIds::Attachments, diag); attachmentsElement;
+                attachmentsElement = attachmentsElement->siblingById(MatroskaIds::Attachments, diag)) {
+                if (excludesOffset(knownAttachmentsElements, attachmentsElement->startOffset())) {
+                    m_attachmentsElements.emplace_back(attachmentsElement);
+                }
+            }
+        }
+        internalParseAttachments(diag, progress);
+        m_attachmentsElements.insert(m_attachmentsElements.begin(), knownAttachmentsElements.begin(), knownAttachmentsElements.end());
+
         // calculate size of "Attachments"-element
         for (auto &attachment : m_attachments) {
             if (!attachment->isIgnored()) {
-- 
2.43.0


From 5b733108507948bfa3730db6b9a62c44b5548583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 077/176] fix: skip voided atoms entirely when saving MP4 file
 in-place

---
 mp4/mp4container.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 1cf39d5..7ebee49 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -822,6 +822,7 @@ calculatePadding:
                             // must void these if they occur "between" the media data
                             outputStream.seekp(4, ios_base::cur);
                             outputWriter.writeUInt32BE(Mp4AtomIds::Free);
+                            outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()) - 8, ios_base::cur);
                             break;
                         default:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
-- 
2.43.0


From 19817582c2c97fa9c7080b0ecfc1c7a0155a7616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 078/176] fix: consider new tag position when calculating
 padding of MP4 file

---
 mp4/mp4container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 7ebee49..00e053c 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -456,6 +456,7 @@ calculateMovieAtomSize:
         }
     }
 
+calculatePadding:
     // calculate offset of padding
     // -> file type atom
     currentOffset = fileTypeAtom->totalSize();
@@ -473,7 +474,6 @@ calculateMovieAtomSize:
     }
 
     // calculate padding if no rewrite is required; otherwise use the preferred padding
-calculatePadding:
     if (rewriteRequired) {
         newPadding = (fileInfo().preferredPadding() && fileInfo().preferredPadding() < 8 ? 8 : fileInfo().preferredPadding());
     } else {
-- 
2.43.0


From ce6e79a3ecee0bbe111227ef6673f2a15daa6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 079/176] fix: update offsets of MP4 files with several media
 data atoms or movie fragments correctly

---
 mp4/mp4container.cpp | 26 ++++++++++----------------
 mp4/mp4track.cpp     | 38 ++++++++++++++++++++++----------------
 mp4/mp4track.h       |  3 +++
 3 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 00e053c..5140cb1 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -256,9 +256,9 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     std::uint64_t currentOffset;
     // -> holds track information, used when writing chunk-by-chunk
     vector<tuple<istream *, vector<std::uint64_t>, vector<std::uint64_t>>> trackInfos;
-    // -> holds offsets of media data atoms in original file, used when simply copying mdat
+    // -> holds offsets of media data atoms (and movie fragments) in original file, used when simply copying mdat
     vector<std::int64_t> origMediaDataOffsets;
-    // -> holds offsets of media data atoms in new file, used when simply copying mdat
+    // -> holds offsets of media data atoms (and movie fragments) in new file, used when simply copying mdat
     vector<std::int64_t> newMediaDataOffsets;
     // -> new size of movie atom and user data atom
     std::uint64_t movieAtomSize, userDataAtomSize;
@@ -727,13 +727,14 @@ calculatePadding:
                             if (writeChunkByChunk) {
                                 // write actual data separately when writing chunk-by-chunk
                                 break;
-                            } else {
-                                // store media data offsets when not writing chunk-by-chunk to be able to update chunk offset table
-                                origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
-                                newMediaDataOffsets.push_back(outputStream.tellp());
                             }
                             [[fallthrough]];
                         default:
+                            // store offsets when not writing chunk-by-chunk to be able to update chunk offset table and offsets of fragments
+                            if (!writeChunkByChunk) {
+                                origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
+                                newMediaDataOffsets.push_back(outputStream.tellp());
+                            }
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
                             // copy atom entirely and forward status update calls
@@ -972,16 +973,9 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
                         }
                         stream().seekg(4, ios_base::cur); // skip track ID
                         std::uint64_t off = reader().readUInt64BE();
-                        for (auto iOld = oldMdatOffsets.cbegin(), iNew = newMdatOffsets.cbegin(), end = oldMdatOffsets.cend(); iOld != end;
-                            ++iOld, ++iNew) {
-                            if (off < static_cast<std::uint64_t>(*iOld)) {
-                                continue;
-                            }
-                            off += static_cast<std::uint64_t>(*iNew - *iOld);
-                            stream().seekp(static_cast<iostream::off_type>(tfhdAtom->dataOffset()) + 8);
-                            writer().writeUInt64BE(off);
-                            break;
-                        }
+                        off = Mp4Track::mapOffset(off, oldMdatOffsets, newMdatOffsets);
+                        stream().seekp(static_cast<iostream::off_type>(tfhdAtom->dataOffset()) + 8);
+                        writer().writeUInt64BE(off);
                     }
                     switch (tfhdAtomCount) {
                     case 0:
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8a77edd..092f5fc 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -927,6 +927,26 @@ std::unique_ptr<Mpeg4VideoSpecificConfig> Mp4Track::parseVideoSpecificConfig(
     return videoCfg;
 }
 
+/*!
+ * \brief Returns the new value for the specified absolute \a offset after media data atoms have been moved.
+ * \remarks The offset refers to the atom which starts at or before it and as close to it as possible. An offset before
+ *          any of the moved atoms is returned as-is.
+ */
+std::uint64_t Mp4Track::mapOffset(
+    std::uint64_t offset, const std::vector<std::int64_t> &oldMdatOffsets, const std::vector<std::int64_t> &newMdatOffsets)
+{
+    auto closest = oldMdatOffsets.cend();
+    for (auto i = oldMdatOffsets.cbegin(), end = oldMdatOffsets.cend(); i != end; ++i) {
+        if (static_cast<std::uint64_t>(*i) <= offset && (closest == end || *i > *closest)) {
+            closest = i;
+        }
+    }
+    if (closest != oldMdatOffsets.cend()) {
+        offset += static_cast<std::uint64_t>(newMdatOffsets[static_cast<std::size_t>(closest - oldMdatOffsets.cbegin())] - *closest);
+    }
+    return offset;
+}
+
 /*!
  * \brief Updates the chunk offsets of the track. This is necessary when the "mdat"-atom
  *        (which contains the actual chunk data) is moved.
@@ -957,22 +977,14 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
     std::uint64_t endPos = startPos + m_stcoAtom->dataSize() - stcoDataBegin;
     m_istream->seekg(static_cast<streamoff>(startPos));
     m_ostream->seekp(static_cast<streamoff>(startPos));
-    vector<std::int64_t>::size_type i;
-    vector<std::int64_t>::size_type size;
     auto currentPos = static_cast<std::uint64_t>(m_istream->tellg());
     switch (m_stcoAtom->id()) {
     case Mp4AtomIds::ChunkOffset: {
         std::uint32_t off;
         while ((currentPos + 4) <= endPos) {
             off = m_reader.readUInt32BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint32_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
-                    break;
-                }
-            }
             m_ostream->seekp(static_cast<streamoff>(currentPos));
-            m_writer.writeUInt32BE(off);
+            m_writer.writeUInt32BE(static_cast<std::uint32_t>(mapOffset(off, oldMdatOffsets, newMdatOffsets)));
             currentPos += static_cast<std::uint64_t>(m_istream->gcount());
         }
         break;
@@ -981,14 +993,8 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
         std::uint64_t off;
         while ((currentPos + 8) <= endPos) {
             off = m_reader.readUInt64BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint64_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
-                    break;
-                }
-            }
             m_ostream->seekp(static_cast<streamoff>(currentPos));
-            m_writer.writeUInt64BE(off);
+            m_writer.writeUInt64BE(mapOffset(off, oldMdatOffsets, newMdatOffsets));
             currentPos += static_cast<std::uint64_t>(m_istream->gcount());
         }
         break;
diff --git a/mp4/mp4track.h b/mp4/mp4track.h
index ce51800..6d19a8f 100644
--- a/mp4/mp4track.h
+++ b/mp4/mp4track.h
@@ -162,6 +162,9 @@ public:
     void updateChunkOffsets(const std::vector<std::uint64_t> &chunkOffsets);
     void updateChunkOffset(std::uint32_t chunkIndex, std::uint64_t offset);
 
+    static std::uint64_t mapOffset(
+        std::uint64_t offset, const std::vector<std::int64_t> &oldMdatOffsets, const std::vector<std::int64_t> &newMdatOffsets);
+
     static void addInfo(const AvcConfiguration &avcConfig, AbstractTrack &track);
     static void addInfo(const Av1Configuration &av1Config, AbstractTrack &track);
 
-- 
2.43.0


From 97cb6022fb53d313e74cd85e27056d2fe742e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 080/176] fix: save MP4 files without media data

---
 mp4/mp4container.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 5140cb1..7945695 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -333,7 +333,8 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 newTagPos = currentTagPos;
             }
         } else {
-            currentTagPos = ElementPosition::Keep;
+            // there is no media data so the movie atom is simply written behind the preceding atoms
+            newTagPos = initialNewTagPos = currentTagPos = ElementPosition::BeforeData;
         }
 
         // ensure index and tags are always placed at the beginning when dealing with DASH files
@@ -485,13 +486,13 @@ calculatePadding:
             //    min padding: says "at least ... byte should be reserved to prepend further tag info", so the padding at the end
             //                 shouldn't be tanken into account (it can't be used to prepend further tag info)
             //    max padding: says "do not waste more than ... byte", so here all padding should be taken into account
-            newPadding = firstMediaDataAtom->startOffset() - currentOffset;
+            newPadding = firstMediaDataAtom ? firstMediaDataAtom->startOffset() - currentOffset : 0;
             rewriteRequired = (newPadding > 0 && newPadding < 8) || newPadding < fileInfo().minPadding()
                 || (newPadding + newPaddingEnd) > fileInfo().maxPadding();
         }
         if (rewriteRequired) {
             // can't put the tags before media data
-            if (!firstMovieFragmentAtom && !fileInfo().forceTagPosition() && !fileInfo().forceIndexPosition()
+            if (firstMediaDataAtom && !firstMovieFragmentAtom && !fileInfo().forceTagPosition() && !fileInfo().forceIndexPosition()
                 && newTagPos != ElementPosition::AfterData) {
                 // writing tag before media data is not forced, its not a DASH file and tags aren't already at the end
                 // -> try to put the tags at the end
@@ -910,7 +911,9 @@ calculatePadding:
                 }
             } else {
                 progress.updateStep("Updating chunk offset table for each track ...");
-                updateOffsets(origMediaDataOffsets, newMediaDataOffsets, diag, progress);
+                if (!origMediaDataOffsets.empty()) {
+                    updateOffsets(origMediaDataOffsets, newMediaDataOffsets, diag, progress);
+                }
             }
         }
 
-- 
2.43.0


From b29f9d6c6d98cba078ea52583e624ad42d3d414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 081/176] fix: write meta atom only once if an MP4 file
 contains several of them

---
 mp4/mp4container.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 7945695..b3dbaa5 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -646,10 +646,12 @@ calculatePadding:
                                 switch (level2Atom->id()) {
                                 case Mp4AtomIds::Meta:
                                     // write meta atom
-                                    for (auto &maker : tagMaker) {
-                                        maker.make(outputStream, diag);
+                                    if (!metaAtomWritten) {
+                                        for (auto &maker : tagMaker) {
+                                            maker.make(outputStream, diag);
+                                        }
+                                        metaAtomWritten = true;
                                     }
-                                    metaAtomWritten = true;
                                     break;
                                 default:
                                     // write buffered data
-- 
2.43.0


From e30d70bf66eee368872036ca2846c2e70201b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 082/176] fix: preserve unknown children of mdia atoms

---
 mp4/mp4track.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 092f5fc..69854a0 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1137,6 +1137,14 @@ void Mp4Track::bufferTrackAtoms(Diagnostics &diag)
         }
         trakChild->makeBuffer();
     }
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (childAtom->id() == Mp4AtomIds::MediaInformation) {
+                continue;
+            }
+            childAtom->makeBuffer();
+        }
+    }
     if (m_minfAtom) {
         for (Mp4Atom *childAtom = m_minfAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
             if (childAtom->id() == Mp4AtomIds::SampleTable) {
@@ -1229,6 +1237,19 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
     }
     // ... mdia header + hdlr total size + minf header
     size += 8 + (33 + m_name.size()) + 8;
+    // ... further mdia children
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            switch (childAtom->id()) {
+            case Mp4AtomIds::MediaHeader:
+            case Mp4AtomIds::HandlerReference:
+            case Mp4AtomIds::MediaInformation:
+                break;
+            default:
+                size += childAtom->totalSize();
+            }
+        }
+    }
     // ... minf children
     auto dinfAtomWritten = false;
     if (m_minfAtom) {
@@ -1467,6 +1488,19 @@ void Mp4Track::makeMedia(Diagnostics &diag)
     for (int i = 0; i < 3; ++i)
         writer().writeUInt32BE(0); // reserved
     writer().writeTerminatedString(m_name);
+    // write further children as-is
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            switch (childAtom->id()) {
+            case Mp4AtomIds::MediaHeader:
+            case Mp4AtomIds::HandlerReference:
+            case Mp4AtomIds::MediaInformation:
+                break;
+            default:
+                childAtom->copyPreferablyFromBuffer(outputStream(), diag, nullptr);
+            }
+        }
+    }
     // write minf atom
     makeMediaInfo(diag);
     // write size (of mdia atom)
-- 
2.43.0


From f8b18dbefb730e6aefca32439d52c7c2d73e35c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 083/176] fix: compute size of mdhd atom according to the
 version which is going to be written

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 69854a0..2c2d771 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1228,7 +1228,7 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
         size += trakChild->totalSize();
     }
     // ... mdhd total size
-    if (info.timingsVersion == 0) {
+    if (info.timings.requiredMdhdVersion() == 0) {
         // write version 0 where timing fields are 32-bit
         size += 32;
     } else {
-- 
2.43.0


From 930bfb573161e375c20eb06b810e5390013eb6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 084/176] fix: preserve unknown flags of tkhd atom

---
 mp4/mp4track.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 2c2d771..2712015 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1338,7 +1338,10 @@ void Mp4Track::makeTrackHeader(Diagnostics &diag)
 
     // make version and flags
     writer().writeByte(info.writeVersion);
-    std::uint32_t flags = 0;
+    // -> preserve flags which are not handled otherwise
+    std::uint32_t flags = info.canUseExisting
+        ? BE::toInt<std::uint32_t>(m_tkhdAtom->buffer().get() + m_tkhdAtom->headerSize()) & static_cast<std::uint32_t>(0xFFFFF8)
+        : static_cast<std::uint32_t>(0);
     if (isEnabled()) {
         flags |= 0x000001;
     }
-- 
2.43.0


From fbecde99e7e1c31d1b5226b3a318fbab11da4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 085/176] fix: read null terminated track name if first
 character matches size

---
 mp4/mp4track.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 2712015..e5f8d4e 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1768,6 +1768,12 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         // assume size prefixed string (seems to appear in QuickTime files)
         m_istream->seekg(1, ios_base::cur);
         m_name = reader.readString(tmp);
+        if (!m_name.empty() && !m_name.back()) {
+            // assume null terminated string nevertheless (the first character merely happens to match the size)
+            m_name.pop_back();
+            m_name.insert(m_name.begin(), static_cast<char>(tmp));
+            m_name.resize(std::min(m_name.find('\0'), m_name.size()));
+        }
     } else {
         // assume null terminated string (appears in MP4 files)
         m_name = reader.readTerminatedString(m_hdlrAtom->dataSize() - 12 - 4 - 8, 0);
-- 
2.43.0


From 8a25d1685284b29341152278a5c2e60645fd11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 086/176] fix: support MP4 tracks without chunks when writing
 chunk by chunk

---
 mp4/mp4container.cpp | 2 +-
 mp4/mp4track.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index b3dbaa5..c931e08 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -809,7 +809,7 @@ calculatePadding:
 
                             // incrase chunk index within track, update progress percentage
                             if (!(++chunkIndexWithinTrack % 10)) {
-                                progress.updateStepPercentage(static_cast<std::uint8_t>(totalChunksCopied * 100 / totalChunkCount));
+                                progress.updateStepPercentage(static_cast<std::uint8_t>(totalChunkCount ? totalChunksCopied * 100 / totalChunkCount : 100));
                             }
 
                         } while (anyChunksCopied);
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index e5f8d4e..0adbbe0 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -211,7 +211,7 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
         // verify integrity of the chunk offset table
         auto offsetSize = m_stcoAtom->id() == Mp4AtomIds::ChunkOffset64 ? 8u : 4u;
         auto actualTableSize = m_stcoAtom->dataSize();
-        if (actualTableSize < (8 + offsetSize)) {
+        if (actualTableSize < (8 + (chunkCount() ? offsetSize : 0u))) {
             diag.emplace_back(DiagLevel::Critical, "The stco/co64 atom is truncated. There are no chunk offsets present.", context);
             throw InvalidDataException();
         } else {
@@ -521,7 +521,7 @@ vector<tuple<std::uint32_t, std::uint32_t, std::uint32_t>> Mp4Track::readSampleT
     }
     // verify integrity of the sample to chunk table
     std::uint64_t actualTableSize = m_stscAtom->dataSize();
-    if (actualTableSize < 20) {
+    if (actualTableSize < (sampleToChunkEntryCount() ? 20 : 8)) {
         diag.emplace_back(DiagLevel::Critical, "The stsc atom is truncated. There are no \"sample to chunk\" entries present.", context);
         throw InvalidDataException();
     } else {
-- 
2.43.0


From 311e77916b4e33dcf792e91c0918238d2c528944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:45 +0000
Subject: [PATCH 087/176] fix: read 4-bit sample sizes of MP4 tracks correctly

---
 mp4/mp4track.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 0adbbe0..c47d0d1 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -2034,12 +2034,11 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                 for (; i <= actualSampleCount; i += 2) {
                     std::uint8_t val = reader.readByte();
                     m_sampleSizes.push_back(val >> 4);
-                    m_sampleSizes.push_back(val & 0xF0);
-                    m_size += (val >> 4) + (val & 0xF0);
-                }
-                if (i <= actualSampleCount + 1) {
-                    m_sampleSizes.push_back(reader.readByte() >> 4);
                     m_size += m_sampleSizes.back();
+                    if (i < actualSampleCount) {
+                        m_sampleSizes.push_back(val & 0x0F);
+                        m_size += m_sampleSizes.back();
+                    }
                 }
                 break;
             case 8:
-- 
2.43.0


From ac5324dda16b645a17a207c17c42f33be3f571d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:45 +0000
Subject: [PATCH 088/176] fix: keep padding between movie fragments as relative
 offsets might cover it

---
 mp4/mp4container.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index c931e08..75a296d 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -314,8 +314,13 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             case Mp4AtomIds::FileType:
             case Mp4AtomIds::ProgressiveDownloadInformation:
             case Mp4AtomIds::Movie:
+                continue;
             case Mp4AtomIds::Free:
             case Mp4AtomIds::Skip:
+                // keep padding between media data of DASH files as it might be covered by relative offsets
+                if (firstMovieFragmentAtom && firstMediaDataAtom) {
+                    mediaSize += level0Atom->totalSize();
+                }
                 continue;
             default:
                 if (!firstMediaDataAtom) {
@@ -723,8 +728,13 @@ calculatePadding:
                         case Mp4AtomIds::FileType:
                         case Mp4AtomIds::ProgressiveDownloadInformation:
                         case Mp4AtomIds::Movie:
+                            break;
                         case Mp4AtomIds::Free:
                         case Mp4AtomIds::Skip:
+                            // keep padding between media data of DASH files as it might be covered by relative offsets
+                            if (firstMovieFragmentAtom) {
+                                level0Atom->copyEntirely(outputStream, diag, &progress);
+                            }
                             break;
                         case Mp4AtomIds::MediaData:
                             if (writeChunkByChunk) {
-- 
2.43.0


From f73b10114279748e1895e53a8df49e5e0998d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:21 +0000
Subject: [PATCH 089/176] fix: denote size of last MP4 atom when writing tags
 behind it

---
 mp4/mp4container.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 75a296d..e2f782f 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -266,6 +266,9 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     const auto trackCount = this->trackCount();
     // -> media size of original file
     auto mediaSize = std::uint64_t();
+    // -> whether the last atom extends to the end of the file (and therefore needs an actual size before something can be written behind it)
+    const Mp4Atom *openEndedAtom = nullptr;
+    auto openEndedAtomTooBig = false;
 
     // find relevant atoms in original file and determine media size
     Mp4Atom *fileTypeAtom, *progressiveDownloadInfoAtom, *movieAtom, *firstMediaDataAtom, *firstMovieFragmentAtom /*, *userDataAtom*/;
@@ -327,6 +330,11 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     firstMediaDataAtom = level0Atom;
                 }
                 mediaSize += level0Atom->totalSize();
+                if (!level0Atom->nextSibling()) {
+                    stream().seekg(static_cast<iostream::off_type>(level0Atom->startOffset()));
+                    openEndedAtom = reader().readUInt32BE() ? nullptr : level0Atom;
+                    openEndedAtomTooBig = openEndedAtom && openEndedAtom->totalSize() > numeric_limits<std::uint32_t>::max();
+                }
             }
         }
 
@@ -349,6 +357,12 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     DiagLevel::Warning, "Sorry, but putting index/tags at the end is not possible when dealing with DASH files.", context);
             }
             initialNewTagPos = newTagPos = ElementPosition::BeforeData;
+        } else if (openEndedAtomTooBig) {
+            if (initialNewTagPos == ElementPosition::AfterData) {
+                diag.emplace_back(DiagLevel::Warning,
+                    "Sorry, but putting index/tags at the end is not possible because the last atom is too big and does not denote its size.", context);
+            }
+            initialNewTagPos = newTagPos = ElementPosition::BeforeData;
         }
 
         // user data atom (currently not used)
@@ -497,7 +511,7 @@ calculatePadding:
         }
         if (rewriteRequired) {
             // can't put the tags before media data
-            if (firstMediaDataAtom && !firstMovieFragmentAtom && !fileInfo().forceTagPosition() && !fileInfo().forceIndexPosition()
+            if (firstMediaDataAtom && !firstMovieFragmentAtom && !openEndedAtomTooBig && !fileInfo().forceTagPosition() && !fileInfo().forceIndexPosition()
                 && newTagPos != ElementPosition::AfterData) {
                 // writing tag before media data is not forced, its not a DASH file and tags aren't already at the end
                 // -> try to put the tags at the end
@@ -616,6 +630,17 @@ calculatePadding:
             track->setOutputStream(outputStream);
         }
 
+        // define function to denote the actual size of the last atom if something is going to be written behind it
+        const auto denoteSize = [&outputStream, &outputWriter, &newTagPos, openEndedAtom](const Mp4Atom *atom, std::uint64_t offset) {
+            if (atom != openEndedAtom || newTagPos != ElementPosition::AfterData) {
+                return;
+            }
+            const auto currentPos = outputStream.tellp();
+            outputStream.seekp(static_cast<iostream::off_type>(offset));
+            outputWriter.writeUInt32BE(static_cast<std::uint32_t>(atom->totalSize()));
+            outputStream.seekp(currentPos);
+        };
+
         // write movie atom / padding and media data
         for (std::uint8_t pass = 0; pass != 2; ++pass) {
             if (newTagPos == (pass ? ElementPosition::AfterData : ElementPosition::BeforeData)) {
@@ -751,7 +776,9 @@ calculatePadding:
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
                             // copy atom entirely and forward status update calls
+                            const auto newOffset = static_cast<std::uint64_t>(outputStream.tellp());
                             level0Atom->copyEntirely(outputStream, diag, &progress);
+                            denoteSize(level0Atom, newOffset);
                         }
                     }
 
@@ -840,6 +867,7 @@ calculatePadding:
                             break;
                         default:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
+                            denoteSize(level0Atom, level0Atom->startOffset());
                         }
                         if (level0Atom == lastAtomToBeWritten) {
                             break;
-- 
2.43.0


From 741c770265960c425e69c3092acbe9dee7264368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 090/176] fix: convert chunk offset table from buffered atom
 when saving in-place

---
 mp4/mp4track.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index c47d0d1..926e1bd 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1586,7 +1586,18 @@ void Mp4Track::makeSampleTable(Diagnostics &diag)
     if (!stcoSize) {
         return;
     }
-    const auto chunkOffsets = readChunkOffsets(false, diag);
+    auto chunkOffsets = std::vector<std::uint64_t>();
+    if (m_stcoAtom && m_stcoAtom->buffer()) {
+        // prefer buffered chunk offset table as the input stream might have already been overwritten
+        const auto offsetSize = m_stcoAtom->id() == Mp4AtomIds::ChunkOffset64 ? 8u : 4u;
+        const auto *const table = m_stcoAtom->buffer().get() + m_stcoAtom->headerSize() + 8;
+        const auto tableSize = m_stcoAtom->dataSize() < 8 ? 0 : m_stcoAtom->dataSize() - 8;
+        for (auto offset = std::uint64_t(); offset + offsetSize <= tableSize && chunkOffsets.size() < chunkCount(); offset += offsetSize) {
+            chunkOffsets.emplace_back(offsetSize == 8 ? BE::toInt<std::uint64_t>(table + offset) : BE::toInt<std::uint32_t>(table + offset));
+        }
+    } else {
+        chunkOffsets = readChunkOffsets(false, diag);
+    }
     const auto atomId = chunkOffsetSize() == 8 ? Mp4AtomIds::ChunkOffset64 : Mp4AtomIds::ChunkOffset;
     Mp4Atom::makeHeader(stcoSize, atomId, writer());
     writer().writeUInt32BE(0); // version + flags
-- 
2.43.0


From f9c779be121cd590add15899119aab5d828f59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:05 +0000
Subject: [PATCH 091/176] fix: start at the beginning of the segment when
 repositioning Ogg iterator

---
 ogg/oggiterator.cpp | 2 +-
 ogg/oggiterator.h   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 7a3cd22..572c8dc 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -45,7 +45,7 @@ void OggIterator::clear(istream &stream, std::uint64_t startOffset, std::uint64_
  */
 void OggIterator::reset()
 {
-    for (m_page = m_segment = m_offset = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
+    for (m_page = m_segment = m_offset = m_bytesRead = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
         const OggPage &page = m_pages[m_page];
         if (!page.segmentSizes().empty() && matchesFilter(page)) {
             // page is not empty and matches ID filter if set
diff --git a/ogg/oggiterator.h b/ogg/oggiterator.h
index c76a06f..f01c30b 100644
--- a/ogg/oggiterator.h
+++ b/ogg/oggiterator.h
@@ -183,7 +183,7 @@ inline std::vector<OggPage>::size_type OggIterator::currentPageIndex() const
 inline void OggIterator::setPageIndex(std::vector<OggPage>::size_type index)
 {
     const OggPage &page = m_pages[m_page = index];
-    m_segment = 0;
+    m_segment = m_bytesRead = 0;
     m_offset = page.startOffset() + page.headerSize();
 }
 
@@ -196,6 +196,7 @@ inline void OggIterator::setSegmentIndex(std::vector<std::uint32_t>::size_type i
 {
     const OggPage &page = m_pages[m_page];
     m_offset = page.dataOffset(m_segment = index);
+    m_bytesRead = 0;
 }
 
 /*!
-- 
2.43.0


From 286a368f4ec6f113637673275e7ba706d2d4429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:05 +0000
Subject: [PATCH 092/176] fix: avoid reading beyond the end of the file when
 looking for the next Ogg page

---
 ogg/oggiterator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 572c8dc..99f3445 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -244,7 +244,9 @@ bool OggIterator::resyncAt(std::uint64_t offset)
     // find capture pattern 'OggS'
     stream().seekg(static_cast<streamoff>(offset));
     std::uint8_t lettersFound = 0;
-    for (std::uint64_t bytesAvailable = max<std::uint64_t>(streamSize() - offset, 65307ul); bytesAvailable >= 27; --bytesAvailable) {
+    auto bytesAvailable = streamSize() - offset;
+    for (auto bytesToCheck = min<std::uint64_t>(bytesAvailable, 65307ul); bytesToCheck && bytesAvailable + lettersFound >= 27;
+         --bytesToCheck, --bytesAvailable) {
         switch (static_cast<char>(stream().get())) {
         case 'O':
             lettersFound = 1;
@@ -256,11 +258,12 @@ bool OggIterator::resyncAt(std::uint64_t offset)
             if (lettersFound == 3) {
                 // capture pattern found
                 const auto currentOffset = stream().tellg();
+                const auto pageSizeLimit = bytesAvailable + 3;
                 // -> try to parse an Ogg page at this position
                 try {
                     m_pages.emplace_back(stream(), static_cast<std::uint64_t>(stream().tellg()) - 4,
-                        bytesAvailable > numeric_limits<std::int32_t>::max() ? numeric_limits<std::int32_t>::max()
-                                                                             : static_cast<std::int32_t>(bytesAvailable));
+                        pageSizeLimit > numeric_limits<std::int32_t>::max() ? numeric_limits<std::int32_t>::max()
+                                                                            : static_cast<std::int32_t>(pageSizeLimit));
                     setPageIndex(m_pages.size() - 1);
                     return true;
                 } catch (const Failure &) {
-- 
2.43.0


From a862d1af694397b92948fe39d14acbbc8d9c9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:05 +0000
Subject: [PATCH 093/176] fix: compute padding of Vorbis comments only
 considering the packet of the comment

---
 vorbis/vorbiscomment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 9638638..d68fb91 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -306,7 +306,7 @@ void VorbisComment::internalParse(StreamType &stream, std::uint64_t maxSize, Vor
         auto bytesRemaining = std::uint64_t();
         if (stream) {
             bytesRemaining = stream.remainingBytesInCurrentSegment();
-            if (stream.currentPage().isLastSegmentUnconcluded()) {
+            if (stream.currentSegmentIndex() + 1 == stream.currentPage().segmentSizes().size() && stream.currentPage().isLastSegmentUnconcluded()) {
                 stream.nextSegment();
                 if (stream) {
                     bytesRemaining += stream.remainingBytesInCurrentSegment();
-- 
2.43.0


From cc0e152af7853ebf9d9cf97f3e6dc97a2ae34a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 094/176] fix: rewrite comments in Ogg files per logical stream
 preserving all other packets, flags and granule positions

---
 ogg/oggcontainer.cpp | 363 ++++++++++++++++++++-----------------------
 ogg/oggcontainer.h   |   4 +-
 2 files changed, 168 insertions(+), 199 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index a8348c4..46b3cde 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -10,8 +10,10 @@
 #include <c++utilities/conversion/stringbuilder.h>
 #include <c++utilities/io/copy.h>
 
+#include <algorithm>
 #include <limits>
 #include <memory>
+#include <numeric>
 
 using namespace std;
 using namespace CppUtilities;
@@ -377,10 +379,10 @@ void OggContainer::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
 
 /*!
  * \brief Writes the specified \a comment with the given \a params to the specified \a buffer and
- *        adds the number of bytes written to \a newSegmentSizes.
+ *        returns the number of bytes written.
  */
-void OggContainer::makeVorbisCommentSegment(stringstream &buffer, CopyHelper<65307> &copyHelper, vector<std::uint32_t> &newSegmentSizes,
-    VorbisComment *comment, OggParameter *params, Diagnostics &diag)
+std::uint32_t OggContainer::makeVorbisCommentSegment(
+    stringstream &buffer, CopyHelper<65307> &copyHelper, VorbisComment *comment, OggParameter *params, Diagnostics &diag)
 {
     const auto offset = buffer.tellp();
     switch (params->streamFormat) {
@@ -418,7 +420,7 @@ void OggContainer::makeVorbisCommentSegment(stringstream &buffer, CopyHelper<653
     }
     MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
 
-    newSegmentSizes.push_back(static_cast<std::uint32_t>(buffer.tellp() - offset));
+    return static_cast<std::uint32_t>(buffer.tellp() - offset);
 }
 
 void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback &progress)
@@ -458,233 +460,197 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     try {
         progress.nextStepOrStop("Writing Ogg pages ...");
 
-        // prepare iterating comments
-        OggVorbisComment *currentComment;
-        OggParameter *currentParams;
-        auto tagIterator = m_tags.cbegin(), tagEnd = m_tags.cend();
-        if (tagIterator != tagEnd) {
-            currentParams = &(currentComment = tagIterator->get())->oggParams();
-        } else {
-            currentComment = nullptr;
-            currentParams = nullptr;
+        // determine where the comments are located
+        // note: The pages are read again from the original file because the parser might have skipped some of them.
+        struct CommentLocation {
+            OggVorbisComment *comment;
+            std::uint64_t firstPageOffset, granulePosition;
+        };
+        auto commentLocations = std::vector<CommentLocation>();
+        commentLocations.reserve(m_tags.size());
+        for (const auto &tag : m_tags) {
+            const auto &params = tag->oggParams();
+            const auto &pages = m_iterator.pages();
+            if (params.firstPageIndex >= pages.size() || params.lastPageIndex >= pages.size()) {
+                continue;
+            }
+            commentLocations.emplace_back(CommentLocation{
+                tag.get(), pages[params.firstPageIndex].startOffset(), pages[params.lastPageIndex].absoluteGranulePosition() });
         }
 
         // define misc variables
-        const OggPage *lastPage = nullptr;
         static constexpr auto oggPageHeaderSize = 27u;
-        auto lastPageNewOffset = std::uint64_t();
+        static constexpr auto maxLacingValues = std::size_t(0xFF);
+        static constexpr auto noPacketsFinishOnPage = std::numeric_limits<std::uint64_t>::max();
         auto copyHelper = CopyHelper<65307>();
         auto updatedPageOffsets = std::vector<std::uint64_t>();
-        auto nextPageOffset = std::uint64_t();
-        auto pageSequenceNumberBySerialNo = std::unordered_map<std::uint32_t, std::uint32_t>();
+        auto lastPageNewOffset = std::uint64_t();
+        struct StreamState {
+            std::uint32_t sequenceNumberOffset = 0; // difference between new and original page sequence numbers
+            bool commentUnfinished = false; // whether the comment to be omitted is continued on the next page
+            std::uint64_t lastPageOffset = 0; // offset of last page written so far
+            bool pageWritten = false;
+        };
+        auto streamStates = std::unordered_map<std::uint32_t, StreamState>();
+        auto lastPageFlagOffsets = std::vector<std::uint64_t>();
+
+        // writes packets as one or more pages using the header of the specified page as base
+        const auto writePages = [&](const OggPage &basePage, std::uint32_t sequenceNumber, std::uint8_t flags, std::uint64_t granulePosition,
+                                    const std::vector<std::uint8_t> &lacingValues, std::istream &data) {
+            auto pagesWritten = std::uint32_t();
+            for (auto i = std::size_t(); i < lacingValues.size(); i += maxLacingValues, ++pagesWritten) {
+                const auto begin = lacingValues.cbegin() + static_cast<std::ptrdiff_t>(i);
+                const auto lacingValueCount = std::min(maxLacingValues, lacingValues.size() - i);
+                const auto end = begin + static_cast<std::ptrdiff_t>(lacingValueCount);
+                // adjust the flags "continued packet" (bit 0), "first page of logical bitstream" (bit 1) and "last page of logical bitstream" (bit 2)
+                auto pageFlags = flags;
+                if (i) {
+                    pageFlags = static_cast<std::uint8_t>((pageFlags & ~0x03) | (lacingValues[i - 1] == 0xFF ? 0x01 : 0x00));
+                }
+                if (i + lacingValueCount < lacingValues.size()) {
+                    pageFlags = static_cast<std::uint8_t>(pageFlags & ~0x04);
+                }
+                // memorize offset to update checksum later
+                lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+                updatedPageOffsets.push_back(lastPageNewOffset);
+                // copy page header from original file and override it as needed
+                char header[oggPageHeaderSize];
+                backupStream.seekg(static_cast<std::streamoff>(basePage.startOffset()));
+                backupStream.read(header, oggPageHeaderSize);
+                header[5] = static_cast<char>(pageFlags);
+                LE::getBytes(std::any_of(begin, end, [](auto lacingValue) { return lacingValue < 0xFF; }) ? granulePosition : noPacketsFinishOnPage,
+                    header + 6);
+                LE::getBytes(static_cast<std::uint32_t>(sequenceNumber + pagesWritten), header + 18);
+                header[26] = static_cast<char>(lacingValueCount);
+                stream().write(header, oggPageHeaderSize);
+                // write segment table and data
+                stream().write(reinterpret_cast<const char *>(&*begin), static_cast<std::streamsize>(lacingValueCount));
+                copyHelper.copy(data, stream(), std::accumulate(begin, end, std::size_t()));
+            }
+            return pagesWritten;
+        };
+        const auto appendLacingValues = [](std::vector<std::uint8_t> &lacingValues, std::uint32_t size, bool concluded) {
+            lacingValues.insert(lacingValues.end(), size / 0xFF, 0xFF);
+            if (concluded) {
+                lacingValues.emplace_back(static_cast<std::uint8_t>(size % 0xFF));
+            }
+        };
 
         // iterate through all pages of the original file
         auto updateTick = 0u;
-        for (m_iterator.setStream(backupStream), m_iterator.removeFilter(), m_iterator.reset(); m_iterator; m_iterator.nextPage(), ++updateTick) {
-            const OggPage &currentPage = m_iterator.currentPage();
-            if (updateTick % 10) {
-                progress.updateStepPercentage(static_cast<std::uint8_t>(currentPage.startOffset() * 100ul / totalFileSize));
+        for (auto offset = startOffset(); offset < totalFileSize; ++updateTick) {
+            if (updateTick % 10 == 0) {
+                progress.updateStepPercentage(static_cast<std::uint8_t>(offset * 100ul / totalFileSize));
                 progress.stopIfAborted();
             }
 
-            // check for gaps
-            // note: This is not just to print diag messages but also for taking into account that the parser might skip pages
-            //       unless a full parse has been enforced.
-            if (lastPage && currentPage.startOffset() != nextPageOffset) {
-                m_iterator.pages().resize(m_iterator.currentPageIndex() - 1); // drop all further pages after the last consecutively parsed one
-                if (m_iterator.resyncAt(nextPageOffset)) {
-                    // try again at the page we've just found
-                    const auto actuallyNextPageOffset = m_iterator.currentPageOffset();
-                    if (actuallyNextPageOffset != nextPageOffset) {
-                        diag.emplace_back(DiagLevel::Critical,
-                            argsToString("Expected Ogg page at offset ", nextPageOffset, " but found the next Ogg page only at offset ",
-                                actuallyNextPageOffset, ". Skipped ", (actuallyNextPageOffset - nextPageOffset), " invalid bytes."),
-                            context);
-                        nextPageOffset = actuallyNextPageOffset;
-                    }
-                    m_iterator.previousPage();
-                    continue;
-                } else {
+            // parse the next page, skip invalid bytes
+            auto currentPage = OggPage();
+            const auto bytesAvailable = totalFileSize - offset;
+            try {
+                currentPage.parseHeader(backupStream, offset,
+                    static_cast<std::int32_t>(std::min<std::uint64_t>(bytesAvailable, std::numeric_limits<std::int32_t>::max())));
+            } catch (const InvalidDataException &) {
+                auto iterator = OggIterator(backupStream, startOffset(), totalFileSize);
+                if (!iterator.resyncAt(offset)) {
                     diag.emplace_back(DiagLevel::Critical,
-                        argsToString(
-                            "Expected Ogg page at offset ", nextPageOffset, " but could not find any further pages. Skipped the rest of the file."),
+                        argsToString("Expected Ogg page at offset ", offset, " but could not find any further pages. Skipped the rest of the file."),
                         context);
                     break;
                 }
+                const auto actualOffset = iterator.currentPageOffset();
+                diag.emplace_back(DiagLevel::Critical,
+                    argsToString("Expected Ogg page at offset ", offset, " but found the next Ogg page only at offset ", actualOffset, ". Skipped ",
+                        (actualOffset - offset), " invalid bytes."),
+                    context);
+                offset = actualOffset;
+                continue;
             }
             const auto pageSize = currentPage.totalSize();
-            auto &pageSequenceNumber = pageSequenceNumberBySerialNo[currentPage.streamSerialNumber()];
-            lastPage = &currentPage;
-            lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
-            nextPageOffset = currentPage.startOffset() + pageSize;
-
-            // check whether the Vorbis Comment is present in this Ogg page
-            if (currentComment && m_iterator.currentPageIndex() >= currentParams->firstPageIndex
-                && m_iterator.currentPageIndex() <= currentParams->lastPageIndex && !currentPage.segmentSizes().empty()) {
+            offset += pageSize;
+
+            // determine whether a comment starts on the page and whether a comment is continued on the page
+            auto &streamState = streamStates[currentPage.streamSerialNumber()];
+            if (currentPage.isFirstpage()) {
+                streamState = StreamState();
+            }
+            const auto location = std::find_if(commentLocations.cbegin(), commentLocations.cend(),
+                [&currentPage](const auto &l) { return l.firstPageOffset == currentPage.startOffset(); });
+            const auto comment = location != commentLocations.cend() ? location->comment : nullptr;
+            const auto insertComment
+                = comment && comment->oggParams().firstSegmentIndex == std::numeric_limits<std::size_t>::max() && !comment->oggParams().removed;
+            const auto &segmentSizes = currentPage.segmentSizes();
+            const auto replaceComment = comment && comment->oggParams().firstSegmentIndex < segmentSizes.size();
+            const auto omitContinuedComment = streamState.commentUnfinished && currentPage.isContinued() && !segmentSizes.empty();
+            const auto newSequenceNumber = currentPage.sequenceNumber() + streamState.sequenceNumberOffset;
+            if (!segmentSizes.empty()) {
+                streamState.commentUnfinished = false;
+            }
+            auto pagesWritten = std::uint32_t();
+            if (replaceComment || omitContinuedComment) {
                 // page needs to be rewritten (not just copied)
                 // -> write segments to a buffer first
                 auto buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
-                auto newSegmentSizes = std::vector<std::uint32_t>();
-                newSegmentSizes.reserve(currentPage.segmentSizes().size());
-                auto segmentOffset = m_iterator.currentSegmentOffset();
-                auto segmentIndex = std::vector<std::uint32_t>::size_type();
-                for (const auto segmentSize : currentPage.segmentSizes()) {
-                    if (!segmentSize) {
-                        ++segmentIndex;
-                        continue;
-                    }
-                    // check whether this segment contains the Vorbis Comment
-                    if (currentParams
-                        && (m_iterator.currentPageIndex() >= currentParams->firstPageIndex && segmentIndex >= currentParams->firstSegmentIndex)
-                        && (m_iterator.currentPageIndex() <= currentParams->lastPageIndex && segmentIndex <= currentParams->lastSegmentIndex)) {
-                        // prevent making the comment twice if it spreads over multiple pages/segments
-                        if (!currentParams->removed
-                            && ((m_iterator.currentPageIndex() == currentParams->firstPageIndex
-                                && m_iterator.currentSegmentIndex() == currentParams->firstSegmentIndex))) {
-                            makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
-                        }
-
-                        // proceed with next comment?
-                        if (m_iterator.currentPageIndex() > currentParams->lastPageIndex
-                            || (m_iterator.currentPageIndex() == currentParams->lastPageIndex && segmentIndex > currentParams->lastSegmentIndex)) {
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
+                auto lacingValues = std::vector<std::uint8_t>();
+                auto segmentOffset = currentPage.dataOffset();
+                for (auto i = std::size_t(); i != segmentSizes.size(); segmentOffset += segmentSizes[i], ++i) {
+                    const auto concluded = i + 1 < segmentSizes.size() || !currentPage.isLastSegmentUnconcluded();
+                    if (i == 0 && omitContinuedComment) {
+                        streamState.commentUnfinished = !concluded;
+                    } else if (replaceComment && i == comment->oggParams().firstSegmentIndex) {
+                        if (!comment->oggParams().removed) {
+                            appendLacingValues(
+                                lacingValues, makeVorbisCommentSegment(buffer, copyHelper, comment, &comment->oggParams(), diag), true);
                         }
+                        streamState.commentUnfinished = !concluded;
                     } else {
-                        // copy other segments unchanged
                         backupStream.seekg(static_cast<std::streamoff>(segmentOffset));
-                        copyHelper.copy(backupStream, buffer, segmentSize);
-                        newSegmentSizes.push_back(segmentSize);
-
-                        // check whether there is a new comment to be inserted into the current page
-                        if (currentParams && m_iterator.currentPageIndex() == currentParams->lastPageIndex
-                            && currentParams->firstSegmentIndex == numeric_limits<size_t>::max()) {
-                            if (!currentParams->removed) {
-                                makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
-                            }
-                            // proceed with next comment
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
-                        }
+                        copyHelper.copy(backupStream, buffer, segmentSizes[i]);
+                        appendLacingValues(lacingValues, segmentSizes[i], concluded);
                     }
-                    segmentOffset += segmentSize;
-                    ++segmentIndex;
                 }
 
-                // write buffered data to actual stream
-                if (auto newSegmentSizesIterator = newSegmentSizes.cbegin(), newSegmentSizesEnd = newSegmentSizes.cend();
-                    newSegmentSizesIterator != newSegmentSizesEnd) {
-                    auto bytesLeft = *newSegmentSizesIterator;
-                    auto continuePreviousSegment = false, needsZeroLacingValue = false;
-                    // write pages until all data in the buffer is written
-                    while (newSegmentSizesIterator != newSegmentSizesEnd) {
-                        // memorize offset to update checksum later
-                        updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp()));
-                        // copy page header from original file (except for the segment table)
-                        backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                        copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
-                        // use flags of original page as base and adjust "continued packet"-flag as needed
-                        auto flags = (currentPage.headerTypeFlag() & 0xFE) | (continuePreviousSegment ? 0x01 : 0x00);
-                        continuePreviousSegment = true;
-                        // ensure "first page of logical bitstream"-flag is cleared for additional pages we need to insert
-                        // ensure "last page of logical bitstream"-flag is cleared for the first page
-                        flags = flags & (newSegmentSizesIterator != newSegmentSizes.cbegin() ? 0xFD : 0xF);
-                        // override flags copied from original file
-                        stream().seekp(-22, ios_base::cur);
-                        stream().put(static_cast<char>(flags));
-                        // update absolute granule position later (8 byte) and keep stream serial number (4 byte)
-                        stream().seekp(12, ios_base::cur);
-                        // adjust page sequence number
-                        writer().writeUInt32LE(pageSequenceNumber);
-                        // skip checksum (4 bytes) and number of page segments (1 byte); those are update later
-                        stream().seekp(5, ios_base::cur);
-                        // write segment sizes as long as there are segment sizes to be written and
-                        // the max number of segment sizes (255) is not exceeded
-                        auto segmentSizesWritten = std::int16_t(); // in the current page header only
-                        auto currentSize = std::uint32_t();
-                        while ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                            while (bytesLeft > 0xFF && segmentSizesWritten < 0xFF) {
-                                stream().put(static_cast<char>(0xFF));
-                                currentSize += 0xFF;
-                                bytesLeft -= 0xFF;
-                                ++segmentSizesWritten;
-                            }
-                            if ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                                // bytes left is here <= 0xFF
-                                stream().put(static_cast<char>(bytesLeft));
-                                currentSize += bytesLeft;
-                                needsZeroLacingValue = bytesLeft == 0xFF;
-                                bytesLeft = 0;
-                                ++segmentSizesWritten;
-                            }
-                            if (!bytesLeft && !needsZeroLacingValue) {
-                                // sizes for the segment have been written
-                                // -> continue with next segment
-                                if (++newSegmentSizesIterator != newSegmentSizesEnd) {
-                                    bytesLeft = *newSegmentSizesIterator;
-                                    continuePreviousSegment = false;
-                                }
-                            }
-                        }
-
-                        // remove continue flag if there are no bytes left in the current segment
-                        if (!bytesLeft && !needsZeroLacingValue) {
-                            continuePreviousSegment = false;
-                        }
-
-                        // set the absolute granule postion
-                        if (newSegmentSizesIterator != newSegmentSizesEnd) {
-                            // set absolute granule position to special value "-1" if there are still bytes to be written in the current packet
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
-                            writer().writeInt64LE(-1);
-                            stream().seekp(12, ios_base::cur);
-                        } else if (currentParams->lastPageIndex != currentParams->firstPageIndex) {
-                            // ensure the written absolute granule position matches the one from the last page of the existing file
-                            backupStream.seekg(static_cast<streamoff>(m_iterator.pages()[currentParams->lastPageIndex].startOffset() + 6));
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
-                            copyHelper.copy(backupStream, stream(), 8);
-                            stream().seekp(12, ios_base::cur);
-                        } else {
-                            // leave the absolute granule position unchanged
-                            stream().seekp(-1 - segmentSizesWritten, ios_base::cur);
-                        }
-
-                        // page is full or all segment data has been covered
-                        // -> write segment table size (segmentSizesWritten) and segment data
-                        // -> seek back and write updated page segment number
-                        stream().put(static_cast<char>(segmentSizesWritten));
-                        stream().seekp(segmentSizesWritten, ios_base::cur);
-                        // -> write actual page data
-                        copyHelper.copy(buffer, stream(), currentSize);
-
-                        ++pageSequenceNumber;
-                    }
+                // ensure the absolute granule position is present even if the comment was previously finished on a further page
+                auto granulePosition = currentPage.absoluteGranulePosition();
+                if (granulePosition == noPacketsFinishOnPage) {
+                    granulePosition = comment && location->granulePosition != noPacketsFinishOnPage ? location->granulePosition : 0;
+                }
+                const auto flags = static_cast<std::uint8_t>(omitContinuedComment ? currentPage.headerTypeFlag() & ~0x01 : currentPage.headerTypeFlag());
+                pagesWritten = writePages(currentPage, newSequenceNumber, flags, granulePosition, lacingValues, buffer);
+                // ensure the last page keeps being flagged as such if it has been omitted completely
+                if (!pagesWritten && currentPage.isLastPage() && streamState.pageWritten) {
+                    lastPageFlagOffsets.emplace_back(streamState.lastPageOffset);
                 }
-
             } else {
-                if (pageSequenceNumber != m_iterator.currentPageIndex()) {
+                lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+                backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
+                if (streamState.sequenceNumberOffset) {
                     // just update page sequence number
-                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp())); // memorize offset to update checksum later
+                    updatedPageOffsets.push_back(lastPageNewOffset); // memorize offset to update checksum later
                     copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
                     stream().seekp(-9, ios_base::cur);
-                    writer().writeUInt32LE(pageSequenceNumber);
+                    writer().writeUInt32LE(newSequenceNumber);
                     stream().seekp(5, ios_base::cur);
                     copyHelper.copy(backupStream, stream(), pageSize - oggPageHeaderSize);
                 } else {
                     // copy page unchanged
-                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
                     copyHelper.copy(backupStream, stream(), pageSize);
                 }
-                ++pageSequenceNumber;
+                pagesWritten = 1;
+            }
+
+            // insert a new comment behind the current page
+            if (insertComment) {
+                auto buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
+                auto lacingValues = std::vector<std::uint8_t>();
+                appendLacingValues(lacingValues, makeVorbisCommentSegment(buffer, copyHelper, comment, &comment->oggParams(), diag), true);
+                pagesWritten += writePages(currentPage, newSequenceNumber + pagesWritten, 0, 0, lacingValues, buffer);
+            }
+
+            streamState.sequenceNumberOffset += pagesWritten - 1;
+            if (pagesWritten) {
+                streamState.lastPageOffset = lastPageNewOffset;
+                streamState.pageWritten = true;
             }
         }
 
@@ -705,11 +671,14 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
 
         // ensure the "last page of logical bitstream"-flag is set on the last Ogg page (in case the last page was written/modified by us)
-        if (lastPage && lastPageNewOffset) {
-            const auto offset = static_cast<std::streamoff>(lastPageNewOffset + 5ul);
+        if (lastPageNewOffset) {
+            lastPageFlagOffsets.emplace_back(lastPageNewOffset);
+        }
+        for (const auto pageOffset : lastPageFlagOffsets) {
+            const auto offset = static_cast<std::streamoff>(pageOffset + 5ul);
             stream.seekg(offset);
             if (const auto flag = stream.get(); !(flag & 0x04)) {
-                updatedPageOffsets.emplace_back(lastPageNewOffset);
+                updatedPageOffsets.emplace_back(pageOffset);
                 stream.seekp(offset);
                 stream.put(static_cast<char>(flag | 0x04));
             }
@@ -719,7 +688,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         progress.nextStepOrStop("Updating checksums ...");
         updateTick = 0u;
         for (auto offset : updatedPageOffsets) {
-            if (updateTick++ % 10) {
+            if (updateTick++ % 10 == 0) {
                 progress.updateStepPercentage(static_cast<std::uint8_t>(offset * 100ul / fileInfo().size()));
                 progress.stopIfAborted();
             }
diff --git a/ogg/oggcontainer.h b/ogg/oggcontainer.h
index ae042ec..16a5c5f 100644
--- a/ogg/oggcontainer.h
+++ b/ogg/oggcontainer.h
@@ -157,8 +157,8 @@ protected:
 private:
     void announceComment(
         std::size_t pageIndex, std::size_t segmentIndex, bool lastMetaDataBlock, GeneralMediaFormat mediaFormat = GeneralMediaFormat::Vorbis);
-    void makeVorbisCommentSegment(std::stringstream &buffer, CppUtilities::CopyHelper<65307> &copyHelper, std::vector<std::uint32_t> &newSegmentSizes,
-        VorbisComment *comment, OggParameter *params, Diagnostics &diag);
+    std::uint32_t makeVorbisCommentSegment(
+        std::stringstream &buffer, CppUtilities::CopyHelper<65307> &copyHelper, VorbisComment *comment, OggParameter *params, Diagnostics &diag);
 
     std::unordered_map<std::uint32_t, std::vector<std::unique_ptr<OggStream>>::size_type> m_streamsBySerialNo;
 
-- 
2.43.0


From 064ab9ec88e233ea0ce37ba83373f3c22e4e098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 095/176] fix: avoid writing padding behind the metadata block
 when saving FLAC streams within Ogg files

---
 ogg/oggcontainer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 46b3cde..0ef3f5f 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -418,7 +418,10 @@ std::uint32_t OggContainer::makeVorbisCommentSegment(
     }
     default:;
     }
-    MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    // note: A FLAC metadata packet must only contain the metadata block so there cannot be any padding.
+    if (params->streamFormat != GeneralMediaFormat::Flac) {
+        MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    }
 
     return static_cast<std::uint32_t>(buffer.tellp() - offset);
 }
-- 
2.43.0


From 75ddc272e8b24460fdc8509f6f205589375930d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:45 +0000
Subject: [PATCH 096/176] fix: restore backups without removing the original
 file first and clean up after copying

---
 backuphelper.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 3198c9d..edce767 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -68,15 +68,16 @@ void restoreOriginalFileFromBackupFile(
         throw std::ios_base::failure("Backup/temporary file has not been created.");
     }
 
-    // remove original file and restore backup
-    std::filesystem::remove(originalPathForOpen, ec);
-    if (ec) {
-        throw std::ios_base::failure("Unable to remove original file: " + ec.message());
-    }
+    // replace original file with the backup
     std::filesystem::rename(backupPathForOpen, originalPathForOpen, ec);
     if (ec) {
         // try making a copy instead, maybe backup dir is on another partition
-        std::filesystem::copy_file(backupPathForOpen, originalPathForOpen, ec);
+        std::filesystem::copy_file(backupPathForOpen, originalPathForOpen, std::filesystem::copy_options::overwrite_existing, ec);
+        if (!ec) {
+            // remove the backup as it would have been moved (but don't consider it an error if that is not possible)
+            auto removeError = std::error_code();
+            std::filesystem::remove(backupPathForOpen, removeError);
+        }
     }
     if (ec) {
         throw std::ios_base::failure("Unable to restore original file from backup file \"" % backupPath % "\" after failure: " + ec.message());
@@ -160,6 +161,11 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
     if (ec) {
         // try making a copy instead, maybe backup dir is on another partition
         std::filesystem::copy_file(u8originalPath, backupPathForOpen, ec);
+        if (ec && ec != std::errc::file_exists) {
+            // avoid leaving an incomplete backup behind
+            auto removeError = std::error_code();
+            std::filesystem::remove(backupPathForOpen, removeError);
+        }
     }
     if (ec) {
         throw std::ios_base::failure(argsToString("Unable to create backup file \"", BasicFileInfo::pathForOpen(backupPath), "\" of \"", originalPath,
-- 
2.43.0


From f53155eaba158de1d879f71d818c34f7adf35a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:45 +0000
Subject: [PATCH 097/176] fix: restore the original file on any exception
 occurring when rewriting it

---
 backuphelper.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index edce767..2d814cb 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -221,8 +221,8 @@ void createBackupFileCanonical(const std::string &backupDir, std::string &origin
  * - Adds appropriate notifications to the specified \a fileInfo.
  * - Re-throws the exception.
  *
- * \remarks Must only be called when an exception derived from Failure or ios_base::failure
- *          has been caught; this method uses the "exception dispatcher" idiom.
+ * \remarks Must only be called when an exception has been caught; this method uses the
+ *          "exception dispatcher" idiom.
  *
  * \param fileInfo Specifies the MediaFileInfo instance which has been modified.
  * \param backupPath Specifies the path of the backup file; might be empty if none has been created.
@@ -299,6 +299,21 @@ void handleFailureAfterFileModifiedCanonical(MediaFileInfo &fileInfo, const std:
             diag.emplace_back(DiagLevel::Critical, "An IO error occurred when applying tag information.", context);
         }
         throw;
+
+    } catch (...) {
+        if (!backupPath.empty()) {
+            // a temp/backup file has been created -> restore original file
+            diag.emplace_back(DiagLevel::Critical, "An unexpected error occurred when rewriting the file to apply changed tag information.", context);
+            try {
+                restoreOriginalFileFromBackupFile(originalPath, backupPath, outputStream, backupStream);
+                diag.emplace_back(DiagLevel::Warning, "The original file has been restored.", context);
+            } catch (const std::ios_base::failure &failure) {
+                diag.emplace_back(DiagLevel::Critical, argsToString("The original file could not be restored: ", failure.what()), context);
+            }
+        } else {
+            diag.emplace_back(DiagLevel::Critical, "An unexpected error occurred when applying tag information.", context);
+        }
+        throw;
     }
 }
 
-- 
2.43.0


From 4b027d1452d893fb895952ada6c9de499c6e0755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 098/176] fix: restore the original file if it cannot be
 re-created after creating the backup

---
 matroska/matroskacontainer.cpp | 7 +++++--
 mediafileinfo.cpp              | 7 +++++--
 mp4/mp4container.cpp           | 7 +++++--
 ogg/oggcontainer.cpp           | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 31ea393..c862467 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1627,8 +1627,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             // move current file to temp dir and reopen it as backupStream, recreate original file
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
-                // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -1670,6 +1668,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
     // start actual writing
     try {
+        // recreate original file
+        if (!backupPath.empty()) {
+            outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         // write EBML header
         progress.nextStepOrStop("Writing EBML header ...");
         outputWriter.writeUInt32BE(EbmlIds::Header);
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index b7ff39e..58f550f 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1796,8 +1796,6 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // move current file to temp dir and reopen it as backupStream, recreate original file
             try {
                 BackupHelper::createBackupFileCanonical(backupDirectory(), originalPath, backupPath, outputStream, backupStream);
-                // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -1830,6 +1828,11 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
 
     // start actual writing
     try {
+        // recreate original file
+        if (!backupPath.empty()) {
+            outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         // ensure we can cast padding safely to uint32
         if (padding > numeric_limits<std::uint32_t>::max()) {
             padding = numeric_limits<std::uint32_t>::max();
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index e2f782f..00ff02a 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -566,8 +566,6 @@ calculatePadding:
             // move current file to temp dir and reopen it as backupStream, recreate original file
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
-                // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -609,6 +607,11 @@ calculatePadding:
 
     // start actual writing
     try {
+        // recreate original file
+        if (!backupPath.empty()) {
+            outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         // write header
         progress.nextStepOrStop("Writing header and tags ...");
         // -> make file type atom
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 0ef3f5f..ac5cddd 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -438,8 +438,6 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         // move current file to temp dir and reopen it as backupStream, recreate original file
         try {
             BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, fileInfo().stream(), backupStream);
-            // recreate original file, define buffer variables
-            fileInfo().stream().open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(
                 DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -461,6 +459,11 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
 
     const auto totalFileSize = fileInfo().size();
     try {
+        // recreate original file
+        if (!backupPath.empty()) {
+            fileInfo().stream().open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         progress.nextStepOrStop("Writing Ogg pages ...");
 
         // determine where the comments are located
-- 
2.43.0


From 439d4a805b07596fd509852b407e125a7dce113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 099/176] fix: flush streams before closing them as errors when
 closing are ignored

---
 matroska/matroskacontainer.cpp | 6 ++++--
 mediafileinfo.cpp              | 2 ++
 mp4/mp4container.cpp           | 6 ++++--
 ogg/oggcontainer.cpp           | 3 ++-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index c862467..7d75766 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1960,7 +1960,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 fileInfo().setSaveFilePath(string());
             }
 
-            // the outputStream needs to be reopened to be able to read again
+            // the outputStream needs to be reopened to be able to read again (flush explicitly as closing would ignore write errors)
+            outputStream.flush();
             outputStream.close();
             outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
@@ -1968,7 +1969,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
-                // -> close stream before truncating
+                // -> close stream before truncating (flush explicitly as closing would ignore write errors)
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 58f550f..4002918 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1919,12 +1919,14 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
             // prevent deferring final write operations (to catch and handle possible errors here); stream is useless for further
             // usage anyways because it is write-only
+            outputStream.flush();
             outputStream.close();
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < size()) {
                 // file is smaller after the modification -> truncate
                 // -> prevent deferring final write operations
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 00ff02a..4a5cd40 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -890,7 +890,8 @@ calculatePadding:
                 fileInfo().reportPathChanged(fileInfo().saveFilePath());
                 fileInfo().setSaveFilePath(string());
             }
-            // the outputStream needs to be reopened to be able to read again
+            // the outputStream needs to be reopened to be able to read again (flush explicitly as closing would ignore write errors)
+            outputStream.flush();
             outputStream.close();
             outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
@@ -898,7 +899,8 @@ calculatePadding:
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
-                // -> close stream before truncating
+                // -> close stream before truncating (flush explicitly as closing would ignore write errors)
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index ac5cddd..30cb257 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -670,8 +670,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             fileInfo().setSaveFilePath(string());
         }
 
-        // close backups stream; reopen new file as readable stream
+        // close backups stream; reopen new file as readable stream (flush explicitly as closing would ignore write errors)
         auto &stream = fileInfo().stream();
+        stream.flush();
         backupStream.close();
         fileInfo().close();
         stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
-- 
2.43.0


From d8f6639ed20c55e74af26762f4716bc1ac876041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 100/176] fix: do not report success when the file could not be
 truncated

---
 matroska/matroskacontainer.cpp | 1 +
 mediafileinfo.cpp              | 1 +
 mp4/mp4container.cpp           | 1 +
 3 files changed, 3 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 7d75766..9ea4019 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1979,6 +1979,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     fileInfo().reportSizeChanged(newSize);
                 } else {
                     diag.emplace_back(DiagLevel::Critical, "Unable to truncate the file: " + ec.message(), context);
+                    throw std::ios_base::failure("Unable to truncate the file.");
                 }
                 // -> reopen the stream again
                 outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 4002918..51497c8 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1935,6 +1935,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                     reportSizeChanged(newSize);
                 } else {
                     diag.emplace_back(DiagLevel::Critical, "Unable to truncate the file: " + ec.message(), context);
+                    throw std::ios_base::failure("Unable to truncate the file.");
                 }
             } else {
                 // file is longer after the modification
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 4a5cd40..474249c 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -909,6 +909,7 @@ calculatePadding:
                     fileInfo().reportSizeChanged(newSize);
                 } else {
                     diag.emplace_back(DiagLevel::Critical, "Unable to truncate the file: " + ec.message(), context);
+                    throw std::ios_base::failure("Unable to truncate the file.");
                 }
                 // -> reopen the stream again
                 outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
-- 
2.43.0


From 07f7074e618678c27d672c863ad9a17ba9b342d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:34 +0000
Subject: [PATCH 101/176] fix: report aborting when copying media data has been
 aborted

---
 genericfileelement.h | 1 +
 mediafileinfo.cpp    | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/genericfileelement.h b/genericfileelement.h
index eef3987..bb0f3d5 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -954,6 +954,7 @@ void GenericFileElement<ImplementationType>::copyInternal(
     if (progress) {
         copyHelper.callbackCopy(stream, targetStream, bytesToCopy, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
             std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), std::placeholders::_1));
+        progress->stopIfAborted(); // the copying has been incomplete if aborted
     } else {
         copyHelper.copy(stream, targetStream, bytesToCopy);
     }
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 51497c8..3ae338c 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1892,7 +1892,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             backupStream.seekg(static_cast<streamoff>(streamOffset));
             CopyHelper<0x4000> copyHelper;
             copyHelper.callbackCopy(backupStream, stream(), mediaDataSize, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
-                std::bind(&AbortableProgressFeedback::updateStepPercentage, std::ref(progress), _1));
+                std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), _1));
+            progress.stopIfAborted(); // the copying has been incomplete if aborted
         } else {
             // just skip actual stream data
             outputStream.seekp(static_cast<std::streamoff>(mediaDataSize), ios_base::cur);
-- 
2.43.0


From 3a2edd785003ea0a504b68dd69e75a384c2b70dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:26 +0000
Subject: [PATCH 102/176] fix: only report the save-as path as regular path
 after the file has been saved successfully

---
 matroska/matroskacontainer.cpp | 15 ++++++++-------
 mediafileinfo.cpp              |  8 ++++----
 mp4/mp4container.cpp           | 14 ++++++++------
 ogg/oggcontainer.cpp           | 15 ++++++++-------
 4 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 9ea4019..0d4cb9e 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1954,16 +1954,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             // report new size
             fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
 
-            // "save as path" is now the regular path
-            if (!fileInfo().saveFilePath().empty()) {
-                fileInfo().reportPathChanged(fileInfo().saveFilePath());
-                fileInfo().setSaveFilePath(string());
-            }
-
             // the outputStream needs to be reopened to be able to read again (flush explicitly as closing would ignore write errors)
+            const auto &outputPath = fileInfo().saveFilePath().empty() ? fileInfo().path() : fileInfo().saveFilePath();
             outputStream.flush();
             outputStream.close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(outputPath).data(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
@@ -2012,6 +2007,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // prevent deferring final write operations (to catch and handle possible errors here)
         outputStream.flush();
 
+        // "save as path" is now the regular path
+        if (rewriteRequired && !fileInfo().saveFilePath().empty()) {
+            fileInfo().reportPathChanged(fileInfo().saveFilePath());
+            fileInfo().setSaveFilePath(string());
+        }
+
         // handle errors (which might have been occurred after renaming/creating backup file)
     } catch (...) {
         BackupHelper::handleFailureAfterFileModifiedCanonical(fileInfo(), originalPath, backupPath, outputStream, backupStream, diag, context);
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 3ae338c..5de28e6 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1913,15 +1913,15 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
         if (rewriteRequired) {
             // report new size
             reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
+            // prevent deferring final write operations (to catch and handle possible errors here); stream is useless for further
+            // usage anyways because it is write-only
+            outputStream.flush();
+            outputStream.close();
             // "save as path" is now the regular path
             if (!saveFilePath().empty()) {
                 reportPathChanged(saveFilePath());
                 m_saveFilePath.clear();
             }
-            // prevent deferring final write operations (to catch and handle possible errors here); stream is useless for further
-            // usage anyways because it is write-only
-            outputStream.flush();
-            outputStream.close();
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < size()) {
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 474249c..d680735 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -885,15 +885,11 @@ calculatePadding:
         if (rewriteRequired) {
             // report new size
             fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
-            // "save as path" is now the regular path
-            if (!fileInfo().saveFilePath().empty()) {
-                fileInfo().reportPathChanged(fileInfo().saveFilePath());
-                fileInfo().setSaveFilePath(string());
-            }
             // the outputStream needs to be reopened to be able to read again (flush explicitly as closing would ignore write errors)
+            const auto &outputPath = fileInfo().saveFilePath().empty() ? fileInfo().path() : fileInfo().saveFilePath();
             outputStream.flush();
             outputStream.close();
-            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(outputPath).data(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
@@ -966,6 +962,12 @@ calculatePadding:
         // prevent deferring final write operations (to catch and handle possible errors here)
         outputStream.flush();
 
+        // "save as path" is now the regular path
+        if (rewriteRequired && !fileInfo().saveFilePath().empty()) {
+            fileInfo().reportPathChanged(fileInfo().saveFilePath());
+            fileInfo().setSaveFilePath(string());
+        }
+
         // handle errors (which might have been occurred after renaming/creating backup file)
     } catch (...) {
         BackupHelper::handleFailureAfterFileModifiedCanonical(fileInfo(), originalPath, backupPath, outputStream, backupStream, diag, context);
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 30cb257..ce269cf 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -664,18 +664,13 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         fileInfo().reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
         progress.updateStepPercentage(100);
 
-        // "save as path" is now the regular path
-        if (!fileInfo().saveFilePath().empty()) {
-            fileInfo().reportPathChanged(fileInfo().saveFilePath());
-            fileInfo().setSaveFilePath(string());
-        }
-
         // close backups stream; reopen new file as readable stream (flush explicitly as closing would ignore write errors)
         auto &stream = fileInfo().stream();
+        const auto &outputPath = fileInfo().saveFilePath().empty() ? fileInfo().path() : fileInfo().saveFilePath();
         stream.flush();
         backupStream.close();
         fileInfo().close();
-        stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
+        stream.open(BasicFileInfo::pathForOpen(outputPath).data(), ios_base::in | ios_base::out | ios_base::binary);
 
         // ensure the "last page of logical bitstream"-flag is set on the last Ogg page (in case the last page was written/modified by us)
         if (lastPageNewOffset) {
@@ -706,6 +701,12 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         stream.flush();
         progress.updateStepPercentage(100);
 
+        // "save as path" is now the regular path
+        if (!fileInfo().saveFilePath().empty()) {
+            fileInfo().reportPathChanged(fileInfo().saveFilePath());
+            fileInfo().setSaveFilePath(string());
+        }
+
         // clear iterator
         m_iterator.clear(stream, startOffset(), fileInfo().size());
 
-- 
2.43.0


From ee631bf56414c4f58aa7f5917ed668fbfd3d4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:35 +0000
Subject: [PATCH 103/176] fix: consider only the file name when determining the
 extension of a file

---
 basicfileinfo.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/basicfileinfo.cpp b/basicfileinfo.cpp
index f9a4991..f4b67b3 100644
--- a/basicfileinfo.cpp
+++ b/basicfileinfo.cpp
@@ -161,7 +161,8 @@ std::string BasicFileInfo::fileName(std::string_view path, bool cutExtension)
     } else {
         lastSeparator = lastSlash > lastBackSlash ? lastSlash : lastBackSlash;
     }
-    return std::string(lastPoint != string::npos ? path.substr(lastSeparator + 1, lastPoint - lastSeparator - 1) : path.substr(lastSeparator + 1));
+    return std::string(lastPoint != string::npos && lastPoint > lastSeparator ? path.substr(lastSeparator + 1, lastPoint - lastSeparator - 1)
+                                                                              : path.substr(lastSeparator + 1));
 }
 
 /*!
@@ -182,7 +183,8 @@ std::string BasicFileInfo::fileName(bool cutExtension) const
 std::string BasicFileInfo::extension(std::string_view path)
 {
     const auto lastPoint = path.rfind('.');
-    if (lastPoint == std::string::npos) {
+    const auto lastSeparator = path.find_last_of("/\\");
+    if (lastPoint == std::string::npos || (lastSeparator != std::string::npos && lastPoint < lastSeparator)) {
         return std::string();
     } else {
         return std::string(path.data() + lastPoint, path.size() - lastPoint);
@@ -203,7 +205,10 @@ std::string BasicFileInfo::extension() const
 std::string BasicFileInfo::pathWithoutExtension(std::string_view fullPath)
 {
     const auto lastPoint = fullPath.rfind('.');
-    return std::string(lastPoint != std::string::npos ? fullPath.substr(0, lastPoint) : fullPath);
+    const auto lastSeparator = fullPath.find_last_of("/\\");
+    return std::string(lastPoint != std::string::npos && (lastSeparator == std::string::npos || lastPoint > lastSeparator)
+            ? fullPath.substr(0, lastPoint)
+            : fullPath);
 }
 
 /*!
-- 
2.43.0


From d3eb8a8eef30e121d5a70e997bf42956128cb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 104/176] fix: avoid overwriting dangling symlinks when
 creating backups

---
 backuphelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 2d814cb..de7bfea 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -144,7 +144,8 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
         }
 
         // test whether the backup path is still unused; otherwise continue loop
-        if (!std::filesystem::exists(makeNativePath(BasicFileInfo::pathForOpen(backupPath)), ec)) {
+        // note: Not following symlinks as a dangling symlink would otherwise be overwritten.
+        if (!std::filesystem::exists(std::filesystem::symlink_status(makeNativePath(BasicFileInfo::pathForOpen(backupPath)), ec))) {
             break;
         }
     }
-- 
2.43.0


From 16e8aa0c78d6e066620df0ae19999b36195fea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:12 +0000
Subject: [PATCH 105/176] fix: create backups in relative backup directory for
 files specified without directory

---
 backuphelper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index de7bfea..c9fbba7 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -114,7 +114,10 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
 {
     // determine dirs
     const auto backupDirRelative = std::filesystem::path(makeNativePath(backupDir)).is_relative();
-    const auto originalDir = backupDirRelative ? BasicFileInfo::containingDirectory(originalPath) : string();
+    auto originalDir = backupDirRelative ? BasicFileInfo::containingDirectory(originalPath) : string();
+    if (!originalDir.empty() || (!originalPath.empty() && originalPath.front() == '/')) {
+        originalDir += '/'; // note: The directory is empty if the path is relative and refers to a file in the current working directory.
+    }
 
     // determine the backup path
     auto ec = std::error_code();
@@ -130,13 +133,13 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
             if (i) {
                 const auto ext(BasicFileInfo::extension(originalPath));
                 if (backupDirRelative) {
-                    backupPath = originalDir % '/' % backupDir % '/' % fileName % '.' % i + ext;
+                    backupPath = originalDir % backupDir % '/' % fileName % '.' % i + ext;
                 } else {
                     backupPath = backupDir % '/' % fileName % '.' % i + ext;
                 }
             } else {
                 if (backupDirRelative) {
-                    backupPath = originalDir % '/' % backupDir % '/' + fileName;
+                    backupPath = originalDir % backupDir % '/' + fileName;
                 } else {
                     backupPath = backupDir % '/' + fileName;
                 }
-- 
2.43.0


From 38bc76ec0be6710a740c0c655db24c1fd56ea656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:51 +0000
Subject: [PATCH 106/176] fix: Never exceed the maximum size of an ID3v2 tag

---
 id3/id3v2tag.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index ae945c3..d218bbd 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -847,6 +847,9 @@ void Id3v2Tag::prepareRecordDataForMaking(const std::string &diagContext, Diagno
     fields().erase(Id3v2FrameIds::lRecordingTime);
 }
 
+/// \brief The maximum size of an ID3v2 tag (excluding the header).
+constexpr auto maxId3v2TagSize = std::uint32_t(0xFFFFFFF);
+
 /*!
  * \brief Prepares making the specified \a tag.
  * \sa See Id3v2Tag::prepareMaking() for more information.
@@ -872,8 +875,15 @@ Id3v2TagMaker::Id3v2TagMaker(Id3v2Tag &tag, Diagnostics &diag)
     m_maker.reserve(tag.fields().size());
     for (auto &pair : tag.fields()) {
         try {
-            m_maker.emplace_back(pair.second.prepareMaking(tag.majorVersion(), diag));
-            m_framesSize += m_maker.back().requiredSize();
+            auto maker = pair.second.prepareMaking(tag.majorVersion(), diag);
+            if (maker.requiredSize() > maxId3v2TagSize - m_framesSize) {
+                diag.emplace_back(DiagLevel::Critical,
+                    argsToString("Unable to write frame ", pair.second.idToString(), " because the maximum size of an ID3v2 tag would be exceeded."),
+                    context);
+                continue;
+            }
+            m_framesSize += maker.requiredSize();
+            m_maker.emplace_back(std::move(maker));
         } catch (const Failure &) {
         }
     }
@@ -887,12 +897,16 @@ Id3v2TagMaker::Id3v2TagMaker(Id3v2Tag &tag, Diagnostics &diag)
  * \brief Saves the tag (specified when constructing the object) to the
  *        specified \a stream.
  * \throws Throws std::ios_base::failure when an IO error occurs.
- * \throws Throws Assumes the data is already validated and thus does NOT
- *                throw TagParser::Failure or a derived exception.
+ * \throws Throws InvalidDataException if the tag would exceed the maximum size of an ID3v2 tag
+ *                due to the specified \a padding. Assumes the data is otherwise already validated
+ *                and thus does NOT throw any other TagParser::Failure.
  */
 void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostics &diag)
 {
-    CPP_UTILITIES_UNUSED(diag)
+    if (padding > maxId3v2TagSize - m_framesSize) {
+        diag.emplace_back(DiagLevel::Critical, "The maximum size of an ID3v2 tag is exceeded by the padding.", "making ID3v2 tag");
+        throw InvalidDataException();
+    }
 
     BinaryWriter writer(&stream);
 
-- 
2.43.0


From 5821dfa7e78fc7bafc2f1283928342d0691882a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:51 +0000
Subject: [PATCH 107/176] fix: Compute data size of truncated MPEG-4
 descriptors correctly

---
 mp4/mpeg4descriptor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mp4/mpeg4descriptor.cpp b/mp4/mpeg4descriptor.cpp
index 0d3bb29..8cd0de5 100644
--- a/mp4/mpeg4descriptor.cpp
+++ b/mp4/mpeg4descriptor.cpp
@@ -6,6 +6,8 @@
 #include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/binaryreader.h>
 
+#include <algorithm>
+
 using namespace std;
 using namespace CppUtilities;
 
@@ -76,7 +78,7 @@ void Mpeg4Descriptor::internalParse(Diagnostics &diag)
     // check whether the denoted data size exceeds the available data size
     if (maxTotalSize() < totalSize()) {
         diag.emplace_back(DiagLevel::Warning, "The descriptor seems to be truncated; unable to parse siblings of that ", parsingContext());
-        m_dataSize = static_cast<std::uint32_t>(maxTotalSize()); // using max size instead
+        m_dataSize = maxTotalSize() - std::min<std::uint64_t>(maxTotalSize(), headerSize()); // using max size instead
     }
     m_firstChild.reset();
 
-- 
2.43.0


From 98abd8162363c2544863907d7ac70e05c6a0e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:51 +0000
Subject: [PATCH 108/176] fix: Reject EBML IDs which can not be represented

---
 matroska/ebmlelement.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index c1c1160..b0a7e76 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -323,13 +323,13 @@ double EbmlElement::readFloat()
  */
 std::uint8_t EbmlElement::calculateIdLength(GenericFileElement::IdentifierType id)
 {
-    if (id <= 0xFF) {
+    if (id >= 0x80 && id <= 0xFF) {
         return 1;
-    } else if (id <= 0x7FFF) {
+    } else if (id >= 0x4000 && id <= 0x7FFF) {
         return 2;
-    } else if (id <= 0x3FFFFF) {
+    } else if (id >= 0x200000 && id <= 0x3FFFFF) {
         return 3;
-    } else if (id <= 0x1FFFFFFF) {
+    } else if (id >= 0x10000000 && id <= 0x1FFFFFFF) {
         return 4;
     } else {
         throw InvalidDataException();
@@ -371,16 +371,16 @@ std::uint8_t EbmlElement::calculateSizeDenotationLength(std::uint64_t size)
  */
 std::uint8_t EbmlElement::makeId(GenericFileElement::IdentifierType id, char *buff)
 {
-    if (id <= 0xFF) {
+    if (id >= 0x80 && id <= 0xFF) {
         *buff = static_cast<char>(id);
         return 1;
-    } else if (id <= 0x7FFF) {
+    } else if (id >= 0x4000 && id <= 0x7FFF) {
         BE::getBytes(static_cast<std::uint16_t>(id), buff);
         return 2;
-    } else if (id <= 0x3FFFFF) {
+    } else if (id >= 0x200000 && id <= 0x3FFFFF) {
         BE::getBytes(static_cast<std::uint32_t>(id << 0x8), buff);
         return 3;
-    } else if (id <= 0x1FFFFFFF) {
+    } else if (id >= 0x10000000 && id <= 0x1FFFFFFF) {
         BE::getBytes(static_cast<std::uint32_t>(id), buff);
         return 4;
     } else {
-- 
2.43.0


From 4658e00d2c5c4de24bea1eb661730aca8b03f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:51 +0000
Subject: [PATCH 109/176] fix: Limit padding of FLAC files and ID3v2 tags to
 what can be represented

---
 mediafileinfo.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 5de28e6..005c466 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1783,6 +1783,20 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
         // can not be used for additional meta data
         padding += 4;
     }
+
+    // ensure the padding can be represented
+    auto maxRepresentablePadding = std::uint64_t(std::numeric_limits<std::uint32_t>::max());
+    if (!makers.empty()) {
+        maxRepresentablePadding = 0xFFFFFFFu - (makers.back().requiredSize() - 10u); // included in last ID3v2 tag
+    } else if (flacStream) {
+        maxRepresentablePadding = 0xFFFFFFu + 4u; // written as FLAC "PADDING"-block
+    }
+    if (padding > maxRepresentablePadding) {
+        padding = maxRepresentablePadding;
+        rewriteRequired = true;
+        diag.emplace_back(
+            DiagLevel::Critical, argsToString("Preferred padding is not supported. Setting preferred padding to ", padding, '.'), context);
+    }
     progress.updateStep(rewriteRequired ? "Preparing streams for rewriting ..." : "Preparing streams for updating ...");
 
     // setup stream(s) for writing
@@ -1833,13 +1847,6 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
         }
 
-        // ensure we can cast padding safely to uint32
-        if (padding > numeric_limits<std::uint32_t>::max()) {
-            padding = numeric_limits<std::uint32_t>::max();
-            diag.emplace_back(
-                DiagLevel::Critical, argsToString("Preferred padding is not supported. Setting preferred padding to ", padding, '.'), context);
-        }
-
         if (!makers.empty()) {
             // write ID3v2 tags
             progress.updateStep("Writing ID3v2 tag ...");
-- 
2.43.0


From f698f8f422471cca5ee60dc135800c9473e7ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 110/176] fix: Map Vorbis language and Matroska genre back to
 the known field

---
 matroska/matroskatag.cpp | 1 +
 vorbis/vorbiscomment.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/matroska/matroskatag.cpp b/matroska/matroskatag.cpp
index e4b8317..4b02a50 100644
--- a/matroska/matroskatag.cpp
+++ b/matroska/matroskatag.cpp
@@ -218,6 +218,7 @@ KnownField MatroskaTag::internallyGetKnownField(const IdentifierType &id) const
         { dateRecorded(), KnownField::RecordDate },
         { dateRelease(), KnownField::ReleaseDate },
         { title(), KnownField::Title },
+        { genre(), KnownField::Genre },
         { partNumber(), KnownField::PartNumber },
         { totalParts(), KnownField::TotalParts },
         { encoder(), KnownField::Encoder },
diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index d68fb91..4fd37c9 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -144,6 +144,7 @@ KnownField VorbisComment::internallyGetKnownField(const IdentifierType &id) cons
          { grouping(), KnownField::Grouping },
          { label(), KnownField::RecordLabel },
          { performer(), KnownField::Performers },
+         { language(), KnownField::Language },
          { lyricist(), KnownField::Lyricist },
          { lyrics(), KnownField::Lyrics },
          { albumArtist(), KnownField::AlbumArtist },
-- 
2.43.0


From fa96f042f5fa016712b18a285e6afac0560d4a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 111/176] fix: Cover all fields and all values when inserting
 values of a tag of another format

---
 tag.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tag.cpp b/tag.cpp
index 065e98b..0c89c11 100644
--- a/tag.cpp
+++ b/tag.cpp
@@ -89,14 +89,17 @@ bool Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 std::size_t Tag::insertValues(const Tag &from, bool overwrite)
 {
     auto count = std::size_t(0);
-    for (int i = static_cast<int>(KnownField::Invalid) + 1, last = static_cast<int>(KnownField::Description); i <= last; ++i) {
-        auto field = static_cast<KnownField>(i);
-        const TagValue &ownValue = value(field);
-        if (overwrite || ownValue.isEmpty()) {
-            const TagValue &otherValue = from.value(field);
-            if (!otherValue.isEmpty() && setValue(field, otherValue)) {
-                ++count;
-            }
+    auto newValues = std::vector<TagValue>();
+    for (auto field = firstKnownField; field != KnownField::Invalid; field = nextKnownField(field)) {
+        if (!overwrite && !value(field).isEmpty()) {
+            continue;
+        }
+        newValues.clear();
+        for (const auto *const otherValue : from.values(field)) {
+            newValues.emplace_back(*otherValue);
+        }
+        if (!newValues.empty() && setValues(field, newValues)) {
+            ++count;
         }
     }
     return count;
-- 
2.43.0


From e17a2af3682d6a06bb3d63da07f703416506e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 112/176] fix: Make accessors of field based tags consistent
 and keep all values when merging

The first value of a field is also considered if the primary value has been
removed, fields without ID are not taken for fields a format does not support
and merging tags does not drop further fields with the same ID anymore.
---
 fieldbasedtag.h | 102 +++++++++++++++++++++++++++++++++---------------
 mp4/mp4tag.cpp  |   6 ++-
 2 files changed, 76 insertions(+), 32 deletions(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index 6d95b6c..9018cb4 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -3,8 +3,10 @@
 
 #include "./tag.h"
 
+#include <algorithm>
 #include <functional>
 #include <map>
+#include <vector>
 
 namespace TagParser {
 
@@ -122,8 +124,15 @@ template <class ImplementationType> TagTextEncoding FieldMapBasedTag<Implementat
  */
 template <class ImplementationType> const TagValue &FieldMapBasedTag<ImplementationType>::internallyGetValue(const IdentifierType &id) const
 {
-    auto i = m_fields.find(id);
-    return i != m_fields.end() ? i->second.value() : TagValue::empty();
+    const auto range = m_fields.equal_range(id);
+    auto values = std::vector<const TagValue *>();
+    for (auto i = range.first; i != range.second; ++i) {
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(i->second, values);
+        if (!values.empty()) {
+            return *values.front();
+        }
+    }
+    return range.first != range.second ? range.first->second.value() : TagValue::empty();
 }
 
 /*!
@@ -165,7 +174,8 @@ template <class ImplementationType> inline const TagValue &FieldMapBasedTag<Impl
 
 template <class ImplementationType> inline const TagValue &FieldMapBasedTag<ImplementationType>::value(KnownField field) const
 {
-    return value(fieldId(field));
+    const auto id = fieldId(field);
+    return id != IdentifierType() ? value(id) : TagValue::empty();
 }
 
 /*!
@@ -179,7 +189,8 @@ template <class ImplementationType> inline std::vector<const TagValue *> FieldMa
 
 template <class ImplementationType> inline std::vector<const TagValue *> FieldMapBasedTag<ImplementationType>::values(KnownField field) const
 {
-    return static_cast<const ImplementationType *>(this)->values(fieldId(field));
+    const auto id = fieldId(field);
+    return id != IdentifierType() ? static_cast<const ImplementationType *>(this)->values(id) : std::vector<const TagValue *>();
 }
 
 template <class ImplementationType> inline bool FieldMapBasedTag<ImplementationType>::setValue(KnownField field, const TagValue &value)
@@ -290,7 +301,8 @@ template <class ImplementationType> bool FieldMapBasedTag<ImplementationType>::s
 
 template <class ImplementationType> inline bool FieldMapBasedTag<ImplementationType>::hasField(KnownField field) const
 {
-    return hasField(fieldId(field));
+    const auto id = fieldId(field);
+    return id != IdentifierType() && hasField(id);
 }
 
 /*!
@@ -299,12 +311,7 @@ template <class ImplementationType> inline bool FieldMapBasedTag<ImplementationT
  */
 template <class ImplementationType> bool FieldMapBasedTag<ImplementationType>::internallyHasField(const IdentifierType &id) const
 {
-    for (auto range = m_fields.equal_range(id); range.first != range.second; ++range.first) {
-        if (!range.first->second.value().isEmpty()) {
-            return true;
-        }
-    }
-    return false;
+    return !static_cast<const ImplementationType *>(this)->internallyGetValues(id).empty();
 }
 
 /*!
@@ -340,8 +347,11 @@ template <class ImplementationType> inline auto FieldMapBasedTag<ImplementationT
 template <class ImplementationType> std::size_t FieldMapBasedTag<ImplementationType>::fieldCount() const
 {
     auto count = std::size_t(0);
+    auto values = std::vector<const TagValue *>();
     for (const auto &field : m_fields) {
-        if (!field.second.value().isEmpty()) {
+        values.clear();
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(field.second, values);
+        if (!values.empty()) {
             ++count;
         }
     }
@@ -388,7 +398,7 @@ inline TagDataType FieldMapBasedTag<ImplementationType>::internallyGetProposedDa
  */
 template <class ImplementationType> inline TagDataType FieldMapBasedTag<ImplementationType>::proposedDataType(const IdentifierType &id) const
 {
-    return static_cast<ImplementationType *>(this)->determineProposedDataType(id);
+    return static_cast<const ImplementationType *>(this)->internallyGetProposedDataType(id);
 }
 
 /*!
@@ -400,30 +410,60 @@ template <class ImplementationType> inline TagDataType FieldMapBasedTag<Implemen
 template <class ImplementationType>
 std::size_t FieldMapBasedTag<ImplementationType>::insertFields(const FieldMapBasedTag<ImplementationType> &from, bool overwrite)
 {
+    const auto hasValues = [this](const FieldType &field) {
+        auto values = std::vector<const TagValue *>();
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(field, values);
+        return !values.empty();
+    };
+    const auto isSameField = [](const FieldType &field1, const FieldType &field2) {
+        return !field1.isTypeInfoAssigned() || !field2.isTypeInfoAssigned() || field1.typeInfo() == field2.typeInfo();
+    };
     auto fieldsInserted = std::size_t(0);
-    for (const auto &pair : from.fields()) {
-        const FieldType &fromField = pair.second;
-        if (fromField.value().isEmpty()) {
-            continue;
+    auto existingFields = std::vector<FieldType *>();
+    auto usedFields = std::vector<FieldType *>();
+    for (auto i = from.fields().begin(), end = from.fields().end(); i != end;) {
+        // determine existing fields and new fields with the same ID
+        const auto &id = i->first;
+        const auto newFieldsEnd = from.fields().upper_bound(id);
+        existingFields.clear();
+        usedFields.clear();
+        for (auto range = fields().equal_range(id); range.first != range.second; ++range.first) {
+            existingFields.emplace_back(&range.first->second);
         }
-        bool fieldInserted = false;
-        auto range = fields().equal_range(fromField.id());
-        for (auto i = range.first; i != range.second; ++i) {
-            FieldType &ownField = i->second;
-            if ((fromField.isTypeInfoAssigned() && ownField.isTypeInfoAssigned() && fromField.typeInfo() == ownField.typeInfo())
-                || (!fromField.isTypeInfoAssigned() && !ownField.isTypeInfoAssigned())) {
-                if (overwrite || ownField.value().isEmpty()) {
-                    ownField = fromField;
-                    ++fieldsInserted;
-                }
-                fieldInserted = true;
+        for (; i != newFieldsEnd; ++i) {
+            const auto &newField = i->second;
+            if (!hasValues(newField)) {
                 continue;
             }
-        }
-        if (!fieldInserted) {
-            fields().insert(std::make_pair(fromField.id(), fromField));
+            const auto isCorrespondingField = [&](const FieldType *existingField) { return isSameField(*existingField, newField); };
+            if (!overwrite
+                && std::any_of(existingFields.begin(), existingFields.end(), [&](const FieldType *existingField) {
+                       return isCorrespondingField(existingField) && hasValues(*existingField)
+                           && std::find(usedFields.begin(), usedFields.end(), existingField) == usedFields.end();
+                   })) {
+                continue;
+            }
+            const auto existingField = std::find_if(existingFields.begin(), existingFields.end(), [&](FieldType *field) {
+                return isCorrespondingField(field) && std::find(usedFields.begin(), usedFields.end(), field) == usedFields.end();
+            });
+            if (existingField != existingFields.end()) {
+                **existingField = newField;
+                usedFields.emplace_back(*existingField);
+            } else {
+                fields().insert(std::make_pair(id, newField));
+            }
             ++fieldsInserted;
         }
+        // remove remaining existing fields which are supposed to be overwritten
+        if (!overwrite) {
+            continue;
+        }
+        for (auto *const existingField : existingFields) {
+            if (std::find(usedFields.begin(), usedFields.end(), existingField) == usedFields.end()
+                && std::any_of(usedFields.begin(), usedFields.end(), [&](const FieldType *usedField) { return isSameField(*existingField, *usedField); })) {
+                existingField->clearValue();
+            }
+        }
     }
     return fieldsInserted;
 }
diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 00bbfed..a664c16 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -110,9 +110,13 @@ std::vector<const TagValue *> Mp4Tag::values(KnownField field) const
 const TagValue &Mp4Tag::value(std::string_view mean, std::string_view name) const
 {
     auto range = fields().equal_range(Mp4TagAtomIds::Extended);
+    auto values = std::vector<const TagValue *>();
     for (auto i = range.first; i != range.second; ++i) {
         if (i->second.mean() == mean && i->second.name() == name) {
-            return i->second.value();
+            internallyGetValuesFromField(i->second, values);
+            if (!values.empty()) {
+                return *values.front();
+            }
         }
     }
     return TagValue::empty();
-- 
2.43.0


From 2de0ac465e6e6ce584a5098de868caee3d68fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:23 +0000
Subject: [PATCH 113/176] fix: Remove additional values of further ID3v2 frames
 when setting values

---
 id3/id3v2tag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index d218bbd..cbc31ef 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -131,6 +131,7 @@ bool Id3v2Tag::internallySetValues(const IdentifierType &id, const std::vector<T
     // remove remaining existing values (there are more existing values than specified ones)
     for (; range.first != range.second; ++range.first) {
         range.first->second.setValue(TagValue());
+        range.first->second.additionalValues().clear();
     }
     return true;
 }
-- 
2.43.0


From 5380becc8ee0a4db801e7c5bb2f5710bb656d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:17 +0000
Subject: [PATCH 114/176] fix: Detect signatures in small buffers correctly

---
 signature.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signature.cpp b/signature.cpp
index b4675ef..6aeb44d 100644
--- a/signature.cpp
+++ b/signature.cpp
@@ -118,10 +118,10 @@ ContainerFormat parseSignature(std::string_view buffer)
         sig = BE::toInt<std::uint64_t>(buffer.data());
     } else if (buffer.size() >= 4) {
         sig = BE::toInt<std::uint32_t>(buffer.data());
-        sig <<= 4;
+        sig <<= 32;
     } else if (buffer.size() >= 2) {
         sig = BE::toInt<std::uint16_t>(buffer.data());
-        sig <<= 6;
+        sig <<= 48;
     } else {
         return ContainerFormat::Unknown;
     }
-- 
2.43.0


From f0943df3fdfc4c0e7a3e152d0a53398b0c5c0a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:17 +0000
Subject: [PATCH 115/176] fix: Handle ID3v2 headers declaring a size which
 exceeds the file

---
 mediafileinfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 005c466..4c891b2 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -164,7 +164,7 @@ startParsingSignature:
         diag.emplace_back(DiagLevel::Information, "Parsing the container format has been aborted.", context);
         return;
     }
-    if (size() - containerOffset() >= 16) {
+    if (static_cast<std::streamoff>(size()) - m_containerOffset >= 16) {
         stream().seekg(m_containerOffset, ios_base::beg);
         stream().read(buff, sizeof(buff));
 
@@ -478,7 +478,7 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
     }
 
     // compute effective size
-    m_effectiveSize = static_cast<std::uint64_t>(effectiveSize - m_containerOffset);
+    m_effectiveSize = effectiveSize > m_containerOffset ? static_cast<std::uint64_t>(effectiveSize - m_containerOffset) : 0;
 
     // check for tags in tracks (FLAC only) or via container object
     try {
-- 
2.43.0


From 8379444d115f2340a247127c283de56194acb529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:27 +0000
Subject: [PATCH 116/176] fix: Allow saving MP4 files which are preceded by an
 ID3v2 tag

---
 abstractcontainer.h  | 2 +-
 mp4/mp4container.cpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstractcontainer.h b/abstractcontainer.h
index d693668..493b8ef 100644
--- a/abstractcontainer.h
+++ b/abstractcontainer.h
@@ -119,11 +119,11 @@ protected:
     bool m_tracksAltered;
     bool m_chaptersParsed;
     bool m_attachmentsParsed;
+    std::uint64_t m_startOffset;
 
 private:
     std::unique_ptr<AbstractContainerPrivate> &p();
 
-    std::uint64_t m_startOffset;
     std::iostream *m_stream;
     CppUtilities::BinaryReader m_reader;
     CppUtilities::BinaryWriter m_writer;
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index d680735..a5f8609 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -915,6 +915,8 @@ calculatePadding:
             }
         }
 
+        // reparse the new file (which does not contain anything which might have preceded the container anymore)
+        m_startOffset = 0;
         reset();
         try {
             parseTracks(diag, progress);
-- 
2.43.0


From 003c29f4ab369380ce31f5a6553ed4b77666e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:07 +0000
Subject: [PATCH 117/176] fix: treat genre 255 within ID3v1 tags as missing
 genre

---
 id3/id3v1tag.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 906813b..b265691 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -81,7 +81,9 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     if (is11) {
         m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
-    m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
+    if (const auto genreIndex = *reinterpret_cast<unsigned char *>(buffer + 127); !Id3Genres::isEmptyGenre(genreIndex)) {
+        m_genre.assignStandardGenreIndex(genreIndex);
+    }
 }
 
 /*!
-- 
2.43.0


From f7c17a747ae3224f327e177cbf37ebf5e581fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:07 +0000
Subject: [PATCH 118/176] fix: keep values when converting between ID3v1 and
 ID3v2 tags

---
 mediafileinfo.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 4c891b2..5eba72f 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -713,6 +713,8 @@ bool MediaFileInfo::createAppropriateTags(const TagCreationSettings &settings)
             // transfer tags to ID3v1 tag before removing
             for (const auto &tag : id3v2Tags()) {
                 id3v1Tag()->insertValues(*tag, false);
+                // ID3v1 does not support all text encodings which might be used in ID3v2
+                id3v1Tag()->ensureTextValuesAreProperlyEncoded();
             }
         }
         removeAllId3v2Tags();
@@ -1460,7 +1462,10 @@ bool MediaFileInfo::id3v1ToId3v2()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Never, TagUsage::Always, 3 });
+        {},
+        TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Never, TagUsage::Always, 3 });
 }
 
 /*!
@@ -1479,7 +1484,10 @@ bool MediaFileInfo::id3v2ToId3v1()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Always, TagUsage::Never, 3 });
+        {},
+        TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Always, TagUsage::Never, 3 });
 }
 
 /*!
-- 
2.43.0


From 19b6ba7eec4a956debfa9a6c67526fba24afc508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:07 +0000
Subject: [PATCH 119/176] fix: create required tags for the correct Ogg stream
 if there are no tags yet

---
 mediafileinfo.cpp    | 6 ++----
 ogg/oggcontainer.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 5eba72f..0240442 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -639,10 +639,8 @@ bool MediaFileInfo::createAppropriateTags(const TagCreationSettings &settings)
                 targetsSupported = m_container->tag(0)->supportsTarget();
             } else {
                 // try to create a new tag and check whether targets are supported
-                auto *const tag = m_container->createTag();
-                if (tag && (targetsSupported = tag->supportsTarget())) {
-                    tag->setTarget(requiredTargets.front());
-                }
+                const auto *const tag = m_container->createTag(requiredTargets.front());
+                targetsSupported = !tag || tag->supportsTarget();
             }
             if (targetsSupported) {
                 for (const auto &target : requiredTargets) {
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index ce269cf..e7de3e3 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -109,8 +109,11 @@ OggVorbisComment *OggContainer::createTag(const TagTarget &target)
                 // check whether start page has a valid value
                 if (track->startPage() < m_iterator.pages().size()) {
                     announceComment(track->startPage(), numeric_limits<size_t>::max(), false, track->format().general);
-                    m_tags.back()->setTarget(target);
-                    return m_tags.back().get();
+                    auto *const tag = m_tags.back().get();
+                    auto tracks = tag->target().tracks();
+                    tag->setTarget(target);
+                    tag->target().tracks() = std::move(tracks); // the tag always belongs to the stream it is stored in
+                    return tag;
                 } else {
                     // TODO: error handling?
                 }
-- 
2.43.0


From 2c0dacb53a1ee394bffd5807abbcba7150df7439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:59 +0000
Subject: [PATCH 120/176] fix: allow saving ID3v1 tags if the file has been
 closed or opened read-only

---
 mediafileinfo.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 0240442..3269f4b 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1696,8 +1696,9 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // add or update ID3v1 tag
             if (m_fileStructureFlags & MediaFileStructureFlags::ActualExistingId3v1Tag) {
                 progress.updateStep("Updating existing ID3v1 tag ...");
-                // ensure the file is still open / not readonly
-                open();
+                // ensure the file is open and not readonly
+                close();
+                stream().open(BasicFileInfo::pathForOpen(path()).data(), ios_base::in | ios_base::out | ios_base::binary);
                 stream().seekp(-128, ios_base::end);
                 try {
                     m_id3v1Tag->make(stream(), diag);
@@ -1706,8 +1707,9 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 }
             } else {
                 progress.updateStep("Adding new ID3v1 tag ...");
-                // ensure the file is still open / not readonly
-                open();
+                // ensure the file is open and not readonly
+                close();
+                stream().open(BasicFileInfo::pathForOpen(path()).data(), ios_base::in | ios_base::out | ios_base::binary);
                 stream().seekp(0, ios_base::end);
                 try {
                     m_id3v1Tag->make(stream(), diag);
-- 
2.43.0


From 6988d2783e1e4c7a8a7bc88f76186cf1841b15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:17 +0000
Subject: [PATCH 121/176] fix: avoid null-pointer dereference when checking for
 tags before FLAC tracks have been parsed

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 3269f4b..17fa6ad 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1602,7 +1602,7 @@ vector<Tag *> MediaFileInfo::tags() const
 bool MediaFileInfo::hasAnyTag() const
 {
     return hasId3v1Tag() || hasId3v2Tag() || (m_container && m_container->tagCount())
-        || (m_containerFormat == ContainerFormat::Flac && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
+        || (m_containerFormat == ContainerFormat::Flac && m_singleTrack && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
 }
 
 /*!
-- 
2.43.0


From 697a3e2fbc0ba244918674e5f0243438cfe3b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:17 +0000
Subject: [PATCH 122/176] fix: do not consider container parsed if parsing it
 has been aborted

---
 mediafileinfo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 17fa6ad..0cac12b 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -150,6 +150,9 @@ void MediaFileInfo::parseContainerFormat(Diagnostics &diag, AbortableProgressFee
     open(); // ensure the file is open
     m_containerFormat = ContainerFormat::Unknown;
 
+    // reset offsets possibly left by a previous attempt which has been aborted
+    m_actualId3v2TagOffsets.clear();
+
     // file size
     m_paddingSize = 0;
     m_containerOffset = 0;
@@ -225,6 +228,7 @@ startParsingSignature:
                 static_cast<Mp4Container *>(m_container.get())->validateElementStructure(diag, progress, &m_paddingSize);
             } catch (const OperationAbortedException &) {
                 diag.emplace_back(DiagLevel::Information, "Validating the MP4 element structure has been aborted.", context);
+                return;
             } catch (const Failure &) {
                 m_containerParsingStatus = ParsingStatus::CriticalFailure;
             }
@@ -248,6 +252,8 @@ startParsingSignature:
                 }
             } catch (const OperationAbortedException &) {
                 diag.emplace_back(DiagLevel::Information, "Validating the Matroska element structure has been aborted.", context);
+                m_container = std::move(container);
+                return;
             } catch (const Failure &) {
                 m_containerParsingStatus = ParsingStatus::CriticalFailure;
             }
-- 
2.43.0


From 2230def71565bd7ecbfb231c225fe923df939bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:39 +0000
Subject: [PATCH 123/176] fix: do not leave bogus ID3v1 tag behind if reading
 the tag fails

---
 mediafileinfo.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 0cac12b..6cf1801 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -421,10 +421,11 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
     // check for ID3v1 tag
     auto effectiveSize = static_cast<std::streamoff>(size());
     if (effectiveSize >= 128) {
-        m_id3v1Tag = make_unique<Id3v1Tag>();
+        auto id3v1Tag = make_unique<Id3v1Tag>();
         try {
             stream().seekg(effectiveSize - 128, std::ios_base::beg);
-            m_id3v1Tag->parse(stream(), diag);
+            id3v1Tag->parse(stream(), diag);
+            m_id3v1Tag = std::move(id3v1Tag);
             m_fileStructureFlags += MediaFileStructureFlags::ActualExistingId3v1Tag;
             effectiveSize -= 128;
         } catch (const NoDataFoundException &) {
-- 
2.43.0


From bbdefc83c309a4b5c151fcfe7730f9ecfeff41bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:40 +0000
Subject: [PATCH 124/176] fix: handle aborting when parsing chapters and
 attachments

---
 matroska/matroskacontainer.cpp | 5 +++++
 mediafileinfo.cpp              | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 0d4cb9e..4d76756 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -745,6 +745,7 @@ void MatroskaContainer::internalParseTracks(Diagnostics &diag, AbortableProgress
 void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("parsing editions/chapters of Matroska container");
+    m_editionEntries.clear(); // possibly left by a previous attempt which has been aborted
     for (EbmlElement *element : m_chaptersElements) {
         try {
             element->parse(diag);
@@ -757,6 +758,8 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         m_editionEntries.back()->parseNested(diag, progress);
                     } catch (const NoDataFoundException &) {
                         m_editionEntries.pop_back();
+                    } catch (const OperationAbortedException &) {
+                        throw;
                     } catch (const Failure &) {
                         diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse edition entry ", m_editionEntries.size(), '.'), context);
                     }
@@ -769,6 +772,8 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         "\"Chapters\"-element contains unknown child element \"" % subElement->idToString() + "\". It will be ignored.", context);
                 }
             }
+        } catch (const OperationAbortedException &) {
+            throw;
         } catch (const Failure &) {
             diag.emplace_back(DiagLevel::Critical, "Element structure seems to be invalid.", context);
             throw;
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 6cf1801..bb50a92 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -548,6 +548,8 @@ void MediaFileInfo::parseChapters(Diagnostics &diag, AbortableProgressFeedback &
     } catch (const NotImplementedException &) {
         m_chaptersParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing chapters is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing chapters has been aborted.", context);
     } catch (const Failure &) {
         m_chaptersParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse chapters.", context);
@@ -581,6 +583,8 @@ void MediaFileInfo::parseAttachments(Diagnostics &diag, AbortableProgressFeedbac
     } catch (const NotImplementedException &) {
         m_attachmentsParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing attachments is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing attachments has been aborted.", context);
     } catch (const Failure &) {
         m_attachmentsParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse attachments.", context);
-- 
2.43.0


From 87c87e455a180b2ae321cb090633e4878529e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:40 +0000
Subject: [PATCH 125/176] fix: avoid duplicated streams and tags when parsing
 an Ogg file again after aborting

---
 ogg/oggcontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index e7de3e3..ca0a14a 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -197,6 +197,10 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
     static const auto context = std::string("parsing Ogg bitstream header");
     auto pagesSkipped = false, continueFromHere = false;
 
+    // clear streams possibly left by a previous attempt which has been aborted
+    m_streamsBySerialNo.clear();
+    m_tracks.clear();
+
     // iterate through pages using OggIterator helper class
     try {
         // ensure iterator is setup properly
@@ -365,6 +369,7 @@ void OggContainer::announceComment(std::size_t pageIndex, std::size_t segmentInd
 void OggContainer::internalParseTracks(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("parsing Ogg stream");
+    m_tags.clear(); // comments are announced when parsing the streams and a previous attempt might have been aborted
     for (auto &stream : m_tracks) {
         if (progress.isAborted()) {
             throw OperationAbortedException();
-- 
2.43.0


From eae7ab2d379bde03c5201176f2b3d2a722890b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:53 +0000
Subject: [PATCH 126/176] fix: count ID3v2 padding only once when parsing tags
 again after aborting

---
 mediafileinfo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index bb50a92..17da7c7 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -466,12 +466,13 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
 
     // check for ID3v2 tags: the offsets of the ID3v2 tags have already been parsed when parsing the container format
     m_id3v2Tags.clear();
+    auto id3v2PaddingSize = std::uint64_t();
     for (const auto offset : m_actualId3v2TagOffsets) {
         auto id3v2Tag = make_unique<Id3v2Tag>();
         stream().seekg(offset, ios_base::beg);
         try {
             id3v2Tag->parse(stream(), size() - static_cast<std::uint64_t>(offset), diag);
-            m_paddingSize += id3v2Tag->paddingSize();
+            id3v2PaddingSize += id3v2Tag->paddingSize();
         } catch (const NoDataFoundException &) {
             continue;
         } catch (const OperationAbortedException &) {
@@ -483,6 +484,7 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
         }
         m_id3v2Tags.emplace_back(id3v2Tag.release());
     }
+    m_paddingSize += id3v2PaddingSize;
 
     // compute effective size
     m_effectiveSize = effectiveSize > m_containerOffset ? static_cast<std::uint64_t>(effectiveSize - m_containerOffset) : 0;
@@ -514,6 +516,7 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
         diag.emplace_back(DiagLevel::Information, "Parsing tags is not implemented for the container format of the file.", context);
     } catch (const OperationAbortedException &) {
         diag.emplace_back(DiagLevel::Information, "Parsing tags from container/streams has been aborted.", context);
+        m_paddingSize -= id3v2PaddingSize; // will be considered again on the next attempt
         return;
     } catch (const Failure &) {
         m_tagsParsingStatus = ParsingStatus::CriticalFailure;
-- 
2.43.0


From d1ac30d779e324ac0cd9bc0343f05e1cdc979dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:59 +0000
Subject: [PATCH 127/176] fix: preserve explicitly undefined LanguageIETF of
 Matroska tracks

---
 matroska/matroskatrack.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 9058364..1d21f48 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -548,6 +548,21 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
     }
 }
 
+/*!
+ * \brief Returns the value for the "LanguageIETF"-element or an empty string if none should be written.
+ * \remarks Not using Locale::abbreviatedName() here to preserve "und" (explicitly undefined) because "LanguageIETF"
+ *          takes precedence over "Language".
+ */
+static const std::string &languageIETF(const Locale &locale)
+{
+    for (const auto &detail : locale) {
+        if (!detail.empty() && detail.format == LocaleFormat::BCP_47) {
+            return detail;
+        }
+    }
+    return LocaleDetail::getEmpty();
+}
+
 /*!
  * \class TagParser::MatroskaTrackHeaderMaker
  * \brief The MatroskaTrackHeaderMaker class helps writing Matroska "TrackEntry"-elements storing track header information.
@@ -562,7 +577,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
 MatroskaTrackHeaderMaker::MatroskaTrackHeaderMaker(const MatroskaTrack &track, Diagnostics &diag)
     : m_track(track)
     , m_language(m_track.locale().abbreviatedName(LocaleFormat::ISO_639_2_B, LocaleFormat::Unknown))
-    , m_languageIETF(m_track.locale().abbreviatedName(LocaleFormat::BCP_47))
+    , m_languageIETF(languageIETF(m_track.locale()))
     , m_dataSize(0)
 {
     CPP_UTILITIES_UNUSED(diag);
-- 
2.43.0


From 9c204fca09286a21d0c4befd6f77674c37efd881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:12 +0000
Subject: [PATCH 128/176] fix: leave attachment unchanged if the file to be
 attached cannot be opened

---
 abstractattachment.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/abstractattachment.cpp b/abstractattachment.cpp
index 9d586dd..d651dac 100644
--- a/abstractattachment.cpp
+++ b/abstractattachment.cpp
@@ -190,7 +190,6 @@ void AbstractAttachment::clear()
  */
 void AbstractAttachment::setFile(string_view path, Diagnostics &diag, AbortableProgressFeedback &progress)
 {
-    m_data.reset();
     auto file = make_unique<FileDataBlock>(path, diag, progress);
     const auto fileName = file->fileInfo()->fileName();
     if (!fileName.empty()) {
-- 
2.43.0


From dd1aa957bcbd230cacf6c6e36a3404515b7a9399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:46 +0000
Subject: [PATCH 129/176] fix: keep mandatory FileData element of empty
 Matroska attachments

---
 matroska/matroskaattachment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskaattachment.cpp b/matroska/matroskaattachment.cpp
index 8db1f32..00d5934 100644
--- a/matroska/matroskaattachment.cpp
+++ b/matroska/matroskaattachment.cpp
@@ -118,7 +118,8 @@ MatroskaAttachmentMaker::MatroskaAttachmentMaker(MatroskaAttachment &attachment,
     m_attachedFileElementSize = 2 + EbmlElement::calculateSizeDenotationLength(attachment.name().size()) + attachment.name().size() + 2
         + EbmlElement::calculateSizeDenotationLength(attachment.mimeType().size()) + attachment.mimeType().size() + 2 + 1
         + EbmlElement::calculateUIntegerLength(attachment.id());
-    if (auto dataSize = attachment.data() ? attachment.data()->size() : static_cast<std::uint64_t>(0)) {
+    if (attachment.data()) {
+        const auto dataSize = attachment.data()->size();
         m_attachedFileElementSize += 2 + EbmlElement::calculateSizeDenotationLength(dataSize) + dataSize;
     }
     if (!attachment.description().empty()) {
@@ -171,7 +172,7 @@ void MatroskaAttachmentMaker::make(ostream &stream, Diagnostics &diag) const
             }
         }
     }
-    if (attachment().data() && attachment().data()->size()) {
+    if (attachment().data()) {
         BE::getBytes(static_cast<std::uint16_t>(MatroskaIds::FileData), buff);
         stream.write(buff, 2);
         len = EbmlElement::makeSizeDenotation(static_cast<std::uint64_t>(attachment().data()->size()), buff);
@@ -191,7 +192,7 @@ void MatroskaAttachmentMaker::bufferCurrentAttachments(Diagnostics &diag)
             }
         }
     }
-    if (attachment().data() && attachment().data()->size() && !attachment().isDataFromFile()) {
+    if (attachment().data() && !attachment().isDataFromFile()) {
         attachment().data()->makeBuffer();
     }
 }
-- 
2.43.0


From 20346d82fd5e7e681f3ad335ab4df4a059238a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 130/176] fix: avoid reading beyond MPEG audio bitrate table
 when bitrate index is 15

---
 mpegaudio/mpegaudioframe.cpp | 2 +-
 mpegaudio/mpegaudioframe.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index df8a99d..33dcd46 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -35,7 +35,7 @@ std::string_view mpegChannelModeString(MpegChannelMode channelMode)
  * \brief The MpegAudioFrame class is used to parse MPEG audio frames.
  */
 
-const std::uint16_t MpegAudioFrame::s_bitrateTable[0x2][0x3][0xF] = { { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 },
+const std::uint16_t MpegAudioFrame::s_bitrateTable[0x2][0x3][0x10] = { { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 },
                                                                           { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384 },
                                                                           { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 } },
     { { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 },
diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 7f95a0d..34ff7f8 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -65,7 +65,7 @@ public:
 private:
     static constexpr std::uint64_t s_xingHeaderOffset = 0x24;
     static constexpr std::uint32_t s_sync = 0xFFE00000u;
-    static const std::uint16_t s_bitrateTable[0x2][0x3][0xF];
+    static const std::uint16_t s_bitrateTable[0x2][0x3][0x10];
     std::uint32_t m_header;
     std::uint64_t m_xingHeader;
     XingHeaderFlags m_xingHeaderFlags;
-- 
2.43.0


From 4771e082b2ced29846265cc7bf4bcf199c0a3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 131/176] fix: compute size of MPEG audio frames correctly

---
 mpegaudio/mpegaudioframe.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index 33dcd46..1443af2 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -207,17 +207,17 @@ std::uint32_t MpegAudioFrame::sampleCount() const
  */
 std::uint32_t MpegAudioFrame::size() const
 {
+    const auto bitsPerSecond = static_cast<std::uint32_t>(bitrate()) * 1000u;
+    const auto frequency = samplingFrequency();
+    if (!bitsPerSecond || !frequency) {
+        return 0;
+    }
     switch (m_header & 0x60000u) {
-    case 0x60000u: // layer 1
-        return static_cast<std::uint32_t>(
-                   ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-                   + static_cast<double>(paddingSize()))
-            * 4;
+    case 0x60000u: // layer 1 (size is always a multiple of the slot size of 4 bytes)
+        return sampleCount() / 8u / 4u * bitsPerSecond / frequency * 4u + paddingSize();
     case 0x40000u: // layer 2
     case 0x20000u: // layer 3
-        return static_cast<std::uint32_t>(
-            ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-            + static_cast<double>(paddingSize()));
+        return sampleCount() / 8u * bitsPerSecond / frequency + paddingSize();
     default:
         return 0;
     }
-- 
2.43.0


From 09460f8d65ccd7ace7dede8dca6ddc203352f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 132/176] fix: avoid mistaking arbitrary data for Xing header

---
 mpegaudio/mpegaudioframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 34ff7f8..2bad6a1 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -158,7 +158,7 @@ constexpr XingHeaderFlags operator&(XingHeaderFlags lhs, XingHeaderFlags rhs)
  */
 constexpr bool MpegAudioFrame::isXingHeaderAvailable() const
 {
-    return ((m_xingHeader & 0x58696e6700000000uL) == 0x58696e6700000000uL) || ((m_xingHeader & 0x496e666f00000000uL) == 0x496e666f00000000uL);
+    return (m_xingHeader >> 32) == 0x58696e67u || (m_xingHeader >> 32) == 0x496e666fu;
 }
 
 /*!
-- 
2.43.0


From 1060956d62884228d0407a57d50f20fc62d725e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:48 +0000
Subject: [PATCH 133/176] fix: find Xing header of mono and MPEG 2/2.5 files

---
 mpegaudio/mpegaudioframe.cpp | 7 +++++--
 mpegaudio/mpegaudioframe.h   | 1 -
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index 1443af2..693b2d6 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -60,10 +60,13 @@ void MpegAudioFrame::parseHeader(BinaryReader &reader, Diagnostics &diag)
     }
 
     // read XING header (see https://www.codeproject.com/Articles/8295/MPEG-Audio-Frame-Header#XINGHeader)
-    if (size() < s_xingHeaderOffset - 4 + 8) {
+    // note: The Xing header is located after the side information which size depends on the version and channel mode.
+    const auto isMono = channelMode() == MpegChannelMode::SingleChannel;
+    const auto sideInfoSize = mpegVersion() == 1.0 ? (isMono ? 17u : 32u) : (isMono ? 9u : 17u);
+    if (size() < 4u + sideInfoSize + 8u) {
         return;
     }
-    reader.stream()->seekg(s_xingHeaderOffset - 4, ios_base::cur);
+    reader.stream()->seekg(sideInfoSize, ios_base::cur);
     m_xingHeader = reader.readUInt64BE();
     if (isXingHeaderAvailable()) {
         m_xingHeaderFlags = static_cast<XingHeaderFlags>(m_xingHeader & 0xffffffffuL);
diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 2bad6a1..6d0f064 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -63,7 +63,6 @@ public:
     constexpr std::uint32_t xingQualityIndicator() const;
 
 private:
-    static constexpr std::uint64_t s_xingHeaderOffset = 0x24;
     static constexpr std::uint32_t s_sync = 0xFFE00000u;
     static const std::uint16_t s_bitrateTable[0x2][0x3][0x10];
     std::uint32_t m_header;
-- 
2.43.0


From d875dcb06efce8f0bcfd9f2c7fc378aec12eaa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:48 +0000
Subject: [PATCH 134/176] fix: avoid overflow when computing duration from Xing
 header

---
 mpegaudio/mpegaudioframestream.cpp | 2 +-
 wav/waveaudiostream.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index 32d05ba..8204676 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -79,7 +79,7 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
         }
     }
     if (frame.isXingFramefieldPresent()) {
-        const auto duration = static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
+        const auto duration = static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
         m_bitrate = static_cast<double>(m_size) / duration / 125.0;
         m_duration = TimeSpan::fromSeconds(duration);
     } else {
diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 38c6950..ccf90f9 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -188,7 +188,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     MpegAudioFrameStream::addInfo(frame, *this);
     m_bitrate = frame.isXingFramefieldPresent()
         ? ((static_cast<double>(m_size) * 8.0)
-              / (static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())) / 1024.0)
+              / (static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())) / 1024.0)
         : frame.bitrate();
     m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
     m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 128.0));
-- 
2.43.0


From 71f490608f7584e4e94583de8ef8b7f1048e3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:01 +0000
Subject: [PATCH 135/176] fix: read size of ADTS frames of 256 bytes and more
 correctly

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 53ad236..88fce67 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -102,7 +102,7 @@ constexpr std::uint8_t AdtsFrame::mpeg4ChannelConfig() const
  */
 constexpr std::uint16_t AdtsFrame::totalSize() const
 {
-    return static_cast<std::uint8_t>((m_header2 >> 0x1D) & 0x1FFFu);
+    return static_cast<std::uint16_t>((m_header2 >> 0x1D) & 0x1FFFu);
 }
 
 /*!
-- 
2.43.0


From b27542f1da4b9518eef380cd83c41fe6e98cf652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:01 +0000
Subject: [PATCH 136/176] fix: correct check whether ADTS frame is MPEG-4

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 88fce67..61fef79 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -57,7 +57,7 @@ constexpr bool AdtsFrame::isValid() const
  */
 constexpr bool AdtsFrame::isMpeg4() const
 {
-    return m_header1 & 0x8u;
+    return (m_header1 & 0x8u) == 0;
 }
 
 /*!
-- 
2.43.0


From 041ad90d50dbbd97da1e4664919062eb4cf53998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:13 +0000
Subject: [PATCH 137/176] fix: avoid reading beyond table of MPEG-4 sampling
 frequencies

---
 aac/aacframe.cpp           | 6 +++---
 adts/adtsstream.cpp        | 2 +-
 matroska/matroskatrack.cpp | 4 ++--
 mp4/mp4track.cpp           | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/aac/aacframe.cpp b/aac/aacframe.cpp
index 62120b0..dd72eee 100644
--- a/aac/aacframe.cpp
+++ b/aac/aacframe.cpp
@@ -1297,12 +1297,12 @@ void AacFrameElementParser::parseSbrChannelPairElement(std::shared_ptr<AacSbrInf
 
 shared_ptr<AacSbrInfo> AacFrameElementParser::makeSbrInfo(std::uint8_t sbrElement, bool isDrm)
 {
-    if (m_mpeg4ExtensionSamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)
-        && m_mpeg4SamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)) {
+    if (m_mpeg4ExtensionSamplingFrequencyIndex >= std::size(mpeg4SamplingFrequencyTable)
+        && m_mpeg4SamplingFrequencyIndex >= std::size(mpeg4SamplingFrequencyTable)) {
         throw InvalidDataException(); // sampling frequency index is invalid
     }
     return make_shared<AacSbrInfo>(m_elementId[sbrElement],
-        m_mpeg4ExtensionSamplingFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)
+        m_mpeg4ExtensionSamplingFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)
             ? mpeg4SamplingFrequencyTable[m_mpeg4ExtensionSamplingFrequencyIndex]
             : mpeg4SamplingFrequencyTable[m_mpeg4SamplingFrequencyIndex] * 2,
         m_frameLength, isDrm);
diff --git a/adts/adtsstream.cpp b/adts/adtsstream.cpp
index 405fbda..9253f72 100644
--- a/adts/adtsstream.cpp
+++ b/adts/adtsstream.cpp
@@ -30,7 +30,7 @@ void AdtsStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
     m_format = Mpeg4AudioObjectIds::idToMediaFormat(m_firstFrame.mpeg4AudioObjectId());
     m_channelCount = Mpeg4ChannelConfigs::channelCount(m_channelConfig = m_firstFrame.mpeg4ChannelConfig());
     std::uint8_t sampleRateIndex = m_firstFrame.mpeg4SamplingFrequencyIndex();
-    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
+    m_samplingFrequency = sampleRateIndex < std::size(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
 }
 
 } // namespace TagParser
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 1d21f48..1c287de 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -491,14 +491,14 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                 audioSpecificConfig->audioObjectType, audioSpecificConfig->sbrPresent, audioSpecificConfig->psPresent);
             if (audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                 //m_samplingFrequency = audioSpecificConfig->sampleFrequency;
-            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_samplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->sampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
             }
             if (audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                 //m_extensionSamplingFrequency = audioSpecificConfig->extensionSampleFrequency;
-            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_extensionSamplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->extensionSampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid extension sample frequency index.", context);
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 926e1bd..1d0e319 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1952,14 +1952,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     m_esInfo->audioSpecificConfig->sbrPresent, m_esInfo->audioSpecificConfig->psPresent);
                                 if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                                     m_samplingFrequency = m_esInfo->audioSpecificConfig->sampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_samplingFrequency = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->sampleFrequencyIndex];
                                 } else {
                                     diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
                                 }
                                 if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                                     m_extensionSamplingFrequency = m_esInfo->audioSpecificConfig->extensionSampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_extensionSamplingFrequency
                                         = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex];
                                 } else {
-- 
2.43.0


From d6ddd14ea9c7e55c29f31a073f151b972fb6a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 138/176] fix: set bitrate of WAVE tracks in kbit/s

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index ccf90f9..adc09de 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -141,7 +141,7 @@ void WaveAudioStream::addInfo(const WaveFormatHeader &waveHeader, AbstractTrack
     track.m_bytesPerSecond = waveHeader.bytesPerSecond;
     track.m_chunkSize = waveHeader.chunkSize;
     track.m_bitsPerSample = waveHeader.bitsPerSample;
-    track.m_bitrate = waveHeader.bitrate();
+    track.m_bitrate = static_cast<double>(waveHeader.bitsPerSample) * waveHeader.sampleRate * waveHeader.channelCount / 1000.0; // in kbit/s
 }
 
 void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
-- 
2.43.0


From 7f99ad67527e9f9ab0ed4d70ccafd01547e73c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 139/176] fix: consider padding of RIFF segments with odd size

---
 wav/waveaudiostream.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index adc09de..9f9727e 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -161,23 +161,24 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     }
     while (!m_dataOffset) {
         const auto segmentId = m_reader.readUInt32BE();
-        auto restHeaderLen = static_cast<std::uint64_t>(m_reader.readUInt32LE());
+        const auto segmentSize = static_cast<std::uint64_t>(m_reader.readUInt32LE());
+        const auto segmentOffset = static_cast<std::uint64_t>(m_istream->tellg());
         switch (segmentId) {
         case 0x666D7420u: { // format segment
             WaveFormatHeader waveHeader;
-            const auto bytesRead = waveHeader.parse(m_reader, restHeaderLen, diag);
+            waveHeader.parse(m_reader, segmentSize, diag);
             addInfo(waveHeader, *this);
-            restHeaderLen -= bytesRead;
         } break;
         case 0x64617461u: // data segment
-            m_dataOffset = static_cast<std::uint64_t>(m_istream->tellg());
-            m_size = restHeaderLen;
+            m_dataOffset = segmentOffset;
+            m_size = segmentSize;
             m_sampleCount = m_size / m_chunkSize;
             m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
             break;
         default:;
         }
-        m_istream->seekg(static_cast<std::streamoff>(restHeaderLen), ios_base::cur);
+        // skip to next segment considering the padding byte which is present if the size is odd
+        m_istream->seekg(static_cast<std::streamoff>(segmentOffset + segmentSize + (segmentSize & 1u)));
     }
     if (m_format.general != GeneralMediaFormat::Mpeg1Audio || !m_dataOffset) {
         return;
-- 
2.43.0


From 999f051122821c8ac3edfa251ab49baff4a9ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 140/176] fix: avoid division by zero when parsing WAVE file
 with invalid format segment

---
 wav/waveaudiostream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 9f9727e..f1bd5ce 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -172,8 +172,12 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
         case 0x64617461u: // data segment
             m_dataOffset = segmentOffset;
             m_size = segmentSize;
-            m_sampleCount = m_size / m_chunkSize;
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            if (m_chunkSize) {
+                m_sampleCount = m_size / m_chunkSize;
+            }
+            if (m_samplingFrequency) {
+                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            }
             break;
         default:;
         }
-- 
2.43.0


From 3d8c0d3f92292e0d3f821e80dac77d35a0676d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 141/176] fix: compute bitrate and duration of MPEG audio
 within WAVE files correctly

---
 wav/waveaudiostream.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index f1bd5ce..9454921 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -191,12 +191,17 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     MpegAudioFrame frame;
     frame.parseHeader(m_reader, diag);
     MpegAudioFrameStream::addInfo(frame, *this);
-    m_bitrate = frame.isXingFramefieldPresent()
-        ? ((static_cast<double>(m_size) * 8.0)
-              / (static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())) / 1024.0)
-        : frame.bitrate();
+    if (frame.isXingFramefieldPresent() && frame.xingFrameCount() && frame.samplingFrequency()) {
+        const auto duration
+            = static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
+        m_bitrate = static_cast<double>(m_size) / duration / 125.0;
+    } else {
+        m_bitrate = frame.bitrate();
+    }
     m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 128.0));
+    if (m_bitrate > 0.0) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
+    }
 }
 
 } // namespace TagParser
-- 
2.43.0


From 6eb24f2afaf88ff877365b09fc851ec19ccf1524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:27 +0000
Subject: [PATCH 142/176] fix: consider time scale when computing frame rate
 and duration of IVF files

---
 ivf/ivfstream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ivf/ivfstream.cpp b/ivf/ivfstream.cpp
index 05a272f..f106f65 100644
--- a/ivf/ivfstream.cpp
+++ b/ivf/ivfstream.cpp
@@ -46,13 +46,18 @@ void IvfStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     m_formatId = interpretIntegerAsString(formatId);
     m_pixelSize.setWidth(m_reader.readUInt16LE());
     m_pixelSize.setHeight(m_reader.readUInt16LE());
-    m_fps = m_reader.readUInt32LE();
+    const auto frameRate = m_reader.readUInt32LE();
     m_timeScale = m_reader.readUInt32LE();
     m_sampleCount = m_reader.readUInt32LE();
 
     // compute further values
     m_format = FourccIds::fourccToMediaFormat(formatId);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_fps);
+    if (m_timeScale) {
+        m_fps = frameRate / m_timeScale;
+    }
+    if (frameRate) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) * m_timeScale / frameRate);
+    }
 
     // skip unused bytes
     m_istream->seekg(4, ios_base::cur);
-- 
2.43.0


From c08df6f47bcf3d610be0bd6d7e7a27e78f78b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:27 +0000
Subject: [PATCH 143/176] fix: read IVF frame header as little endian

---
 ivf/ivfframe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ivf/ivfframe.cpp b/ivf/ivfframe.cpp
index cce1104..ace4d6f 100644
--- a/ivf/ivfframe.cpp
+++ b/ivf/ivfframe.cpp
@@ -22,8 +22,8 @@ void IvfFrame::parseHeader(CppUtilities::BinaryReader &reader, Diagnostics &diag
 {
     CPP_UTILITIES_UNUSED(diag)
     startOffset = static_cast<std::uint64_t>(reader.stream()->tellg());
-    size = reader.readUInt32BE();
-    timestamp = reader.readUInt64BE();
+    size = reader.readUInt32LE();
+    timestamp = reader.readUInt64LE();
 }
 
 } // namespace TagParser
-- 
2.43.0


From 939472c050aa01d49481af58374c2e5acf4f0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:27 +0000
Subject: [PATCH 144/176] fix: avoid division by zero when computing duration
 of MPEG audio streams

---
 mpegaudio/mpegaudioframestream.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index 8204676..f471d81 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -78,12 +78,11 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
                 context);
         }
     }
-    if (frame.isXingFramefieldPresent()) {
+    if (frame.isXingFramefieldPresent() && frame.xingFrameCount() && frame.samplingFrequency()) {
         const auto duration = static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
         m_bitrate = static_cast<double>(m_size) / duration / 125.0;
         m_duration = TimeSpan::fromSeconds(duration);
-    } else {
-        m_bitrate = frame.bitrate();
+    } else if ((m_bitrate = frame.bitrate()) > 0.0) {
         m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125)));
     }
 }
-- 
2.43.0


From 1edad10a9c56d9859f10012769af0f729e76f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:28 +0000
Subject: [PATCH 145/176] fix: read sampling frequency from MP4 sample entry

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 1d0e319..4869dcf 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1833,7 +1833,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_bitsPerSample = reader.readUInt16BE();
                     m_istream->seekg(4, ios_base::cur); // skip reserved bytes (again)
                     if (!m_samplingFrequency) {
-                        m_samplingFrequency = reader.readUInt32BE() >> 16;
+                        m_samplingFrequency = reader.readUInt32BE();
                         if (codecConfigContainerAtom->id() != FourccIds::DolbyMpl) {
                             m_samplingFrequency >>= 16;
                         }
-- 
2.43.0


From a55596c748e5b29e8c1a2d81a0da6eea4359da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:28 +0000
Subject: [PATCH 146/176] fix: compute duration of Opus streams independently
 of original sample rate

---
 ogg/oggstream.cpp | 12 ++++++------
 ogg/oggstream.h   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index dd83fce..c111b7f 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -102,7 +102,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         if (m_bitrate != 0.0) {
                             m_bitrate /= 1000.0;
                         }
-                        calculateDurationViaSampleCount();
+                        calculateDurationViaSampleCount(m_samplingFrequency);
                         hasIdentificationHeader = true;
                     } else {
                         diag.emplace_back(DiagLevel::Critical,
@@ -144,7 +144,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_version = ind.version();
                     m_channelCount = ind.channels();
                     m_samplingFrequency = ind.sampleRate();
-                    calculateDurationViaSampleCount(ind.preSkip());
+                    calculateDurationViaSampleCount(48000, ind.preSkip()); // granule position is always in units of 48 kHz samples
                     hasIdentificationHeader = true;
                 } else {
                     diag.emplace_back(
@@ -197,7 +197,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_channelCount = streamInfo.channelCount();
                     m_samplingFrequency = streamInfo.samplingFrequency();
                     m_sampleCount = streamInfo.totalSampleCount();
-                    calculateDurationViaSampleCount();
+                    calculateDurationViaSampleCount(m_samplingFrequency);
                     hasIdentificationHeader = true;
                 } else {
                     diag.emplace_back(
@@ -288,7 +288,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
 }
 
-void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
+void OggStream::calculateDurationViaSampleCount(std::uint32_t sampleRate, std::uint16_t preSkip)
 {
     // define predicate for finding pages of this stream by its stream serial number
     const auto pred = bind(&OggPage::matchesStreamSerialNumber, _1, m_id);
@@ -311,8 +311,8 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
     }
 
     // actually calculate the duration
-    if (m_sampleCount && m_samplingFrequency != 0.0) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+    if (m_sampleCount && sampleRate) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / sampleRate);
     }
 }
 
diff --git a/ogg/oggstream.h b/ogg/oggstream.h
index 11d85e0..87fed52 100644
--- a/ogg/oggstream.h
+++ b/ogg/oggstream.h
@@ -24,7 +24,7 @@ protected:
     void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) override;
 
 private:
-    void calculateDurationViaSampleCount(std::uint16_t preSkip = 0);
+    void calculateDurationViaSampleCount(std::uint32_t sampleRate, std::uint16_t preSkip = 0);
 
     std::size_t m_startPage;
     OggContainer &m_container;
-- 
2.43.0


From 41196f7f0a526aefe00da023bc1ed2eedc19a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:12 +0000
Subject: [PATCH 147/176] fix: avoid overflow and division by zero when
 computing duration of MP4 files

---
 mp4/mp4container.cpp | 23 +++++++++++++++++------
 mp4/mp4container.h   |  1 +
 mp4/mp4track.cpp     |  2 +-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index a5f8609..dbc6764 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -31,6 +31,19 @@ namespace TagParser {
  */
 const CppUtilities::DateTime Mp4Container::epoch = DateTime::fromDate(1904, 1, 1);
 
+/*!
+ * \brief Computes the duration from the specified \a duration given in units of the specified \a timeScale.
+ * \remarks Returns zero if the time scale is zero.
+ */
+TimeSpan Mp4Container::computeDuration(std::uint64_t duration, std::uint32_t timeScale)
+{
+    if (!timeScale) {
+        return TimeSpan();
+    }
+    constexpr auto ticksPerSecond = static_cast<std::uint64_t>(TimeSpan::ticksPerSecond);
+    return TimeSpan(static_cast<TimeSpan::TickType>(duration / timeScale * ticksPerSecond + duration % timeScale * ticksPerSecond / timeScale));
+}
+
 /*!
  * \brief Constructs a new container for the specified \a fileInfo at the specified \a startOffset.
  */
@@ -138,15 +151,13 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = computeDuration(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 1:
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = computeDuration(reader().readUInt64BE(), m_timeScale);
                             break;
                         default:;
                         }
@@ -169,10 +180,10 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (durationSize) {
                         case 4u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt32BE()) / static_cast<double>(m_timeScale));
+                            m_duration = computeDuration(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 8u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt64BE()) / static_cast<double>(m_timeScale));
+                            m_duration = computeDuration(reader().readUInt64BE(), m_timeScale);
                             break;
                         default:;
                         }
diff --git a/mp4/mp4container.h b/mp4/mp4container.h
index c636947..859faf9 100644
--- a/mp4/mp4container.h
+++ b/mp4/mp4container.h
@@ -27,6 +27,7 @@ public:
     ElementPosition determineIndexPosition(Diagnostics &diag) const override;
 
     static const CppUtilities::DateTime epoch;
+    static CppUtilities::TimeSpan computeDuration(std::uint64_t duration, std::uint32_t timeScale);
 
 protected:
     void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) override;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 4869dcf..522a92f 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1736,7 +1736,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
     m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
     m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
-    m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale);
+    m_duration = Mp4Container::computeDuration(m_rawMdhdDuration, m_timeScale);
 
     std::uint16_t tmp = reader.readUInt16BE();
     if (tmp) {
-- 
2.43.0


From 8b2b3b4a67c66a30ce9ce309ac213501211a926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:38 +0000
Subject: [PATCH 148/176] fix: consider emulation prevention bytes when parsing
 AVC sequence parameter sets

---
 avc/avcinfo.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index 6adac0f..e06768a 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -13,6 +13,24 @@ using namespace CppUtilities;
 
 namespace TagParser {
 
+/*!
+ * \brief Removes "emulation prevention" bytes from the NAL unit with the specified \a size within the specified \a buffer.
+ * \returns Returns the new size.
+ */
+static std::size_t removeEmulationPreventionBytes(char *buffer, std::size_t size)
+{
+    auto newSize = std::size_t();
+    for (std::size_t i = 0, zeros = 0; i != size; ++i) {
+        if (zeros >= 2 && buffer[i] == 3) {
+            zeros = 0;
+            continue;
+        }
+        zeros = buffer[i] ? 0 : zeros + 1;
+        buffer[newSize++] = buffer[i];
+    }
+    return newSize;
+}
+
 /*!
  * \struct TagParser::SpsInfo
  * \brief The SpsInfo struct holds the sequence parameter set.
@@ -31,7 +49,7 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     // buffer data for reading with BitReader
     auto buffer = make_unique<char[]>(size);
     reader.read(buffer.get(), size);
-    BitReader bitReader(buffer.get(), size);
+    BitReader bitReader(buffer.get(), removeEmulationPreventionBytes(buffer.get(), size));
 
     try {
         // read general values
-- 
2.43.0


From 32eab57a57d29aa44d6d0f08bae827c9a0d5e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:38 +0000
Subject: [PATCH 149/176] fix: skip scaling lists of AVC sequence parameter
 sets correctly

---
 avc/avcinfo.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index e06768a..8a79f9a 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -81,14 +81,21 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
             bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // bit depth chroma minus8
             bitReader.skipBits(1); // qpprime y zero transform bypass flag
             if (bitReader.readBit()) { // sequence scaling matrix present flag
-                for (std::uint8_t i = 0; i < 8; ++i) {
+                const std::uint8_t scalingListCount = chromaFormatIndication == 3 ? 12 : 8;
+                for (std::uint8_t i = 0; i < scalingListCount; ++i) {
                     // TODO: store values
-                    if (bitReader.readBit()) { // sequence scaling list present
-                        if (i < 6) {
-                            bitReader.skipBits(16); // scalingList4x4[i]
-                        } else {
-                            bitReader.skipBits(64); // scalingList8x8[i - 6]
+                    if (!bitReader.readBit()) { // sequence scaling list present
+                        continue;
+                    }
+                    // skip scalingList4x4[i] or scalingList8x8[i - 6]
+                    const std::uint8_t scalingListSize = i < 6 ? 16 : 64;
+                    auto lastScale = sgolomb(8);
+                    for (std::uint8_t j = 0; j < scalingListSize; ++j) {
+                        const auto nextScale = (lastScale + bitReader.readSignedExpGolombCodedBits<sgolomb>()) & 0xFF;
+                        if (!nextScale) {
+                            break;
                         }
+                        lastScale = nextScale;
                     }
                 }
             }
-- 
2.43.0


From 43ae5578285df9b9b37f4346586d8bbc53e1a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:38 +0000
Subject: [PATCH 150/176] fix: consider all parameter sets of AVC configuration
 and their size fields

---
 avc/avcconfiguration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/avc/avcconfiguration.cpp b/avc/avcconfiguration.cpp
index 8b25fab..faaa124 100644
--- a/avc/avcconfiguration.cpp
+++ b/avc/avcconfiguration.cpp
@@ -36,7 +36,7 @@ void AvcConfiguration::parse(BinaryReader &reader, std::uint64_t maxSize, Diagno
     naluSizeLength = (reader.readByte() & 0x03) + 1;
 
     // read SPS info entries
-    std::uint8_t spsEntryCount = reader.readByte() & 0x0f;
+    std::uint8_t spsEntryCount = reader.readByte() & 0x1f;
     std::uint8_t ignoredSpsEntries = 0;
     spsInfos.reserve(spsEntryCount);
     for (; spsEntryCount; --spsEntryCount) {
@@ -55,7 +55,7 @@ void AvcConfiguration::parse(BinaryReader &reader, std::uint64_t maxSize, Diagno
         } catch (const Failure &) {
             error = true;
         }
-        maxSize -= spsInfos.back().size;
+        maxSize -= SpsInfo::minSize + spsInfos.back().size;
         if (error) {
             spsInfos.pop_back();
             ++ignoredSpsEntries;
@@ -82,7 +82,7 @@ void AvcConfiguration::parse(BinaryReader &reader, std::uint64_t maxSize, Diagno
         } catch (const Failure &) {
             error = true;
         }
-        maxSize -= ppsInfos.back().size;
+        maxSize -= PpsInfo::minSize + ppsInfos.back().size;
         if (error) {
             ppsInfos.pop_back();
             ++ignoredPpsEntries;
-- 
2.43.0


From d3fab132b04adf9213002d4179f1de103cfa1988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:15 +0000
Subject: [PATCH 151/176] fix: treat Matroska tracks denoted to be progressive
 as such

---
 matroska/matroskatrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 1c287de..3140552 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -365,7 +365,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     m_fps = static_cast<std::uint32_t>(subElement->readFloat());
                     break;
                 case MatroskaIds::FlagInterlaced:
-                    modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger());
+                    modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger() == 1); // 2 denotes progressive
                     break;
                 case MatroskaIds::ColorSpace:
                     m_colorSpace = static_cast<std::uint32_t>(subElement->readUInteger());
-- 
2.43.0


From 9c4675c57186bec808fbea0dca6a7f81356ca5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:15 +0000
Subject: [PATCH 152/176] fix: compute frame rate of Matroska tracks
 independently of element order

---
 matroska/matroskatrack.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 3140552..ec8821b 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -296,6 +296,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
     }
     // read information about the track from the children of the track entry element
     auto hasIsoLanguage = false;
+    std::uint64_t defaultDuration = 0;
     m_flags = TrackFlags::Default | TrackFlags::Enabled;
     for (EbmlElement *trackInfoElement = m_trackElement->firstChild(), *subElement = nullptr; trackInfoElement;
         trackInfoElement = trackInfoElement->nextSibling()) {
@@ -305,7 +306,6 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             diag.emplace_back(DiagLevel::Critical, "Unable to parse track information element.", context);
             break;
         }
-        std::uint64_t defaultDuration = 0;
         switch (trackInfoElement->id()) {
         case MatroskaIds::TrackType:
             switch (trackInfoElement->readUInteger()) {
@@ -444,14 +444,9 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             break;
         default:;
         }
-        switch (m_mediaType) {
-        case MediaType::Video:
-            if (!m_fps && defaultDuration) {
-                m_fps = static_cast<std::uint32_t>(1000000000.0 / static_cast<double>(defaultDuration));
-            }
-            break;
-        default:;
-        }
+    }
+    if (m_mediaType == MediaType::Video && !m_fps && defaultDuration) {
+        m_fps = static_cast<std::uint32_t>(1000000000.0 / static_cast<double>(defaultDuration));
     }
 
     // read further information from the CodecPrivate element for some codecs
-- 
2.43.0


From d7ecda279954797648b45b154a732346284a343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:15 +0000
Subject: [PATCH 153/176] fix: apply default values for audio information of
 Matroska tracks

---
 matroska/matroskatrack.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index ec8821b..5f44023 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -402,6 +402,13 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                 default:;
                 }
             }
+            // apply default values of elements which are not present
+            if (!m_channelCount) {
+                m_channelCount = 1;
+            }
+            if (!m_samplingFrequency) {
+                m_samplingFrequency = 8000;
+            }
             break;
         case MatroskaIds::TrackNumber:
             m_trackNumber = static_cast<std::uint32_t>(trackInfoElement->readUInteger());
-- 
2.43.0


From 46f251a18ddedee7671e054603d561e0b7e36596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 154/176] fix: avoid underflow of data size of EBML elements of
 unknown size

---
 matroska/ebmlelement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index b0a7e76..f815e9f 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -149,6 +149,12 @@ void EbmlElement::internalParse(Diagnostics &diag)
         if ((m_sizeUnknown = (beg == 0xFF))) {
             // this indicates that the element size is unknown
             // -> just assume the element takes the maximum available size
+            if (headerSize() > maxTotalSize()) { // header truncated
+                if (!skipped) {
+                    diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
+                }
+                continue; // try again
+            }
             m_dataSize = maxTotalSize() - headerSize();
         } else {
             while (m_sizeLength <= maximumSizeLengthSupported() && (beg & mask) == 0) {
-- 
2.43.0


From ebd6a86b65c4180b1afceac5defbc79384d64120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 155/176] fix: avoid integer overflow of the total size of
 ID3v2 frames

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 9b361dd..9ea332d 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -186,7 +186,7 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
         // -> read size, check whether frame is truncated
         m_dataSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        m_totalSize = m_dataSize + 10;
+        m_totalSize = m_dataSize <= std::numeric_limits<std::uint32_t>::max() - 10 ? m_dataSize + 10 : std::numeric_limits<std::uint32_t>::max();
         if (m_totalSize > maximalSize) {
             diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
             throw TruncatedDataException();
-- 
2.43.0


From d23ac3d95e97efd3c668980c41d4ebe5821b01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 156/176] fix: avoid conversion error escaping when parsing
 ID3v2 frames with surplus values

---
 id3/id3v2frame.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 9ea332d..abe8222 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -498,15 +498,19 @@ std::uint16_t Id3v2Frame::flagForVersion(std::uint32_t version) const
  */
 std::string Id3v2Frame::ignoreAdditionalValuesDiagMsg() const
 {
-    if (m_additionalValues.size() == 1) {
+    try {
+        if (m_additionalValues.size() != 1) {
+            return argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
+        }
         return argsToString("Additional value \"", m_additionalValues.front().toString(TagTextEncoding::Utf8), "\" is supposed to be ignored.");
     }
-    return argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
 }
 
 /*!
  * \brief Computes the size required to serialize the specified \a playCounter value.
  */
+    } catch (const ConversionException &) {
+        return argsToString(m_additionalValues.size(), " additional value(s) are supposed to be ignored.");
 static std::uint32_t computePlayCounterSize(std::uint64_t playCounter)
 {
     auto res = 4u;
-- 
2.43.0


From fe2c5a8061fce59b883127a0e0c92fbc91061f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 157/176] fix: avoid reading dates of MP4 files beyond the
 range of DateTime

---
 mp4/mp4container.cpp | 14 ++++++++++++--
 mp4/mp4container.h   |  1 +
 mp4/mp4track.cpp     |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index dbc6764..80dc524 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -44,6 +44,16 @@ TimeSpan Mp4Container::computeDuration(std::uint64_t duration, std::uint32_t tim
     return TimeSpan(static_cast<TimeSpan::TickType>(duration / timeScale * ticksPerSecond + duration % timeScale * ticksPerSecond / timeScale));
 }
 
+/*!
+ * \brief Returns the date for the specified number of seconds since the \ref epoch as used within the "mvhd" and "mdhd" atoms.
+ * \remarks Returns the \ref epoch if the date is beyond the range of DateTime.
+ */
+DateTime Mp4Container::computeDate(std::uint64_t secondsSinceEpoch)
+{
+    static const auto max = static_cast<std::uint64_t>((DateTime::fromDate(9999, 12, 31) - epoch).totalTicks() / TimeSpan::ticksPerSecond);
+    return secondsSinceEpoch <= max ? epoch + TimeSpan(static_cast<TimeSpan::TickType>(secondsSinceEpoch) * TimeSpan::ticksPerSecond) : epoch;
+}
+
 /*!
  * \brief Constructs a new container for the specified \a fileInfo at the specified \a startOffset.
  */
@@ -154,8 +164,8 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                             m_duration = computeDuration(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 1:
-                            m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
-                            m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
+                            m_creationTime = computeDate(reader().readUInt64BE());
+                            m_modificationTime = computeDate(reader().readUInt64BE());
                             m_timeScale = reader().readUInt32BE();
                             m_duration = computeDuration(reader().readUInt64BE(), m_timeScale);
                             break;
diff --git a/mp4/mp4container.h b/mp4/mp4container.h
index 859faf9..e20121e 100644
--- a/mp4/mp4container.h
+++ b/mp4/mp4container.h
@@ -28,6 +28,7 @@ public:
 
     static const CppUtilities::DateTime epoch;
     static CppUtilities::TimeSpan computeDuration(std::uint64_t duration, std::uint32_t timeScale);
+    static CppUtilities::DateTime computeDate(std::uint64_t secondsSinceEpoch);
 
 protected:
     void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) override;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 522a92f..e677b05 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1734,8 +1734,8 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         m_timeScale = 0;
         m_duration = TimeSpan();
     }
-    m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
-    m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
+    m_creationTime = Mp4Container::computeDate(m_rawMdhdCreationTime);
+    m_modificationTime = Mp4Container::computeDate(m_rawMdhdModificationTime);
     m_duration = Mp4Container::computeDuration(m_rawMdhdDuration, m_timeScale);
 
     std::uint16_t tmp = reader.readUInt16BE();
-- 
2.43.0


From 874ee5f3b5ba4ac2ce22516ffc1321a5929aeae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 158/176] fix: check the size of MP4 atoms with 64-bit size
 denotation

---
 mp4/mp4atom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 2e99a81..04e4a45 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -86,7 +86,7 @@ void Mp4Atom::internalParse(Diagnostics &diag)
     if (m_dataSize == 1) { // atom denotes 64-bit size
         m_dataSize = reader().readUInt64BE();
         m_sizeLength = 12; // 4 bytes indicate long size denotation + 8 bytes for actual size denotation
-        if (dataSize() < 16 && m_dataSize != 1) {
+        if (dataSize() < 16 || maxTotalSize() < 16) {
             diag.emplace_back(DiagLevel::Critical, "Atom denoting 64-bit size is smaller than 16 byte and hence invalid.", parsingContext());
             throw TruncatedDataException();
         }
-- 
2.43.0


From 68d83b7def38682e266fe656b127a4e5bc2881e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 159/176] fix: avoid excessive allocation when parsing stz2
 atom with invalid field size

---
 mp4/mp4track.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index e677b05..d1079e8 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -2038,7 +2038,9 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                 diag.emplace_back(DiagLevel::Critical, "The stsz atom is truncated. It stores less entries as denoted.", context);
                 actualSampleCount = static_cast<std::uint64_t>(floor(static_cast<double>(actualSampleSizeTableSize) / (0.125 * fieldSize)));
             }
-            m_sampleSizes.reserve(actualSampleCount);
+            if (fieldSize) {
+                m_sampleSizes.reserve(actualSampleCount);
+            }
             std::uint32_t i = 1;
             switch (fieldSize) {
             case 4:
-- 
2.43.0


From 66262d6769eba8b2e8fc74e1fd82b319c6ca13f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 160/176] fix: avoid excessive runtime and overflow when
 parsing trun atoms

---
 mp4/mp4track.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index d1079e8..a052803 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -307,7 +307,7 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
                             }
                             for (Mp4Atom *trunAtom = trafAtom->childById(Mp4AtomIds::TrackFragmentRun, diag); trunAtom;
                                 trunAtom = trunAtom->siblingById(Mp4AtomIds::TrackFragmentRun, diag)) {
-                                std::uint32_t trunCalculatedDataSize = 8;
+                                std::uint64_t trunCalculatedDataSize = 8;
                                 if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                     diag.emplace_back(DiagLevel::Critical, "trun atom is truncated.", context);
                                 } else {
@@ -334,7 +334,7 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
                                     if (trunFlags & 0x000800) { // sample-composition-time-offsets present
                                         entrySize += 4;
                                     }
-                                    trunCalculatedDataSize += entrySize * sampleCount;
+                                    trunCalculatedDataSize += static_cast<std::uint64_t>(entrySize) * sampleCount;
                                     if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                         diag.emplace_back(DiagLevel::Critical, "trun atom is truncated (presence of fields denoted).", context);
                                     } else {
@@ -345,6 +345,10 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
                                         if (trunFlags & 0x000004) { // first-sample-flags present
                                             inputStream().seekg(4, ios_base::cur);
                                         }
+                                        if (!entrySize) { // only default values are used; there are no entries to be read
+                                            m_size += static_cast<std::uint64_t>(defaultSampleSize) * sampleCount;
+                                            sampleCount = 0;
+                                        }
                                         for (std::uint32_t i = 0; i < sampleCount; ++i) {
                                             if (trunFlags & 0x000100) { // sample-duration present
                                                 //totalDuration += reader().readUInt32BE();
@@ -2142,7 +2146,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         }
                         for (Mp4Atom *trunAtom = trafAtom->childById(TrackFragmentRun, diag); trunAtom;
                             trunAtom = trunAtom->siblingById(TrackFragmentRun, diag)) {
-                            std::uint32_t trunCalculatedDataSize = 8;
+                            std::uint64_t trunCalculatedDataSize = 8;
                             if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                 diag.emplace_back(DiagLevel::Critical, "trun atom is truncated.", context);
                             } else {
@@ -2169,7 +2173,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                 if (trunFlags & 0x000800) { // sample-composition-time-offsets present
                                     entrySize += 4;
                                 }
-                                trunCalculatedDataSize += entrySize * sampleCount;
+                                trunCalculatedDataSize += static_cast<std::uint64_t>(entrySize) * sampleCount;
                                 if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                     diag.emplace_back(DiagLevel::Critical, "trun atom is truncated (presence of fields denoted).", context);
                                 } else {
@@ -2180,6 +2184,11 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     if (trunFlags & 0x000004) { // first-sample-flags present
                                         m_istream->seekg(4, ios_base::cur);
                                     }
+                                    if (!entrySize) { // only default values are used; there are no entries to be read
+                                        totalDuration += static_cast<std::uint64_t>(defaultSampleDuration) * sampleCount;
+                                        m_size += static_cast<std::uint64_t>(defaultSampleSize) * sampleCount;
+                                        sampleCount = 0;
+                                    }
                                     for (std::uint32_t i = 0; i < sampleCount; ++i) {
                                         if (trunFlags & 0x000100) { // sample-duration present
                                             totalDuration += reader.readUInt32BE();
-- 
2.43.0


From 36af732c6405917235052fb17a3801140dd4354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 161/176] fix: avoid out-of-bounds access when incrementing
 invalid Ogg iterator

---
 ogg/oggiterator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 99f3445..744d6db 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -80,6 +80,9 @@ void OggIterator::nextPage()
  */
 void OggIterator::nextSegment()
 {
+    if (m_page >= m_pages.size()) {
+        return; // already at the end, e.g. because the packet which has just been read is truncated
+    }
     const OggPage &page = m_pages[m_page];
     if (matchesFilter(page) && ++m_segment < page.segmentSizes().size()) {
         // current page has next segment
-- 
2.43.0


From 439481555017b5521b171565d1521d2b380a7292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 162/176] fix: avoid undefined conversion of rates of Matroska
 tracks

---
 matroska/matroskatrack.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 5f44023..68710d8 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -18,6 +18,8 @@
 
 #include <c++utilities/conversion/stringconversion.h>
 
+#include <limits>
+
 using namespace std;
 using namespace CppUtilities;
 
@@ -28,6 +30,15 @@ namespace TagParser {
  * \brief Implementation of TagParser::AbstractTrack for the Matroska container.
  */
 
+/*!
+ * \brief Returns the frame rate or sampling frequency stored within the specified \a element or zero if it is out of range.
+ */
+static std::uint32_t readRate(EbmlElement &element)
+{
+    const auto rate = element.readFloat();
+    return rate > 0.0 && rate <= static_cast<double>(std::numeric_limits<std::uint32_t>::max()) ? static_cast<std::uint32_t>(rate) : 0u;
+}
+
 /*!
  * \brief Constructs a new track for the specified \a trackElement.
  *
@@ -362,7 +373,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     m_cropping.setRight(static_cast<std::uint32_t>(subElement->readUInteger()));
                     break;
                 case MatroskaIds::FrameRate:
-                    m_fps = static_cast<std::uint32_t>(subElement->readFloat());
+                    m_fps = readRate(*subElement);
                     break;
                 case MatroskaIds::FlagInterlaced:
                     modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger() == 1); // 2 denotes progressive
@@ -391,12 +402,12 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     break;
                 case MatroskaIds::SamplingFrequency:
                     if (!m_samplingFrequency) {
-                        m_samplingFrequency = static_cast<std::uint32_t>(subElement->readFloat());
+                        m_samplingFrequency = readRate(*subElement);
                     }
                     break;
                 case MatroskaIds::OutputSamplingFrequency:
                     if (!m_extensionSamplingFrequency) {
-                        m_extensionSamplingFrequency = static_cast<std::uint32_t>(subElement->readFloat());
+                        m_extensionSamplingFrequency = readRate(*subElement);
                     }
                     break;
                 default:;
-- 
2.43.0


From 7eca46a3fce78f73f3ff57fdd10cac8ac4b1996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 163/176] fix: limit number of bytes per second of RIFF/WAVE
 streams to its range

---
 wav/waveaudiostream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 9454921..37734e6 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -7,6 +7,8 @@
 
 #include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/binaryreader.h>
+#include <algorithm>
+#include <limits>
 
 using namespace std;
 using namespace CppUtilities;
@@ -198,7 +200,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     } else {
         m_bitrate = frame.bitrate();
     }
-    m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
+    m_bytesPerSecond = static_cast<std::uint32_t>(std::min<double>(m_bitrate * 125, std::numeric_limits<std::uint32_t>::max()));
     if (m_bitrate > 0.0) {
         m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
     }
-- 
2.43.0


From 55d21c3bd10015b8d90953844a9203593de928dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 164/176] fix: avoid undefined conversion of durations beyond
 the range of TimeSpan

---
 abstracttrack.h                    | 11 +++++++++++
 flac/flacstream.cpp                |  4 +++-
 id3/id3v2frame.cpp                 | 13 ++++++++++---
 ivf/ivfstream.cpp                  |  2 +-
 matroska/matroskacontainer.cpp     |  5 ++++-
 mp4/mp4track.cpp                   |  2 +-
 mpegaudio/mpegaudioframestream.cpp |  4 ++--
 ogg/oggstream.cpp                  |  4 ++--
 wav/waveaudiostream.cpp            |  4 ++--
 9 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/abstracttrack.h b/abstracttrack.h
index f3bae43..602fbd0 100644
--- a/abstracttrack.h
+++ b/abstracttrack.h
@@ -107,6 +107,17 @@ namespace TagParser {
 
 struct AbstractTrackPrivate;
 
+/*!
+ * \brief Returns the duration for the specified number of \a seconds.
+ * \remarks Returns an empty duration if the number of seconds is not within the range of TimeSpan as it happens if
+ *          it is computed from values of a damaged file.
+ */
+inline CppUtilities::TimeSpan durationFromSeconds(double seconds)
+{
+    constexpr auto max = 9.0e11;
+    return seconds > -max && seconds < max ? CppUtilities::TimeSpan::fromSeconds(seconds) : CppUtilities::TimeSpan();
+}
+
 class TAG_PARSER_EXPORT AbstractTrack {
     friend class MpegAudioFrameStream;
     friend class WaveAudioStream;
diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index bbbeffa..95cd9b2 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -103,7 +103,9 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 m_samplingFrequency = streamInfo.samplingFrequency();
                 m_sampleCount = streamInfo.totalSampleCount();
                 m_bitsPerSample = streamInfo.bitsPerSample();
-                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+                if (m_samplingFrequency) {
+                    m_duration = durationFromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+                }
             } else {
                 diag.emplace_back(DiagLevel::Critical, "\"METADATA_BLOCK_STREAMINFO\" is truncated and will be ignored.", context);
             }
diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index abe8222..80cda96 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -31,6 +31,9 @@ enum Id3v2TextEncodingByte : std::uint8_t { Ascii, Utf16WithBom, Utf16BigEndianW
 /// \brief The maximum (supported) size of an ID3v2Frame.
 constexpr auto maxId3v2FrameDataSize(numeric_limits<std::uint32_t>::max() - 15);
 
+/// \brief The maximum (absolute) value of a length frame so it is within the range of TimeSpan.
+constexpr auto maxLengthInMilliseconds = 9.0e14;
+
 /*!
  * \class TagParser::Id3v2Frame
  * \brief The Id3v2Frame class is used by Id3v2Tag to store the fields.
@@ -340,7 +343,11 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
                             return stringFromSubstring(substr);
                         }
                     }();
-                    value->assignTimeSpan(TimeSpan::fromMilliseconds(stringToNumber<double>(milliseconds)));
+                    const auto numberOfMilliseconds = stringToNumber<double>(milliseconds);
+                    if (!(numberOfMilliseconds > -maxLengthInMilliseconds && numberOfMilliseconds < maxLengthInMilliseconds)) {
+                        throw ConversionException("length is out of range");
+                    }
+                    value->assignTimeSpan(TimeSpan::fromMilliseconds(numberOfMilliseconds));
                 } catch (const ConversionException &) {
                     diag.emplace_back(DiagLevel::Warning, "The value of the length frame is not numeric and will be ignored.", context);
                 }
@@ -503,14 +510,14 @@ std::string Id3v2Frame::ignoreAdditionalValuesDiagMsg() const
             return argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
         }
         return argsToString("Additional value \"", m_additionalValues.front().toString(TagTextEncoding::Utf8), "\" is supposed to be ignored.");
+    } catch (const ConversionException &) {
+        return argsToString(m_additionalValues.size(), " additional value(s) are supposed to be ignored.");
     }
 }
 
 /*!
  * \brief Computes the size required to serialize the specified \a playCounter value.
  */
-    } catch (const ConversionException &) {
-        return argsToString(m_additionalValues.size(), " additional value(s) are supposed to be ignored.");
 static std::uint32_t computePlayCounterSize(std::uint64_t playCounter)
 {
     auto res = 4u;
diff --git a/ivf/ivfstream.cpp b/ivf/ivfstream.cpp
index f106f65..668029d 100644
--- a/ivf/ivfstream.cpp
+++ b/ivf/ivfstream.cpp
@@ -56,7 +56,7 @@ void IvfStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         m_fps = frameRate / m_timeScale;
     }
     if (frameRate) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) * m_timeScale / frameRate);
+        m_duration = durationFromSeconds(static_cast<double>(m_sampleCount) * m_timeScale / frameRate);
     }
 
     // skip unused bytes
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 4d76756..c05f7e8 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -645,7 +645,10 @@ void MatroskaContainer::parseSegmentInfo(Diagnostics &diag)
             m_titles.emplace_back();
         }
         if (rawDuration > 0.0) {
-            m_duration += TimeSpan::fromSeconds(rawDuration * static_cast<double>(timeScale) / 1000000000.0);
+            const auto duration = durationFromSeconds(rawDuration * static_cast<double>(timeScale) / 1000000000.0);
+            if (duration <= TimeSpan::infinity() - m_duration) {
+                m_duration += duration;
+            }
         }
     }
 }
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index a052803..060abf8 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -2227,7 +2227,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
             timeScale = trakAtom().container().timeScale();
         }
         if (timeScale) {
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(totalDuration) / static_cast<double>(timeScale));
+            m_duration = durationFromSeconds(static_cast<double>(totalDuration) / static_cast<double>(timeScale));
         }
     }
 
diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index f471d81..d2f123e 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -81,9 +81,9 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
     if (frame.isXingFramefieldPresent() && frame.xingFrameCount() && frame.samplingFrequency()) {
         const auto duration = static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
         m_bitrate = static_cast<double>(m_size) / duration / 125.0;
-        m_duration = TimeSpan::fromSeconds(duration);
+        m_duration = durationFromSeconds(duration);
     } else if ((m_bitrate = frame.bitrate()) > 0.0) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125)));
+        m_duration = durationFromSeconds(static_cast<double>(m_size) / (m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125)));
     }
 }
 
diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index c111b7f..8e59b5b 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -284,7 +284,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     // estimate duration from size and bitrate if sample count and sample rate could not be determined
     if (m_duration.isNull() && m_size && m_bitrate != 0.0) {
         // calculate duration from stream size and bitrate, assuming 1 % overhead
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0) * 1.1);
+        m_duration = durationFromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0) * 1.1);
     }
 }
 
@@ -312,7 +312,7 @@ void OggStream::calculateDurationViaSampleCount(std::uint32_t sampleRate, std::u
 
     // actually calculate the duration
     if (m_sampleCount && sampleRate) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / sampleRate);
+        m_duration = durationFromSeconds(static_cast<double>(m_sampleCount) / sampleRate);
     }
 }
 
diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 37734e6..d2edbfd 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -178,7 +178,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
                 m_sampleCount = m_size / m_chunkSize;
             }
             if (m_samplingFrequency) {
-                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+                m_duration = durationFromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
             }
             break;
         default:;
@@ -202,7 +202,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     }
     m_bytesPerSecond = static_cast<std::uint32_t>(std::min<double>(m_bitrate * 125, std::numeric_limits<std::uint32_t>::max()));
     if (m_bitrate > 0.0) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
+        m_duration = durationFromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
     }
 }
 
-- 
2.43.0


From 79d19d5ad9a5389b081f31d315764f57a95a089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:55 +0000
Subject: [PATCH 165/176] fix: avoid undefined conversion when making
 popularity frames

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 80cda96..21b2880 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -800,7 +800,7 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
             m_data = make_unique<char[]>(m_decompressedSize);
             auto pos = popularity.user.size() + 1;
             std::memcpy(m_data.get(), popularity.user.data(), pos);
-            m_data[pos] = static_cast<char>(popularity.rating);
+            m_data[pos] = static_cast<char>(static_cast<std::uint8_t>(popularity.rating));
             writePlayCounter(m_data.get() + pos + playCounterSize, playCounterSize, popularity.playCounter);
 
         } else {
-- 
2.43.0


From 37f348d16dddfdb0f5a7c456b0b600d11d677048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:55 +0000
Subject: [PATCH 166/176] fix: only preserve elements of Matroska tracks which
 can be parsed

---
 matroska/matroskatrack.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 68710d8..ab72e66 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -593,8 +593,6 @@ MatroskaTrackHeaderMaker::MatroskaTrackHeaderMaker(const MatroskaTrack &track, D
     , m_languageIETF(languageIETF(m_track.locale()))
     , m_dataSize(0)
 {
-    CPP_UTILITIES_UNUSED(diag);
-
     // calculate size for recognized elements
     m_dataSize += 2u + 1u + EbmlElement::calculateUIntegerLength(m_track.id());
     m_dataSize += 1u + 1u + EbmlElement::calculateUIntegerLength(m_track.trackNumber());
@@ -615,6 +613,7 @@ MatroskaTrackHeaderMaker::MatroskaTrackHeaderMaker(const MatroskaTrack &track, D
 
     // calculate size for other elements
     for (EbmlElement *trackInfoElement = m_track.m_trackElement->firstChild(); trackInfoElement; trackInfoElement = trackInfoElement->nextSibling()) {
+        trackInfoElement->parse(diag); // only elements which can be parsed can be preserved
         switch (trackInfoElement->id()) {
         case MatroskaIds::TrackNumber:
         case MatroskaIds::TrackUID:
-- 
2.43.0


From a9bc4d422b1be05684347ccc2f299669205bd3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:55 +0000
Subject: [PATCH 167/176] fix: avoid out-of-bounds access when making track
 with empty tkhd atom

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 060abf8..5374a40 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -444,7 +444,7 @@ const TrackHeaderInfo &Mp4Track::verifyPresentTrackHeader() const
     }
 
     // check the version of the existing tkhd atom to determine where additional data starts
-    switch (info.version = static_cast<std::uint8_t>(m_tkhdAtom->buffer()[m_tkhdAtom->headerSize()])) {
+    switch (info.version = m_tkhdAtom->dataSize() ? static_cast<std::uint8_t>(m_tkhdAtom->buffer()[m_tkhdAtom->headerSize()]) : 0) {
     case 0:
         info.additionalDataOffset = 32;
         break;
-- 
2.43.0


From 08b6e58997704a50f97c3d2ad19b53319c415521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:55 +0000
Subject: [PATCH 168/176] fix: warn about nested MP4 atoms which do not denote
 their size

---
 mp4/mp4atom.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 04e4a45..f7882bf 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -72,6 +72,9 @@ void Mp4Atom::internalParse(Diagnostics &diag)
     if (m_dataSize == 0) {
         // atom size extends to rest of the file/enclosing container
         m_dataSize = maxTotalSize();
+        if (parent()) {
+            diag.emplace_back(DiagLevel::Warning, "Atom within another atom does not denote its size; assuming it takes the remaining space.", context);
+        }
     }
     if (!m_dataSize) {
         diag.emplace_back(DiagLevel::Critical, "No data found (only null bytes).", context);
-- 
2.43.0


From cee72f9ac7e0fd02801da72d6b0c2003788fb2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:06 +0000
Subject: [PATCH 169/176] fix: only go back to previous Ogg pages which have
 segments

The iterator ended up on the first page when there is no previous page
matching the filter, underflowed the segment index on pages without
segments and kept the number of bytes read from the previous segment.
---
 ogg/oggiterator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 744d6db..90b475b 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -100,13 +100,17 @@ void OggIterator::nextSegment()
  */
 void OggIterator::previousPage()
 {
-    while (m_page) {
-        const OggPage &page = m_pages[--m_page];
-        if (matchesFilter(page)) {
+    for (auto pageIndex = m_page; pageIndex;) {
+        const OggPage &page = m_pages[--pageIndex];
+        if (!page.segmentSizes().empty() && matchesFilter(page)) {
+            // page is not empty and matches ID filter if set
+            m_page = pageIndex;
             m_offset = page.dataOffset(m_segment = page.segmentSizes().size() - 1);
+            m_bytesRead = 0;
             return;
         }
     }
+    // no previous page available -> leave current position unchanged
 }
 
 /*!
-- 
2.43.0


From 22b9fe73abb09662e450edf05d30045252cf73ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:06 +0000
Subject: [PATCH 170/176] fix: use size of previous segment when going back in
 Ogg stream

---
 ogg/oggiterator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 90b475b..62f0d14 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -121,7 +121,8 @@ void OggIterator::previousSegment()
 {
     const OggPage &page = m_pages[m_page];
     if (m_segment && matchesFilter(page)) {
-        m_offset -= page.segmentSizes()[m_segment--];
+        m_offset -= page.segmentSizes()[--m_segment];
+        m_bytesRead = 0;
     } else {
         previousPage();
     }
-- 
2.43.0


From a704039499c3655fad01b4b735dfb0ca9202501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:36 +0000
Subject: [PATCH 171/176] fix: read tracks of Matroska chapters from the
 correct element

---
 matroska/matroskachapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskachapter.cpp b/matroska/matroskachapter.cpp
index d695f7a..8786d63 100644
--- a/matroska/matroskachapter.cpp
+++ b/matroska/matroskachapter.cpp
@@ -76,7 +76,7 @@ void MatroskaChapter::internalParse(Diagnostics &diag, AbortableProgressFeedback
                 chapterTrackElement = chapterTrackElement->nextSibling()) {
                 chapterTrackElement->parse(diag);
                 switch (chapterTrackElement->id()) {
-                case MatroskaIds::ChapterTrack:
+                case MatroskaIds::ChapterTrackNumber:
                     m_tracks.emplace_back(chapterTrackElement->readUInteger());
                     break;
                 default:
-- 
2.43.0


From 085246abc911793a170a2880759f548f9862b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 172/176] fix: return locale of the preferred format regardless
 of the order of details

---
 localehelper.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/localehelper.cpp b/localehelper.cpp
index 45f034c..f532cdb 100644
--- a/localehelper.cpp
+++ b/localehelper.cpp
@@ -87,11 +87,13 @@ const LocaleDetail &Locale::someAbbreviatedName(LocaleFormat preferredFormat) co
     auto format = LocaleFormat::Unknown;
     const LocaleDetail *mostRelevantDetail = nullptr;
     for (const auto &detail : *this) {
-        if (!detail.empty()
-            && static_cast<std::underlying_type_t<LocaleFormat>>(detail.format) >= static_cast<std::underlying_type_t<LocaleFormat>>(format)) {
-            if (detail.format == preferredFormat) {
-                return detail;
-            }
+        if (detail.empty()) {
+            continue;
+        }
+        if (detail.format == preferredFormat) {
+            return detail;
+        }
+        if (static_cast<std::underlying_type_t<LocaleFormat>>(detail.format) >= static_cast<std::underlying_type_t<LocaleFormat>>(format)) {
             format = detail.format;
             mostRelevantDetail = &detail;
         }
-- 
2.43.0


From db60abb2cfd37981354d8bc82baa84a6bf540b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:06 +0000
Subject: [PATCH 173/176] fix: read back user and play counter of Vorbis
 comment ratings

---
 vorbis/vorbiscommentfield.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index c196f75..330e393 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -119,7 +119,9 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
                 if (isSameId(id(), VorbisCommentIds::rating())) {
                     try {
                         // set rating as Popularity to preserve the scale information
-                        value().assignPopularity(Popularity{ .rating = stringToNumber<double>(str), .scale = TagType::VorbisComment });
+                        value().assignPopularity(str.find('|') == std::string_view::npos
+                                ? Popularity{ .rating = stringToNumber<double>(str), .scale = TagType::VorbisComment }
+                                : Popularity::fromString(str, TagType::VorbisComment));
                     } catch (const ConversionException &) {
                         // fallback to text
                         value().assignText(str, TagTextEncoding::Utf8);
-- 
2.43.0


From 16c3a340563299d65895f2bb70694afff81ad05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:06 +0000
Subject: [PATCH 174/176] fix: read back user and play counter of Matroska
 ratings

---
 matroska/matroskatagfield.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 2261c23..6f8cfb7 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -147,7 +147,10 @@ void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag,
     // set rating as Popularity to preserve the scale information
     if (id() == MatroskaTagIds::rating() && !value().isEmpty()) {
         try {
-            value().assignPopularity(Popularity{ .rating = stringToNumber<double>(value().toString()), .scale = TagType::MatroskaTag });
+            const auto str = value().toString();
+            value().assignPopularity(str.find('|') == std::string::npos
+                    ? Popularity{ .rating = stringToNumber<double>(str), .scale = TagType::MatroskaTag }
+                    : Popularity::fromString(str, TagType::MatroskaTag));
         } catch (const ConversionException &) {
             diag.emplace_back(DiagLevel::Warning, argsToString("The rating is not a number."), context);
         }
-- 
2.43.0


From fe939278b7808aac006d64bfd330a50cd1ca8799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:06 +0000
Subject: [PATCH 175/176] fix: write lowest rating to Matroska tags

---
 matroska/matroskatagfield.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 6f8cfb7..be71fa1 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -226,7 +226,8 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
 {
     try {
         if (m_field.value().type() == TagDataType::Popularity) {
-            m_stringValue = m_field.value().toScaledPopularity(TagType::MatroskaTag).toString();
+            const auto popularity = m_field.value().toScaledPopularity(TagType::MatroskaTag);
+            m_stringValue = popularity.isEmpty() ? "0" : popularity.toString(); // zero denotes the lowest rating here
         } else {
             m_stringValue = m_field.value().toString(TagTextEncoding::Utf8);
         }
-- 
2.43.0


From d7ac630967d53eb00567c11c90c79d692b28f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:15 +0000
Subject: [PATCH 176/176] fix: don't start the list of a single value with
 "and" in diag messages

---
 diagnostics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diagnostics.cpp b/diagnostics.cpp
index 39e3336..f2d8e4c 100644
--- a/diagnostics.cpp
+++ b/diagnostics.cpp
@@ -75,7 +75,7 @@ string DiagMessage::formatList(const std::vector<string> &values)
     std::string res;
     res.reserve(size);
     for (auto value = values.cbegin(), end = values.cend(), last = values.cend() - 1; value != end; ++value) {
-        if (value == last) {
+        if (value == last && !res.empty()) {
             res += " and ";
         } else if (!res.empty()) {
             res += ", ";
-- 
2.43.0

