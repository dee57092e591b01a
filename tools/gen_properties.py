#!/usr/bin/env python3
"""Single source for properties.jsonl (kept as a script so wording and anchors stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("P01", "ID3v2 tags survive being written and read back",
 "For every ID3v2 version that can be written (2.2, 2.3, 2.4), a tag holding any combination of supported fields, text encodings, multiple values, comments, lyrics, pictures and unknown frames is read back with the same values, descriptions, languages and MIME types, except for what the version cannot represent (which is converted or dropped with a message, not silently altered). The bytes written form a well-formed tag: sizes declared in the header and in every frame match the data, and exactly the requested padding follows. What is read from a tag made by another conforming writer (frame order, encodings, data length indicators, compressed frames) equals what that writer encoded.",
 ["inputs", "configurations"], "all versions x fields x encodings x value counts x lengths up to the bound, plus unknown frames and padding sizes",
 "The repository's ID3v2 tests need sample MP3 files that are absent; nothing in the stable suite serialises an ID3v2 frame at all.",
 ["id3/id3v2tag.cpp", "id3/id3v2frame.cpp", "id3/id3v2frameids.cpp"],
 [("frame serialisation", "Id3v2FrameMaker"), ("frame parsing", "Id3v2Frame::parse"), ("tag header/padding", "Id3v2TagMaker::make, Id3v2Tag::parse"), ("date conversion between versions", "Id3v2Tag::prepareRecordDataForMakingId3v23Tag, convertOldRecordDateFields")],
 ["Id3v2Tag::make output bytes", "fields of a tag parsed from those bytes"])

prop("P02", "ID3v1 tags have the exact 128-byte layout and round-trip",
 "Writing an ID3v1 tag always yields exactly 128 bytes in the standard layout (text clipped to its field width and zero-filled, track number and genre in their bytes), warning when a value cannot be represented. Reading those bytes back yields the clipped values, and reading any 128-byte block starting with TAG gives the values the standard layout defines.",
 ["inputs"], "all text lengths around every field width, all 256 track and genre bytes, all encodings",
 "No stable test writes an ID3v1 tag; boundary lengths and byte values need exhaustive enumeration.",
 ["id3/id3v1tag.cpp", "id3/id3genres.cpp"],
 [("writing", "Id3v1Tag::make"), ("reading", "Id3v1Tag::parse"), ("text clipping", "Id3v1Tag::prepareField/readValue")])

prop("P03", "Vorbis comments and FLAC pictures survive writing and re-reading",
 "A Vorbis comment holding any fields (any field names, any UTF-8 values, multiple values per field, multiple pictures with type, MIME type and description) is read back with the same vendor, field names, values, value order and pictures. The bytes written are a well-formed comment block in which all declared lengths and counts match, with or without signature and framing byte as requested.",
 ["inputs", "configurations"], "all field/value/picture combinations up to the bound and all flag combinations",
 "The stable tests only touch in-memory field handling of Vorbis comments; serialisation needs absent media files.",
 ["vorbis/vorbiscomment.cpp", "vorbis/vorbiscommentfield.cpp", "flac/flacmetadata.cpp"],
 [("serialisation", "VorbisComment::make, VorbisCommentField::make"), ("parsing", "VorbisComment::parse, VorbisCommentField::internalParse"), ("pictures", "FlacMetaDataBlockPicture")])

prop("P04", "MP4/iTunes tags survive being written and read back",
 "An MP4 tag holding any combination of supported fields (text, track/disk positions, genre as index or text, numbers, covers, extended name/mean fields, multiple values) is read back with the same values and types. The bytes written form a well-formed ilst/meta structure in which every size matches its content, and what other conforming writers encode (UTF-8/UTF-16 text, integers of all widths, several data atoms) is read as encoded.",
 ["inputs", "configurations"], "all fields x value types x counts x boundary lengths up to the bound",
 "Stable tests contain no MP4 file and never make or parse an MP4 tag.",
 ["mp4/mp4tag.cpp", "mp4/mp4tagfield.cpp"],
 [("serialisation", "Mp4TagMaker, Mp4TagFieldMaker"), ("parsing", "Mp4Tag::parse, Mp4TagField::reparse")])

prop("P05", "Matroska tags survive being written and read back",
 "A Matroska tag holding any combination of simple tags (arbitrary names, UTF-8 or binary values, language, default flag, nested simple tags, several values per name) and any target (level, level name, track/edition/chapter/attachment UIDs) is read back with the same values and the same target. Every element written declares exactly the size of its content.",
 ["inputs", "configurations"], "all field/target/nesting combinations up to the bound with lengths crossing the EBML size-denotation steps",
 "Stable tests never make or parse a Matroska tag (sample files absent).",
 ["matroska/matroskatag.cpp", "matroska/matroskatagfield.cpp", "matroska/matroskatagid.cpp", "tagtarget.cpp"],
 [("serialisation", "MatroskaTagMaker, MatroskaTagFieldMaker"), ("parsing", "MatroskaTag::parse, MatroskaTag::parseTargets, MatroskaTagField::reparse")])

prop("P06", "Saving a file with ID3 tags leaves the audio data untouched",
 "After saving an MP3/ADTS-like file, whatever tags it had before (none, ID3v1, one or more ID3v2) and whatever tags and padding were requested, the bytes between the tags are identical to before, an ID3v2 tag is at the beginning and an ID3v1 tag in the last 128 bytes exactly when requested, and no remains of removed tags are left. Re-reading the saved file yields exactly the tags that were requested.",
 ["configurations", "histories"], "all combinations of existing tags, requested tags, tag sizes, padding limits and force-rewrite, and chains of two saves",
 "The stable suite never applies changes to an audio file.",
 ["mediafileinfo.cpp", "id3/id3v1tag.cpp", "id3/id3v2tag.cpp"],
 [("save", "MediaFileInfo::makeMp3File"), ("tag discovery", "MediaFileInfo::parseContainerFormat/parseTags")])

prop("P07", "Saving a FLAC file preserves audio frames and all other metadata blocks",
 "After saving a raw FLAC file with any arrangement of metadata blocks (stream info, application, seek table, cue sheet, unknown blocks, several pictures, padding, leading ID3v2 tag), the audio frames are byte-identical, every metadata block other than comment, pictures and padding is kept byte-identical and in order, and exactly one block carries the last-block flag. The requested comment and pictures are what is read back.",
 ["configurations", "histories"], "all block arrangements up to the bound x tag edits x padding settings",
 "No FLAC file is parsed or written by the stable tests.",
 ["flac/flacstream.cpp", "flac/flacmetadata.cpp", "mediafileinfo.cpp"],
 [("header rewriting", "FlacStream::makeHeader"), ("parsing", "FlacStream::internalParseHeader"), ("save", "MediaFileInfo::makeMp3File")])

prop("P08", "Saving an MP4 file keeps media data reachable and other atoms intact",
 "After saving an MP4 file with any supported layout (moov before or after media data, one or several media data atoms, 32/64-bit chunk offsets, fragments with any combination of base-data-offset flags, sidx, padding atoms, unknown atoms), every chunk offset of every track, absolute base data offset and trun data offset leads to the same media bytes as before, and media data and atoms not affected by the edit are byte-identical. Atom sizes nest consistently.",
 ["configurations", "histories"], "all file layouts in the grid x tag edits x tag/index position, padding and force settings, and chains of saves",
 "No MP4 file is written by the stable tests; layouts with offset tables need construction and exhaustive combination.",
 ["mp4/mp4container.cpp", "mp4/mp4track.cpp", "mp4/mp4atom.cpp"],
 [("layout decision and writing", "Mp4Container::internalMakeFile"), ("offset fix-up", "Mp4Container::updateOffsets, Mp4Track::updateChunkOffsets")])

prop("P09", "Saving a Matroska file keeps clusters reachable and element structure valid",
 "After saving a Matroska file with any supported layout (cues before or after clusters, seek heads, void elements, one or several segments, unknown sizes), cluster payloads are byte-identical and in order, every cue still points at the cluster holding its time, every seek entry points at an element of the stated type, cluster positions and previous sizes are right, and declared element sizes and checksums match the content. Chapters, attachments and tracks not edited are preserved.",
 ["configurations", "histories"], "all layouts in the grid x tag/attachment edits x position, padding and force settings, and chains of saves",
 "No Matroska file is parsed or written by the stable tests.",
 ["matroska/matroskacontainer.cpp", "matroska/matroskacues.cpp", "matroska/matroskaseekinfo.cpp", "matroska/ebmlelement.cpp"],
 [("layout decision and writing", "MatroskaContainer::internalMakeFile"), ("cue updates", "MatroskaCuePositionUpdater"), ("seek head", "MatroskaSeekInfo")])

prop("P10", "Saving an Ogg file keeps every logical stream's packets intact",
 "After saving an Ogg file (Vorbis, Opus or FLAC-in-Ogg, one or several multiplexed streams, comment packets spanning any number of pages, any segment sizes), every packet except the edited comment packet is byte-identical and in order, granule positions and stream flags are kept, page sequence numbers of each stream are consecutive and every page checksum is valid. The comment read back is the one requested.",
 ["configurations", "histories"], "all page/segment arrangements around the 255-byte and page-size boundaries x comment sizes before and after",
 "No Ogg file is parsed or written by the stable tests.",
 ["ogg/oggcontainer.cpp", "ogg/oggiterator.cpp", "ogg/oggpage.cpp", "ogg/oggstream.cpp"],
 [("page rewriting", "OggContainer::internalMakeFile"), ("checksums", "OggPage::computeChecksum/updateChecksum"), ("packet reading", "OggIterator")])

prop("P11", "Layout preferences (padding, tag and index position) are honoured",
 "When saving an MP4, Matroska, FLAC or ID3v2-tagged file, the padding left in the file lies within the configured minimum and maximum, a rewrite that was not needed by these limits is not done when tags fit, and the preferred padding is used after a rewrite. A requested tag or index position is respected (always when forced, or else when the file is rewritten), and the in-place result is equivalent to the rewritten one.",
 ["configurations"], "full product of tag growth/shrink, padding minimum/maximum/preferred, positions and force flags over the layout grid",
 "Settings only matter in combination with file layout and edit size; the stable tests never save a file.",
 ["mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "flac/flacstream.cpp"],
 [("padding decision", "Mp4Container/MatroskaContainer::internalMakeFile, MediaFileInfo::makeMp3File")])

prop("P12", "Saving is idempotent and edits are independent of history",
 "Saving a parsed file again without changing anything leaves tags, tracks, chapters, attachments and media as they were, any number of times, and the second save yields a file of the same size and content as the first. A file reached by any sequence of edits and saves is equivalent to the one obtained by applying the final edit directly to the original.",
 ["histories"], "all edit/save histories up to the depth bound for every container format",
 "History-dependent corruption only appears after several saves of particular shapes; the stable tests do not save at all.",
 ["mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "ogg/oggcontainer.cpp", "flac/flacstream.cpp"],
 [("save", "MediaFileInfo::applyChanges")])

prop("P13", "An I/O failure while saving never loses the original file",
 "If any single read, write, seek, truncate, open, rename or close fails while changes are being saved, the save reports the failure (never success), and the original content is still available: when the file is rewritten either the file itself is unchanged or restored, or a complete backup remains and the report (exception message or diagnostic messages) names it; when saving under another path the original file is untouched; when the file is updated in place (which is done without backup by design) at least the media data (audio frames, mdat boxes, clusters) is untouched. The same holds if a second call fails later on, if all further calls fail (device gone or disk full) and if transfers are only partial. No fault makes the process crash or hang, also not when the objects are destroyed afterwards.",
 ["fault_sequences", "crash_points"], "every I/O call of a save x error kinds (error, short write, out of space) x container formats x in-place/rewrite/save-as",
 "Tests never inject I/O faults; each of the hundreds of I/O calls of a save is a separate failure point.",
 ["backuphelper.cpp", "mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "ogg/oggcontainer.cpp"],
 [("backup and restore", "BackupHelper::createBackupFileCanonical, handleFailureAfterFileModifiedCanonical, restoreOriginalFileFromBackupFileCanonical")])

prop("P14", "Aborting a save at any moment restores the original file",
 "Requesting an abort at any progress callback while saving makes the operation stop with the abort reported, and no half-written result is reported as success. When the file is rewritten it has its original content again and no backup is left behind; when saving under another path the original is untouched; when updating in place (which is done without backup by design) at least the media data is untouched. Saving can be tried again with the same object and gives the same file as if nothing had happened. If an I/O call fails as well after the abort, the original content is still available (restored or as a backup which is named). If no abort is requested, progress percentages stay within range and saving is unaffected by observing progress.",
 ["crash_points", "schedules"], "every progress callback (step and percentage) of a save, for every container format and in-place/rewrite/save-as mode",
 "Abort points exist only inside multi-step saves, which the stable tests never execute.",
 ["progressfeedback.h", "backuphelper.cpp", "mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "ogg/oggcontainer.cpp"],
 [("abort checks", "AbortableProgressFeedback::stopIfAborted"), ("restore", "BackupHelper::handleFailureAfterFileModifiedCanonical")])

prop("P15", "Parsing any damaged file is safe, bounded and reported",
 "Parsing any byte sequence, in particular any truncation or byte change of a valid file in any supported format, terminates within time and memory proportional to the input, never reads or writes outside its buffers nor has other undefined behaviour, and signals problems only through the documented exceptions, parsing states and messages. It never modifies the file.",
 ["inputs"], "every truncation point and every single-byte change from a set of critical values, over a corpus of constructed files of every format",
 "Unit tests sample a few valid files; damage positions are combinatorial.",
 ["mediafileinfo.cpp", "genericfileelement.h", "mp4/mp4atom.cpp", "mp4/mp4track.cpp", "matroska/ebmlelement.cpp", "ogg/oggpage.cpp", "id3/id3v2frame.cpp", "flac/flacstream.cpp", "vorbis/vorbiscomment.cpp"],
 [("size checks", "GenericFileElement::validateSubsequentElementStructure, internalParse of every element type"), ("error handling", "MediaFileInfo::parseContainerFormat/parseTracks/parseTags")])

prop("P16", "Tag value conversions agree with each other and lose nothing silently",
 "For every stored data type and text encoding, converting a tag value to text, number, position, date or other types yields the value that was stored, or reports a conversion error when no such value exists; text conversion to any encoding and back is the identity. Parsing the text form of positions, dates, durations and popularity ratings gives back the value they were made from.",
 ["inputs"], "all data type/encoding pairs x boundary values, and all short strings over a critical alphabet",
 "The stable tests check single examples per conversion; agreement must hold for all values and type pairs.",
 ["tagvalue.cpp", "tagvalue.h", "positioninset.h", "tagtype.h"],
 [("conversions", "TagValue::toInteger/toPositionInSet/toString/toStandardGenreIndex/..., TagValue::convertDataEncoding"), ("popularity scaling", "Popularity::scaleTo, TagValue::toPopularity")])

prop("P17", "Tag value comparison and copying are consistent",
 "Comparing tag values for equality is reflexive and symmetric, and consistent between values holding the same content in different types or encodings; a copied, moved or assigned value is indistinguishable from its source in all its content and meta-data. Case-insensitive comparison and ignoring meta-data behave as documented and never turn equal values unequal.",
 ["inputs", "histories"], "all pairs from a value set covering type x encoding x meta-data x options, plus all copy/move/assign sequences up to depth 3",
 "Equality is a relation over all pairs of values; tests sample some.",
 ["tagvalue.cpp", "tagvalue.h"],
 [("comparison", "TagValue::compareTo/compareData"), ("copying", "TagValue copy/move constructor and assignment, clear* functions")])

prop("P18", "Tag fields behave the same through every tag format's interface",
 "For every tag format and field the format supports, setting, adding, querying, replacing and removing values behaves like an ordered multi-value map: what was set is what is returned (single or multiple, by field or by native id), unsupported fields are refused and change nothing, and mapping a field to its native id and back gives the same field. Merging tags keeps or overwrites existing fields exactly as requested, with all values. (The vendor string of a Vorbis comment is not a field; Matroska stores performers and actors in one field, so they count as the same field there.)",
 ["histories", "inputs"], "all operation sequences up to the depth bound for every tag class against a reference map, for every known field",
 "Tests cover one tag class and a few fields; the contract spans all classes, fields and operation orders.",
 ["fieldbasedtag.h", "tag.cpp", "id3/id3v1tag.cpp", "mp4/mp4tag.cpp", "vorbis/vorbiscomment.cpp", "matroska/matroskatag.cpp", "id3/id3v2tag.cpp"],
 [("field map", "FieldMapBasedTag::setValue/setValues/internallyGetValues..."), ("merging", "Tag::insertValues, FieldMapBasedTag::insert")])

prop("P19", "Tag creation and conversion settings produce exactly the requested tags",
 "Requesting appropriate tags with any settings (ID3v1/ID3v2 usage, keep existing version or convert, merge multiple tags, treat unknown files, required targets, init and transfer flags) on a file with any existing tags yields exactly the set of tags, versions and targets the settings describe, carrying over field values where asked. After saving, the file contains exactly this set, and removed tags are gone.",
 ["configurations", "histories"], "full product of settings x existing tags x container formats, with save and reparse",
 "The settings interact with each other and the existing tags; stable tests do not exercise them on real files.",
 ["mediafileinfo.cpp", "settings.h", "tagtarget.cpp"],
 [("tag management", "MediaFileInfo::createAppropriateTags, id3v1ToId3v2, id3v2ToId3v1, mergeId3v2Tags, removeTag...")])

prop("P20", "Parsing steps can run in any order and repeatedly with the same result",
 "Whatever order and number of parsing steps (container, tags, tracks, chapters, attachments, everything), closing, reopening and clearing of results is used on a file, the parsed information finally obtained equals that of parsing everything once, results are never duplicated, and each step's status is truthful. Queries before the needed step give empty results rather than failing.",
 ["histories"], "all sequences of parse/clear/invalidate/reopen operations up to the depth bound over files of every format",
 "Order-dependence needs enumeration of call sequences; stable tests call parse steps in one order.",
 ["mediafileinfo.cpp", "abstractcontainer.cpp", "genericcontainer.h", "basicfileinfo.cpp"],
 [("status tracking", "MediaFileInfo::parseContainerFormat/parseTracks/parseTags/parseChapters/parseAttachments, clearParsingResults")])

prop("P21", "Track, chapter and attachment edits are saved faithfully",
 "Editing track properties of Matroska and MP4 files (name, language, enabled/default/forced flags as far as the format stores them, ID), adding, changing or ignoring attachments of Matroska files, and adding, removing or moving tracks of non-fragmented MP4 files is reflected exactly when the saved file is read again, and everything about tracks, chapters and attachments that was not edited stays as before. Attachment contents are preserved byte for byte. A failing attempt to assign the content of an attachment leaves the attachment as it was. (A missing Matroska language is stored as und; the order of attachments is not significant; references to edited IDs elsewhere in the file are not adjusted.)",
 ["configurations", "histories"], "all single and paired edits over files with 1-3 tracks and 0-3 attachments in all layouts",
 "No stable test saves a file with tracks, chapters or attachments.",
 ["matroska/matroskatrack.cpp", "matroska/matroskaattachment.cpp", "mp4/mp4track.cpp", "matroska/matroskacontainer.cpp", "abstractattachment.cpp"],
 [("track header writing", "MatroskaTrackHeaderMaker, Mp4Track::makeTrack/makeTrackHeader/makeMedia"), ("attachment writing", "MatroskaAttachmentMaker")])

prop("P22", "Backups never overwrite anything and restoring brings the original back",
 "Creating a backup moves the original file to a fresh name that did not exist before (in the same directory or the requested relative or absolute backup directory), never overwriting an existing file, and restoring brings back exactly the original content under the original path and leaves no backup. Anything else in the directories is untouched. (File names containing backslashes are not considered.) If creation or restoring fails, the original content is still present and the failure is reported.",
 ["configurations", "histories", "fault_sequences"], "all backup directory kinds x pre-existing backup names x file name shapes x failing steps",
 "Existing tests check one happy path; name collisions and failing steps must be enumerated.",
 ["backuphelper.cpp"],
 [("creation", "createBackupFileCanonical"), ("restore", "restoreOriginalFileFromBackupFileCanonical"), ("failure handling", "handleFailureAfterFileModifiedCanonical")])

prop("P23", "Technical information reported equals what the stream headers encode",
 "For every valid MPEG audio frame header, ADTS frame header, FLAC stream info, Vorbis/Opus identification header, MP4 and Matroska track header (including AAC and AVC decoder configuration), RIFF/WAVE and IVF header, the reported version, layer, sampling frequency, channel count, bit rate, bit depth, dimensions, language, id, sample count, timestamps and duration are those the header encodes per the format's specification (default values of the specification apply to absent elements, frame rates are rounded to an integer). Invalid headers are reported as such.",
 ["inputs"], "all valid MPEG audio frame header bit combinations and all boundary values of each field of the other headers",
 "Header fields are bit-packed with tables; tests would need every combination and sample files are absent.",
 ["mpegaudio/mpegaudioframe.cpp", "flac/flacmetadata.cpp", "mp4/mp4track.cpp", "matroska/matroskatrack.cpp", "ogg/oggstream.cpp", "vorbis/vorbisidentificationheader.cpp", "opus/opusidentificationheader.cpp", "wav/waveaudiostream.cpp", "ivf/ivfstream.cpp"],
 [("header parsing", "MpegAudioFrame::parseHeader, FlacMetaDataBlockStreamInfo::parse, Mp4Track::internalParseHeader, MatroskaTrack::internalParseHeader")])

prop("P24", "Variable-length number encodings are exact inverses",
 "Every EBML id, size and unsigned integer, every MP4 descriptor length and every syncsafe number that is written decodes to the same value, uses the announced number of bytes, and what cannot be represented is rejected. Lengths predicted before writing always equal the bytes actually written.",
 ["inputs"], "all values within +-2 of every power of two up to 64 bits and all smaller values up to 2^22",
 "Encodings switch form at power-of-two steps that examples miss.",
 ["matroska/ebmlelement.cpp", "matroska/ebmlid.h", "mp4/mp4track.cpp", "mp4/mpeg4descriptor.cpp", "id3/id3v2tag.cpp"],
 [("EBML sizes", "EbmlElement::calculateSizeDenotationLength/makeSizeDenotation/makeUInteger")])

prop("P25", "The container format of a file is recognised whatever precedes it",
 "A file of any supported format is recognised as that format, also when preceded by ID3v2 tags of any size or by less than 2 KiB of zero bytes or other junk (MP4 files, whose atoms start with zero bytes themselves, only by tags and other junk), and its tags, tracks and extension follow from that; other content (in which no known signature occurs) is never mistaken for a supported format: no tags or tracks are reported, no tags are created unless the caller asks to treat unknown files as MP3, and the file is left alone. An ID3v2 header declaring more bytes than the file has is reported via the parsing status.",
 ["inputs", "configurations"], "all signatures x prefixes (ID3v2 chains, zero padding, APE) x near-miss byte changes",
 "Only few signatures are sampled by tests and never in combination with prefixes.",
 ["signature.cpp", "mediafileinfo.cpp", "mediaformat.cpp"],
 [("signature table", "parseSignature"), ("prefix skipping", "MediaFileInfo::parseContainerFormat")])

prop("P26", "Saving a damaged file is safe and never loses the original",
 "When a damaged file (any truncation, any byte or size field changed, any byte missing or duplicated) of any supported format is parsed as far as possible and changes are applied to it in spite of reported problems, saving terminates within time and memory proportional to the input, has no undefined behaviour and throws only the documented exceptions. When saving under another path the original is never modified; when rewriting the file, its original content is still available (under its path if saving failed, otherwise at least as the backup). The saved file is of reasonable size and can be opened again, and if no warning or error was reported at all, the tags saved are present in it.",
 ["inputs", "configurations"], "every truncation point and every single damage from a set of critical values of samples of every format x ways of saving x kinds of edits",
 "Unit tests save only valid files; whether sizes and offsets of a damaged file are trusted when writing shows only for specific damages.",
 ["mediafileinfo.cpp", "genericfileelement.h", "mp4/mp4container.cpp", "mp4/mp4track.cpp", "matroska/matroskacontainer.cpp", "matroska/matroskatrack.cpp", "ogg/oggcontainer.cpp", "id3/id3v2frame.cpp", "flac/flacstream.cpp", "backuphelper.cpp"],
 [("making files", "MediaFileInfo::applyChanges, internalMakeFile of every container"), ("copying elements", "GenericFileElement::makeBuffer/copyEntirely"), ("restoring", "BackupHelper::handleFailureAfterFileModified")])

prop("P27", "Navigating an Ogg stream visits exactly its segments and bytes",
 "After any sequence of operations of OggIterator (reset, next/previous page and segment, setting or removing the serial number filter, positioning on a page or segment, reading, skipping, resynchronising, clearing), the iterator is at the page, segment and byte a plain model of the stream says: only non-empty pages matching the filter are visited, reading and skipping continue across page headers and interleaved pages of other streams, exactly the bytes of the segments are returned in order, pages are fetched once and in order, resynchronising finds the next page behind an offset, and truncated or invalid pages are reported by the documented exceptions. If there is no previous page the position remains or the iterator becomes invalid; it never refers to a page or segment which does not exist.",
 ["operation sequences", "inputs"], "all reachable states of the real iterator for every combination of page shapes",
 "Unit tests never go backwards and use one file; wrong positions show only after specific sequences, e.g. going back after a partial read.",
 ["ogg/oggiterator.cpp", "ogg/oggiterator.h", "ogg/oggpage.cpp", "ogg/oggpage.h"],
 [("navigation", "OggIterator::reset/nextPage/nextSegment/previousPage/previousSegment"), ("reading", "OggIterator::read/readAll/ignore"), ("recovery", "OggIterator::resyncAt"), ("parsing", "OggPage::parseHeader")])

prop("P28", "Chapters, editions, attachments and file-level summaries are reported as stored",
 "After parsing, the editions and chapters reported for a Matroska file form exactly the tree stored in the file - over all Chapters elements and segments, in order, with every nested chapter - and each carries the stored ID, start and end time (100 ns precision, negative if absent), hidden/enabled/default/ordered flags (with the documented defaults), all names with all their languages and countries (English if none is specified) and all tracks it applies to. Attachments are reported completely and in order with description, name, MIME type, ID and exactly the stored data; surplus elements never replace earlier ones. The file-level information (chapter list, tracks by type, available languages per media type, technical summary, duration, overall bitrate) agrees with the individual tracks/chapters, and lookups of locale details return the requested or preferred format whenever it is present.",
 ["inputs", "configurations"], "all chapter trees up to a bound, all combinations of present/absent/extreme fields, all languages x tracks",
 "The tests contain a single file with chapters; mistakes in nesting, defaults, repeated elements or several segments show only for specific structures.",
 ["matroska/matroskachapter.cpp", "matroska/matroskaeditionentry.cpp", "matroska/matroskaattachment.cpp", "matroska/matroskacontainer.cpp", "abstractchapter.cpp", "mediafileinfo.cpp", "localehelper.cpp"],
 [("chapters", "MatroskaChapter::internalParse, AbstractChapter::parseNested"), ("editions", "MatroskaEditionEntry::parse, MatroskaContainer::internalParseChapters"), ("attachments", "MatroskaAttachment::parse"), ("summaries", "MediaFileInfo::availableLanguages/technicalSummary/chapters"), ("locales", "Locale::abbreviatedName/someAbbreviatedName")])

prop("P29", "Values keep their meaning in every tag format and when transferred between formats",
 "A value assigned to a field keeps its meaning - the text, the position and total, the number, the genre, the rating on the generic scale with user and play counter, the picture with MIME type, the duration, the date - when the tag is written and read back and when its values are inserted into a tag of another format supporting the field and that tag is written and read back, no matter in which encoding or type the value was provided, as far as the target format is able to express it. With several fields and values, each field ends up with exactly the inserted values if overwriting or not yet present and keeps its own otherwise.",
 ["inputs", "configurations"], "all values x fields x (source format, target format) pairs x ways to provide the value",
 "The tests transfer few values between few formats; scale, encoding and type conversions differ for each pair of formats, field and type of value.",
 ["tag.cpp", "tagvalue.cpp", "fieldbasedtag.h", "id3/id3v1tag.cpp", "id3/id3v2tag.cpp", "id3/id3v2frame.cpp", "mp4/mp4tag.cpp", "mp4/mp4tagfield.cpp", "vorbis/vorbiscommentfield.cpp", "matroska/matroskatagfield.cpp"],
 [("transfer", "Tag::insertValues, FieldMapBasedTag::insertValues"), ("ratings", "Popularity::scaleTo, VorbisCommentField/MatroskaTagField"), ("genres", "Id3Genres, TagValue::toStandardGenreIndex"), ("encodings", "ensureTextValuesAreProperlyEncoded")])
prop("P30", "Element trees of Matroska and MP4 files are exact and independent of the order of exploration",
 "The lazily parsed element tree of an EBML or MP4 file has exactly the elements stored in the file with their IDs, offsets, header and data sizes, levels, parents, children and siblings - for every way sizes may be denoted, with junk between EBML elements and with segments/clusters of unknown size - no matter in which order elements are looked up, parsed, cleared, reparsed, buffered, copied or validated. Lookups by ID and path return the first matching element or nothing, copying an element (entirely, only the header, without children, via a buffer) gives exactly its bytes, and validating reports exactly the padding. None of this modifies the file.",
 ["inputs", "histories"], "all element trees up to a bound x all sequences of lookups, copies and reparsings",
 "The tests only ever traverse well-known files in one order; stale or missing siblings/children after reparsing or lookups depend on the order of operations and the way sizes are denoted.",
 ["genericfileelement.h", "matroska/ebmlelement.cpp", "matroska/ebmlelement.h", "mp4/mp4atom.cpp"],
 [("lookup", "GenericFileElement::childById/siblingById/subelementByPath"), ("copy", "GenericFileElement::copyInternal/makeBuffer"), ("parse", "EbmlElement::internalParse, Mp4Atom::internalParse"), ("unknown sizes", "EbmlElement::determineClusterSize")])

prop("P31", "File handle and path information are consistent with the file",
 "After every sequence of opening (read-only or not), reopening, closing, invalidating, changing or reporting the path or size: whether the file is open and read-only, its size (as determined when opened, zero after invalidation, as reported otherwise), its path and the position and flags of its stream are those resulting from the last relevant operation; opening an already open file changes nothing, setting the path to the current one changes nothing, a different path closes the file, a failed attempt leaves the object usable. None of these operations alters, creates or deletes a file and nothing can be written via a read-only handle. For every path, the file name (with and without extension), extension, path without extension and containing directory are exactly the parts of that path for both kinds of separators, regardless whether obtained from a path or from the object.",
 ["histories", "inputs"], "all sequences of operations on the handle up to a bound, all paths over an alphabet up to a bound",
 "The tests check one file with one path; stale handles, sizes and flags only show after particular sequences, wrong parts only for particular arrangements of separators and points.",
 ["basicfileinfo.cpp", "basicfileinfo.h", "mediafileinfo.cpp"],
 [("handle", "BasicFileInfo::open/reopen/close/invalidate/setPath"), ("path parts", "BasicFileInfo::fileName/extension/pathWithoutExtension/containingDirectory")])
prop("P32", "Diagnostics, progress feedback, languages and targets aggregate and compare consistently",
 "The level of a list of diagnostic messages is the worst level of its messages, it is said to have a level exactly if there is a message at least as bad, messages keep level, text and context and are equal exactly if these are; lists of values are formatted completely and in order. A progress object reports exactly the last step and percentages, invokes the right callback exactly once per update with the new values, and once it was aborted - no matter from where and also for copies - every following step which may stop does so without changing anything. A locale returns the first defined detail of the requested format, otherwise the most relevant one, and lists all details. Tag targets and dimensions compare, match and denote themselves according to all their parts.",
 ["histories", "inputs"], "all lists of messages and language details, all pairs of targets and sizes, all sequences of progress operations including callbacks which abort",
 "The tests contain a few messages, locales and targets; combinations and orders of them and aborting from within callbacks are not covered.",
 ["diagnostics.cpp", "diagnostics.h", "progressfeedback.h", "localehelper.cpp", "tagtarget.h", "tagtarget.cpp", "size.cpp", "size.h", "margin.h"],
 [("levels", "Diagnostics::level/has"), ("abort", "AbortableProgressFeedback::nextStepOrStop/stopIfAborted"), ("locale", "Locale::someAbbreviatedName"), ("targets", "TagTarget::matches")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
