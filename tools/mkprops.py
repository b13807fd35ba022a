import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=state
    if observe:a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Encoding metadata and decoding it again gives the same metadata",
"Encoding any set of writable tags and decoding the bytes again yields exactly the same tags with the same values, in the same directories, in the same byte order. This covers every known tag, unknown tags of all twelve formats, the EXIF, GPS and Interoperability sub-directories, several linked top-level directories, and image strip and thumbnail data. Encoding the decoded metadata once more gives the same bytes.",
["inputs"],"every metadata object that can be built from writable tags with values of any length and content, up to 65535 tags per directory, in either byte order",
"About 170 tags times twelve formats times directory layouts times byte orders times value lengths around the 4-byte inline limit cannot be enumerated by example tests, which use a handful of tags in IFD0 in little endian.",
["src/metadata/mod.rs","src/ifd/mod.rs","src/exif_tag/mod.rs","src/exif_tag/decode.rs"],
[("encode, linking directories","src/metadata/mod.rs Metadata::encode"),("directory encoder","src/ifd/mod.rs ImageFileDirectory::encode_ifd"),("directory decoder","src/ifd/mod.rs ImageFileDirectory::decode_ifd")],
["Metadata::encode","Metadata::new_from_vec (TIFF and JPEG carriers)"])

p("P02","Encoded Exif blocks are well-formed TIFF structures",
"Every encoded Exif block is a well-formed TIFF structure for any TIFF reader: correct byte-order mark, magic number and first-directory offset, and directories that terminate and do not overlap. Every entry carries the right format code and component count, its value is stored inline exactly when it fits in 4 bytes and otherwise lies fully inside the block at an even offset. Entries are unique and in ascending tag order in each directory, sub-directories are reachable through exactly one pointer, and tags the library marks as not writable never appear.",
["inputs"],"every metadata object that can be built from tags (writable or not), in either byte order",
"Round-trip tests use the library's own decoder, which tolerates wrong order, overlaps and dangling offsets, so both sides can be wrong together; only an independent reader over many layouts shows it.",
["src/metadata/mod.rs","src/ifd/mod.rs","src/exif_tag/mod.rs","src/exif_tag_format.rs"],
[("directory encoder: entry order, offsets, alignment, inline values","src/ifd/mod.rs ImageFileDirectory::encode_ifd"),("sub-directory pointers","src/metadata/mod.rs Metadata::encode")],["Metadata::encode"])

p("P03","Exif blocks written by other software are decoded faithfully",
"Decoding a valid Exif block produced by any other encoder yields exactly the directories, tags and values stored in it. This holds in both byte orders, with or without the leading Exif identifier, wherever the directories and values lie, with a sub-directory that ends without a link to a next directory, and for entries whose integer width differs from the standard one without loss of value. A string is returned without its trailing zero bytes; text that is not UTF-8 is taken as Latin-1. A block without a valid byte-order mark and magic number is an error.",
["inputs"],"every valid Exif/TIFF block: any directory layout and order, any value placement, any supported format and component count",
"The decoder is mostly exercised on blocks the library wrote itself or on a few sample photos; layouts, widths and byte orders of other producers are never sampled systematically.",
["src/metadata/mod.rs","src/ifd/mod.rs","src/exif_tag/decode.rs","src/exif_tag/mod.rs","src/u8conversion.rs"],
[("directory decoder","src/ifd/mod.rs ImageFileDirectory::decode_ifd"),("format tolerance","src/exif_tag/decode.rs decode_tag_with_format_exceptions"),("header and chain of directories","src/metadata/mod.rs Metadata::decode")],["Metadata::new_from_vec"])

p("P04","Value conversion to and from bytes is exact in both byte orders",
"Converting any integer, floating point, rational or text value, or list of such values, to bytes uses exactly the documented width and the requested byte order, and converting the bytes back gives the identical value. The two byte orders differ only by reversing the bytes of each scalar. Byte sequences whose length does not fit the type are rejected with an error.",
["inputs"],"every value of every supported scalar type, lists of any length, and byte sequences of any length, in both byte orders",
"The conversions are only tested indirectly through a few tag values; extreme values, special floating point values and wrong lengths are not sampled.",
["src/u8conversion.rs"],[("scalar and list conversions","src/u8conversion.rs build_u8conversion, build_vec_u8conversion")],["U8conversion::to_u8_vec","U8conversion::from_u8_vec_res"])

p("P05","Number to rational conversion is accurate and never fails",
"Converting any finite number that a rational can represent to a rational gives a value within a billionth of the number (relative for numbers of 1 and more, absolute below 1); integers in range convert exactly. The sign is preserved for signed rationals, and numbers outside the range give the largest representable value of the right sign instead of a wrong one. No number, including not-a-number and infinities, makes the conversion fail; infinities count as outside the range and not-a-number converts to a rational that converts back to not-a-number.",
["inputs"],"every 64-bit floating point number and every 32-bit integer",
"The interesting inputs (huge, tiny, just below an integer, irrational, near the term limits) are sparse in the space of doubles and a few example values do not reach the overflow and semiconvergent branches.",
["src/rational.rs"],[("continued fraction approximation","src/rational.rs f64_to_rational64u"),("signed variant","src/rational.rs f64_to_rational64s")],["From<f64>/From<u32>/From<i32> for uR64, iR64"])

p("P06","The tag catalogue is consistent",
"Looking up any tag number in any directory group gives a tag that reports exactly this number, its own group and its format, and building it from raw bytes gives the same kind of tag holding exactly those bytes' value. A number that is not in the catalogue becomes an unknown tag that keeps its number, group, format and value. The reported component count is the number of values held (for text: including the terminator), or the predefined count when empty. An unknown tag is justified exactly when the catalogue has no tag of its number and group.",
["inputs"],"all 65536 tag numbers in all four groups, all twelve formats, and raw values of any length",
"Tests touch a dozen of the catalogue's rows; a wrong row or a wrong lookup is only visible for that particular number and group.",
["src/exif_tag/mod.rs","src/exif_tag_format.rs"],[("tag table and lookups","src/exif_tag/mod.rs build_tag_enum")],["ExifTag::from_u16","ExifTag::from_u16_with_data","ExifTag accessors"])

p("P07","The in-memory tag store behaves like a map per directory",
"After any sequence of setting, removing, looking up and enumerating tags, the metadata object behaves like one map per directory (group and directory number): setting replaces the tag of the same number in that directory only, removing affects only that number in directories of that group and reports zero exactly when nothing was removed. Lookups and iteration give every stored tag exactly once with its latest value, tags within a directory in ascending number order. Creating a sub-directory also creates its parents and changes no existing tag. Reducing to a minimum keeps exactly the tags of the top-level directories that are needed to decode or place the image data.",
["histories"],"every sequence of operations on a metadata object, over all groups and several directory numbers",
"State bugs need particular sequences (same number in different groups, several directories, removal before insertion) that fixed example tests do not contain.",
["src/metadata/set.rs","src/metadata/get.rs","src/metadata/iterator.rs","src/metadata/edit.rs","src/ifd/set.rs","src/ifd/get.rs"],
[("set/remove","src/metadata/set.rs, src/ifd/set.rs"),("lookup and iteration","src/metadata/get.rs GetTagIterator, src/metadata/iterator.rs"),("directory creation and order","src/metadata/mod.rs create_ifd, sort_data")],
["Metadata API"])

p("P08","Metadata written to an image is read back unchanged",
"Writing metadata to any valid image of a supported format and reading the image again gives exactly the metadata written, whether or not the image had Exif data before. This holds for PNG, JPEG, JPEG XL, WebP, TIFF and HEIF/AVIF, in memory and for files on disk, in both byte orders. If the format cannot hold the metadata the write reports an error.",
["inputs"],"every valid image of the six formats with any structure around the Exif data, and every metadata object",
"Existing tests write one string to one sample image per format; image structures and metadata sizes (segment limits, odd lengths, compressed carriers) vary without bound.",
["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/webp/vec.rs","src/webp/file.rs","src/tiff/mod.rs","src/heif/container.rs"],
[("dispatch","src/metadata/metadata_io.rs write_to_vec, new_from_vec, write_to_file, new_from_path"),("per-format writers","src/jpg.rs, src/png/mod.rs, src/jxl.rs, src/webp/*.rs, src/tiff/*.rs, src/heif/*.rs")],
["Metadata::write_to_vec/new_from_vec","Metadata::write_to_file/new_from_path"])

p("P09","Exif data placed in an image by other software is found and read",
"Reading an image returns the metadata that another program stored in it in any form the container standard allows, unaffected by unrelated content before or after it. This includes JPEG files with other application segments (also XMP in the same kind of segment) first, PNG with an Exif chunk or a raw profile in any of the three text chunk kinds, WebP chunks and HEIF items in any position, and JPEG XL boxes both plain and compressed. An image of a supported format without Exif data gives an error or empty metadata, never invented tags, and reading never changes the image.",
["inputs"],"every valid image of the six formats carrying an Exif block in any standard form and position",
"The carriers and the positions of the Exif block written by other software combine freely with unrelated segments, chunks and boxes; the sample files cover one arrangement per format.",
["src/jpg.rs","src/png/mod.rs","src/png/text.rs","src/jxl.rs","src/webp/vec.rs","src/webp/file.rs","src/heif/container.rs","src/tiff/vec.rs"],
[("locating the Exif block","read_metadata and file_read_metadata of each format module"),("hex profile decoding","src/png/mod.rs decode_metadata_png"),("brotli box","src/jxl.rs read_metadata")],
["Metadata::new_from_vec","Metadata::new_from_path"])

p("P10","JPEG: writing or clearing Exif changes nothing but the Exif segment",
"After writing or clearing, a JPEG consists of exactly the same sequence of segments and entropy-coded data as before, byte for byte and in the same order, except that every Exif segment is gone and, after writing, exactly one new Exif segment with a correct length field follows the start marker. Other application segments, including XMP in the same kind of segment, restart markers, fill bytes, several scans and any bytes after the end of the image are untouched.",
["inputs"],"every valid JPEG marker stream, with or without Exif, XMP, other application segments, restart markers, multiple scans and trailing data",
"Tests only check that the tag can be read back from two photos; damage to other segments or pixel data goes unnoticed, and marker stream shapes vary without bound.",
["src/jpg.rs"],[("segment scanner and removal","src/jpg.rs clear_segment, skip_ecs"),("insertion","src/jpg.rs write_metadata, encode_metadata_jpg")],["Metadata::write_to_vec, clear_metadata and file variants"])

p("P11","PNG: writing or clearing Exif changes nothing but Exif chunks",
"After writing or clearing, a PNG consists of exactly the same chunks in the same order with the same data and valid checksums, except that Exif chunks and raw Exif profiles in text chunks are gone and, after writing, exactly one new compressed profile chunk follows the header chunk. Text chunks that merely resemble these, unknown chunks and bytes after the end chunk are untouched. An XMP text chunk keeps its kind, keyword, language fields and compression.",
["inputs"],"every valid PNG chunk sequence with any mix of known, unknown, text, Exif and XMP chunks",
"Tests only check that the tag can be read back; chunk mixes and the three text encodings with their optional fields are not sampled.",
["src/png/mod.rs","src/png/text.rs","src/png/read.rs","src/png/chunk.rs"],[("chunk removal","src/png/mod.rs clear_metadata, remove_chunk_at"),("chunk insertion","src/png/mod.rs generic_write_metadata, write_chunk"),("text chunk rebuild","src/png/text.rs construct_similar_with_new_data")],["Metadata::write_to_vec, clear_metadata and file variants"])

p("P12","WebP: writing or clearing Exif keeps a valid file with all other chunks",
"After writing or clearing, a WebP file is a valid RIFF file whose size fields and padding are right and which holds exactly the same image, animation, alpha, colour profile, XMP and unknown chunks with the same data and in the same order; only Exif chunks are removed or added, and the Exif flag tells whether one is present while the other flags stay as they were. Writing to a simple lossy or lossless file converts it to the extended form with the exact canvas size and alpha flag of the image. After writing there is exactly one Exif chunk.",
["inputs"],"every valid WebP file: simple lossy, simple lossless and extended, with any further chunks, odd and even chunk sizes, and all image dimensions",
"Image dimensions, chunk parity, chunk order and flags combine freely; the four sample files exercise one shape each and nothing checks the other chunks afterwards.",
["src/webp/vec.rs","src/webp/file.rs","src/webp/mod.rs","src/webp/riff_chunk.rs"],[("chunk removal and flag update","src/webp/vec.rs, src/webp/file.rs clear_metadata"),("conversion to extended form","src/webp/vec.rs, src/webp/file.rs convert_to_extended_format and dimension readers"),("insertion","write_metadata")],["Metadata::write_to_vec, clear_metadata and file variants"])

p("P13","JPEG XL: writing or clearing Exif changes nothing but Exif boxes",
"After writing or clearing, a JPEG XL container holds exactly the same boxes with the same content in the same order, except that Exif boxes, plain or compressed, are gone and, after writing, exactly one new Exif box with correct size is present. Compressed boxes of other kinds, partial codestream boxes and a last box that extends to the end of the file are untouched. A bare codestream is wrapped into a container that holds the codestream unchanged.",
["inputs"],"every valid JPEG XL file: containers with any mix of boxes (32-bit, 64-bit and open-ended sizes) and bare codestreams",
"Box mixes and the three ways of stating a box size are not sampled by tests, which only read the tag back from two files.",
["src/jxl.rs"],[("box scanner and removal","src/jxl.rs clear_metadata"),("insertion and wrapping","src/jxl.rs write_metadata")],["Metadata::write_to_vec, clear_metadata and file variants"])

p("P14","TIFF: pixel data and the tags that describe it survive writing and clearing",
"After reading the metadata of a strip-based TIFF, changing tags and writing it back, every strip of every page has the same bytes in the same order and all tags that were not changed keep their values (tags the library marks as not writable are not kept). Clearing keeps, for every page, the strips and all tags needed to decode them and removes descriptive tags and the EXIF, GPS and Interoperability directories. The byte order is kept and the result is a valid TIFF file whose old content does not remain behind the new end. Metadata that lacks a tag which every such file needs is refused.",
["inputs"],"every strip-based TIFF in both byte orders with one or more pages, any strip count and sizes, and any additional tags",
"Only one single-page sample is tested for reading a tag back; strip integrity over page counts, strip counts, byte orders and tag mixes is not observed.",
["src/tiff/mod.rs","src/tiff/vec.rs","src/tiff/file.rs","src/metadata/edit.rs","src/ifd/mod.rs"],[("strip handling","src/ifd/mod.rs decode_ifd and encode_ifd, StripOffsets"),("reduction to required tags","src/metadata/edit.rs reduce_to_a_minimum"),("whole-file rewrite","src/tiff/vec.rs, src/tiff/file.rs")],["Metadata::write_to_vec, clear_metadata and file variants"])

p("P15","HEIF/AVIF: writing or clearing Exif keeps every other item intact",
"After writing or clearing, every other item of a HEIF or AVIF file resolves through the location table to exactly the same bytes as before, whatever offsets, extents, base offsets or construction methods it uses, and its properties, references, name and type are unchanged. All other boxes are kept, the file is structurally valid with correct sizes, and after writing the metadata is in the first Exif item, which is described in the item list, located correctly and linked to the image if it is new; further Exif items are emptied. Clearing empties every Exif item except for the orientation and resolution tags of its first directory, which keep their values.",
["inputs"],"every valid HEIF/AVIF file: any number of items, field widths, extents, item positions before and after the Exif data, and box orders",
"Every offset in the location table has to be shifted by a different amount depending on field widths, base offsets and positions; three sample files cannot cover this and nothing checks the other items.",
["src/heif/container.rs","src/heif/boxes/item_location.rs","src/heif/boxes/item_info.rs","src/heif/boxes/item_reference.rs","src/heif/boxes/meta.rs","src/heif/box_header.rs"],[("insertion, removal and offset shifting","src/heif/container.rs"),("location table","src/heif/boxes/item_location.rs"),("item list and references","src/heif/boxes/item_info.rs, src/heif/boxes/item_reference.rs")],["Metadata::write_to_vec, clear_metadata and file variants"])

p("P16","Clearing removes every trace of the Exif data",
"After clearing an image no part of the old Exif data remains anywhere in the result, in whichever standard carrier and position it was stored and however often it occurred, and the image reads as having no Exif data (for TIFF only what decoding the pixels needs remains, for HEIF only orientation and resolution in an otherwise emptied Exif item). Clearing an image without Exif data succeeds and changes nothing, and clearing twice is the same as clearing once. The file on disk ends where the new content ends.",
["inputs"],"every valid image of the six formats carrying Exif data in any standard form, position and number, or none",
"Privacy depends on all carriers, positions and repetitions; tests clear one tag per sample file and only check that reading fails afterwards, not that the bytes are gone.",
["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/webp/vec.rs","src/webp/file.rs","src/tiff/vec.rs","src/tiff/file.rs","src/heif/container.rs"],
[("per-format clear functions","clear_metadata and file_clear_metadata in each format module")],["Metadata::clear_metadata","Metadata::file_clear_metadata"])

p("P17","Removing Exif from embedded XMP keeps all other XMP content",
"When a PNG with an XMP packet is cleared or written, exactly the attributes and elements with the exif prefix, with everything inside them, are removed from the packet. Every other element, attribute, text, comment and processing instruction keeps its name, value and nesting, and the result is well-formed. A packet that is not well-formed is never silently cut short.",
["inputs"],"every well-formed XMP packet with any nesting, attribute quoting, entities, comments and processing instructions, stored in any of the three PNG text chunk kinds, plus damaged packets",
"Nested structures inside removed elements and attribute quoting only show on particular documents; tests use one flat packet.",
["src/xmp.rs","src/png/mod.rs","src/png/text.rs"],[("XMP filter","src/xmp.rs remove_exif_from_xmp, get_exif_filtered_event"),("chunk rewrite","src/png/mod.rs clear_exif_from_xmp_metadata")],["Metadata::clear_metadata on PNG"])

p("P18","Clearing APP12 or APP13 removes exactly those JPEG segments",
"Clearing the APP12 (or APP13) segments of a JPEG removes every segment of that kind and leaves all other bytes of the file as they are, Exif included. If there is none the image is unchanged, and asking for it on another format is an error that changes nothing. Doing it in memory and on disk gives the same bytes.",
["inputs"],"every valid JPEG with any number and order of application segments",
"Repeated and adjacent segments, segments between scans and look-alike bytes in image data are not sampled by the single test.",
["src/jpg.rs","src/metadata/metadata_io.rs"],[("segment removal","src/jpg.rs clear_segment, file_clear_segment")],["Metadata::clear_app12_segment, clear_app13_segment and file variants"])

p("P19","In-memory and on-disk operations agree",
"For every image and every metadata, performing a read, write or clear on a file gives the same result as performing it on the file's content in memory: the same success or failure, the same tags, and a file with exactly the same bytes. In particular a file never keeps old bytes behind its new end, and the file content rather than its extension decides how it is read.",
["inputs"],"every image of the six formats, valid or damaged, and every metadata object",
"The two implementations are separate code for most formats; agreement on arbitrary structures can only be seen by running both on many generated images.",
["src/metadata/metadata_io.rs","src/webp/file.rs","src/webp/vec.rs","src/tiff/file.rs","src/tiff/vec.rs","src/jxl.rs","src/jpg.rs","src/png/mod.rs","src/heif/mod.rs"],
[("dispatch","src/metadata/metadata_io.rs"),("duplicate implementations","src/webp/file.rs vs src/webp/vec.rs, src/tiff/file.rs vs src/tiff/vec.rs")],["all Metadata vec and file operations"])

p("P20","Any history of writes and clears ends in the state of the last one",
"After any sequence of writes and clears on an image, reading gives exactly the metadata of the last write, or none after a clear (in HEIF files orientation and resolution remain). The image content is the same as if only the last operation had been applied, so nothing accumulates: repeating an operation does not change the file any further, and old metadata does not survive in it.",
["histories"],"every sequence of writes (of any metadata, larger or smaller than before) and clears on every valid image of the six formats, in memory and on disk",
"Accumulating offsets, stale chunks and size fields that drift only appear after several operations with shrinking and growing metadata; tests perform one or two.",
["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/webp/vec.rs","src/webp/file.rs","src/tiff/mod.rs","src/heif/container.rs"],
[("clear-then-insert in every writer","write_metadata in each format module")],["Metadata::write_to_vec, clear_metadata, new_from_vec and file variants"])

p("P21","A failed operation leaves the image as it was",
"When writing, clearing or removing a segment reports an error, the buffer or file holds exactly the bytes it had before. This holds for damaged and truncated images, for the wrong format, and for metadata that does not fit.",
["inputs"],"every buffer or file content, valid, damaged or of another format, and every metadata object",
"The failure points lie in the middle of multi-step edits and depend on where exactly the input is damaged; tests do not look at the data after an error.",
["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/webp/vec.rs","src/webp/file.rs","src/tiff/vec.rs","src/tiff/file.rs","src/heif/mod.rs"],
[("in-place edits before all checks are done","clear_metadata and write_metadata in each format module")],["buffer or file content after an Err result"])

p("P22","Reading any bytes ends in metadata or an error",
"Reading any byte sequence as any of the supported formats, in memory or from a file, returns metadata or an error. It never panics, never exhausts the stack, never loops without end, and uses memory and work bounded by the size of the input (and of what is compressed in it) and not by sizes merely claimed inside it. Whatever was read can be enumerated and encoded again in the same sense.",
["inputs"],"every byte sequence, in particular valid images with arbitrary damage and blocks with cyclic, overlapping or oversized references",
"The space of damaged inputs is unbounded and the failures need specific field combinations; example tests contain a few regression files only.",
["src/metadata/mod.rs","src/ifd/mod.rs","src/exif_tag/decode.rs","src/jpg.rs","src/png/mod.rs","src/png/text.rs","src/jxl.rs","src/webp/vec.rs","src/webp/file.rs","src/heif/boxes/item_location.rs","src/heif/container.rs"],
[("decoders of untrusted sizes and offsets","read_metadata in each format module, ImageFileDirectory::decode_ifd")],["Metadata::new_from_vec, new_from_path, FileExtension::auto_detect"])

p("P23","Writing to or clearing any bytes ends in success or an error",
"Writing metadata to, clearing, or removing segments from any byte sequence treated as any of the supported formats returns success or an error. It never panics, never exhausts the stack, never loops without end, and uses memory and work bounded by the size of the input and the metadata and not by sizes merely claimed inside.",
["inputs"],"every byte sequence, in particular valid images with arbitrary damage, and every metadata object",
"Editing code re-parses sizes and positions in many places; each damaged combination takes another path, which examples cannot cover.",
["src/jpg.rs","src/png/mod.rs","src/png/text.rs","src/xmp.rs","src/jxl.rs","src/webp/vec.rs","src/webp/file.rs","src/webp/mod.rs","src/tiff/mod.rs","src/heif/container.rs","src/heif/boxes/item_location.rs"],
[("editing of untrusted structures","write_metadata and clear_metadata in each format module")],["Metadata::write_to_vec, clear_metadata, clear_app12_segment, clear_app13_segment and file variants"])

p("P24","File types are recognised from content and from names",
"Content detection recognises a file of any supported format by its signature regardless of what follows, and gives no result for content without one or too short to tell. File names map to formats by extension in any letter case, unknown extensions and missing files are errors, and a file whose extension names another supported format is read according to its content.",
["inputs"],"every byte sequence and every file name",
"Signature boundaries (short inputs, nearly matching bytes) and letter case combinations are not covered by the single table test.",
["src/filetype.rs","src/metadata/metadata_io.rs"],[("signatures","src/filetype.rs auto_detect"),("extensions","src/filetype.rs from_str, get_file_type")],["FileExtension::auto_detect","FileExtension::from_str","Metadata::new_from_path"])

p("P25","Stand-alone encodings are what writing embeds and can be placed by hand",
"The stand-alone encoding for a container holds exactly the metadata: a JPEG segment with correct marker and length, a PNG profile plain or as compressed chunk content, a WebP chunk with correct size, or a HEIF item payload. Placed by hand into an image of that format according to its standard, it is read back as the same metadata, and it is the same data that writing embeds. Metadata that cannot be encoded for the container gives an error.",
["inputs"],"every metadata object, for each container that offers a stand-alone encoding",
"No test uses the stand-alone encodings for more than one tag, and odd lengths, size limits and both byte orders matter.",
["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/webp/mod.rs","src/heif/mod.rs"],[("stand-alone encoders","as_u8_vec in src/jpg.rs, src/png/mod.rs, src/webp/mod.rs, src/heif/mod.rs")],["Metadata::as_u8_vec"])
p("P26","Metadata can be copied between images and edited on the way",
"Metadata read from an image of any format, whoever wrote it, can be edited and written back or to any other image, of the same or another format, any number of times. Reading the result gives exactly the metadata that was read with exactly the edits made: no other tag is lost, added, moved to another directory or changed in value or byte order. Copies of a metadata object are equal to it.",
["inputs","histories"],"every valid image with Exif data as source, every sequence of edits, every chain of target images of any formats, in memory and on files",
"What decoding foreign data leaves in the object (directories without tags, tags without writers, other integer widths) matters only when it is encoded again, in combination with edits and a different container; the tests build their metadata with set_tag.",
["src/metadata/metadata_io.rs","src/metadata/mod.rs","src/metadata/set.rs","src/ifd/mod.rs","src/ifd/set.rs","src/tiff/mod.rs","src/heif/container.rs"],
[("decode then encode","Metadata::decode, Metadata::encode"),("edits of decoded directories","src/metadata/set.rs, src/ifd/set.rs, src/metadata/get.rs get_ifd_mut")],["Metadata::new_from_vec, write_to_vec and file variants"])

p("P27","An operation affects nothing but the image it is given",
"Reading, writing and clearing one image has no effect on anything else: results do not depend on what was done before with other images, in whatever order or on how many threads at once. Writing does not change the metadata object. Files next to the image are neither changed nor created, reading changes neither content nor modification time, and writing and clearing keep the permissions of the file and follow symbolic links.",
["inputs","histories","schedules"],"every set of images and metadata objects, every interleaving of operations on them, on one or several threads, in memory and on files in one directory",
"Tests run one operation at a time on a single image and look at nothing else; shared state, fixed names of temporary files and replaced files show only with other images, threads and files around.",
["src/metadata/metadata_io.rs","src/general_file_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/webp/file.rs","src/tiff/file.rs","src/heif/mod.rs"],
[("in-place rewriting of files","file_write_metadata and file_clear_metadata in each format module, overwrite_file")],["all operations in memory and on files"])
p("P28","What is reported as done is done, whatever the bytes",
"For any bytes at all, damaged images included, an operation that reports success has done its work: after a write, reading returns exactly the metadata that was written; after a clear, no Exif tag is read any more (TIFF: except the tags that describe the image data; HEIF: except orientation and resolution). Doing the same a second time succeeds as well and changes nothing further (HEIF: writing again still reads back the same), and clearing what was written leaves the same bytes as clearing without the write (JPEG, PNG, extended WebP, JPEG XL containers).",
["inputs"],"every byte sequence as content, every format, every metadata object, in memory and on files",
"The error path and the silent no-op look the same to tests, which only use good images: a structure that is odd in one place can make the new data unreachable or leave a second block behind although success is reported.",
["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/webp/vec.rs","src/tiff/vec.rs","src/heif/container.rs"],
[("each format's check of the structure","parse_webp, generic_parse_png, clear_segment, HeifContainer"),("writing clears first, then inserts","write_metadata of each format")],["write_to_vec, write_to_file","clear_metadata, file_clear_metadata","clear_app12_segment, clear_app13_segment"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
