def M(*a): return [{"name": n, "where": w} for n, w in a]

P("P01", "Variable-length unsigned integers survive a write/read round trip",
  "Every unsigned value that fits the variable-length encoding, written to a stream and read back, yields the same value. The reader consumes exactly the bytes the writer produced, the encoding is 7 payload bits per byte with the top bit as continuation (a ninth byte carries 8 bits), and the encoding does not depend on the stream's byte-order setting.",
  ["inputs"], "all 2^64 values, both byte-order settings, any bytes following the encoded value",
  "test/base128.inl checks a few dozen constants; the length and the bytes depend on all 64 bits of the value.",
  ["datas/base_128.hpp", "datas/binwritter_ref.hpp", "datas/binreader_ref.hpp"],
  mechanism=M(("buint128::Write/Read", "datas/base_128.hpp")), observe_at=["bytes in the stream, value read back"])

P("P02", "Variable-length signed integers survive a write/read round trip",
  "Every signed value that fits the variable-length encoding, written to a stream and read back, yields the same value, sign included. The reader consumes exactly the bytes the writer produced, independent of the stream's byte-order setting.",
  ["inputs"], "all representable signed values, both byte-order settings",
  "test/base128.inl checks a few constants; sign and length interact at every 7-bit boundary.",
  ["datas/base_128.hpp"], mechanism=M(("bint128::Write/Read", "datas/base_128.hpp")),
  observe_at=["bytes in the stream, value read back"])

P("P03", "Bit-field members are isolated and survive a byte-order change",
  "Storing a value in one member of a packed bit-field makes that member read back as the value truncated to its declared width and leaves every other member and every unclaimed bit unchanged, whatever the storage held. For layouts of two or more members, converting for the other byte order and back restores the bits the members claim, and each member keeps its value across the conversion as seen through the mirrored layout.",
  ["inputs"], "all storage contents, all values stored, all members of layouts over 8, 16, 32 and 64 bit storage",
  "test/bitfield.inl uses one layout and fixed values; isolation is a statement about all storage contents.",
  ["datas/bitfield.hpp", "datas/internal/bitfield.inl"], mechanism=M(("BitFieldType Get/Set/SwapEndian", "datas/bitfield.hpp")),
  observe_at=["storage value"])

P("P04", "Byte swapping reverses exactly the bytes of each element",
  "Swapping the byte order of a 2, 4 or 8 byte scalar (integer, floating point or enumeration), of an array of scalars, or of a vector reverses the bytes of each element in place, keeps the element order, touches nothing outside the object, and applied twice is the identity. A type with its own swap operation has that operation called exactly once per element.",
  ["inputs"], "all element values, every supported width, arrays and vectors",
  "test/endian.inl and static asserts use a handful of constants.",
  ["datas/endian.hpp", "datas/endian_fwd.hpp", "datas/vectors.hpp"], mechanism=M(("FByteswapper, FArraySwapper", "datas/endian.hpp")),
  observe_at=["memory of the swapped object"])

P("P05", "Flag sets behave as sets of bit positions",
  "For a flag set over an enumeration, adding, removing, setting to a given state and testing act on exactly the bit whose position is the enumerator's value, for every position of the underlying storage including the top one, and leave all other bits alone. Building a set from a list, comparing sets and converting to the raw mask agree with the union of those bits.",
  ["inputs", "histories"], "all storage contents, all positions, storage of 8 to 64 bits",
  "test/flags.inl checks low positions from an empty set.",
  ["datas/flags.hpp"], mechanism=M(("es::Flags", "datas/flags.hpp")), observe_at=["raw mask"])

P("P06", "Packed small floats decode to their IEEE value and re-encode exactly",
  "Every bit pattern of a packed floating-point type (half precision and the unsigned 10/11 bit types) that encodes zero or a normal or subnormal number converts to the single-precision float with the same mathematical value. Converting that float back gives the original bit pattern, and the four-lane conversions agree with the scalar ones lane by lane.",
  ["inputs"], "all bit patterns of each packed type",
  "test/float.inl samples a few values of each format.",
  ["datas/float.hpp"], mechanism=M(("esFloat conversion operators, ToVector4/FromVector4", "datas/float.hpp")), observe_at=["converted bits"])

P("P07", "Splitting a path into folder, name and extension loses nothing",
  "For every path, joining the reported folder, file name and extension gives back the path with backslashes replaced by slashes; the folder is everything up to and including the last slash, and the extension is the part from the last dot of the last component on (a path that begins with its only dot has no extension). The views never reach outside the stored path, for any placement of dots and slashes including none, and exploding a path yields its components in order (a leading slash opens no component and a trailing one closes the last).",
  ["inputs"], "all strings",
  "test/fileinfo.inl checks a handful of well-formed paths.",
  ["datas/fileinfo.hpp"], mechanism=M(("AFileInfo::Load and accessors", "datas/fileinfo.hpp")), observe_at=["returned views"])

P("P08", "Linked buffers are never freed and owned buffers are freed once",
  "A container built over an existing buffer through the hybrid allocator exposes that buffer's contents without copying and never frees it; memory the allocator itself obtained is released when given back. A hybrid smart-pointer deleter destroys exactly when it owns.",
  ["inputs", "histories"], "all buffers and sizes, owning and linked",
  "test/allocator_hybrid.inl checks single runs; a wrong free only shows as heap corruption.",
  ["datas/allocator_hybrid.hpp", "datas/deleter_hybrid.hpp"], mechanism=M(("allocator_hybrid::deallocate, deleter_hybrid::operator()", "datas/allocator_hybrid.hpp")), observe_at=["calls to free/delete"])

P("P09", "The one-at-a-time string hash equals its published definition",
  "For every byte string of every length, the hash of the string equals the value given by the documented one-at-a-time recurrence, in the wide and in the byte-compatible variant. Hashing depends only on the bytes and the length given, and reads nothing outside the string.",
  ["inputs"], "all strings of all lengths, unbounded",
  "test/supercore.inl checks fixed strings.",
  ["datas/jenkinshash.hpp"], mechanism=M(("JenkinsHash_, JenkinsHashC", "datas/jenkinshash.hpp")), observe_at=["hash value"])

P("P10", "The block string hash equals the lookup3 definition",
  "For every byte string of every length, the block hash equals Bob Jenkins' lookup3 hashword mixing of the string's little-endian words (last word zero padded) with the length and seed. Hashing reads nothing outside the string.",
  ["inputs"], "all strings of all lengths and seeds, unbounded",
  "The suite checks fixed strings; tail handling depends on the length modulo twelve.",
  ["datas/jenkinshash3.hpp"], mechanism=M(("JenkinsHash3_", "datas/jenkinshash3.hpp")), observe_at=["hash value"])

P("P11", "Block-cipher decryption undoes encryption in every chaining mode",
  "For every nonempty key, initialisation vector and buffer, decrypting in a chaining mode what was encrypted in the same mode with the same key and vector restores the buffer; bytes after the last whole block are untouched and nothing outside the buffer is written. The mode's block chaining is the standard one, the single-block transform is a bijection, and repeating a call with the same arguments gives the same result.",
  ["inputs", "histories"], "all keys, vectors, buffer contents and sizes",
  "There is no test of the ciphers; an inverse law is about all keys and all blocks.",
  ["datas/encrypt/blowfish.cpp", "datas/encrypt/blowfish.h"], mechanism=M(("BlowfishEncoder, Encode/Decode per mode", "datas/encrypt/blowfish.cpp")), observe_at=["buffer contents"])

P("P12", "XOR encryption is its own inverse with a repeating key",
  "Applying the XOR cipher twice with the same nonempty key restores the buffer, for every key and buffer. Byte number i is combined with key byte i modulo the key length, and nothing outside the buffer is written.",
  ["inputs"], "all keys and buffers, unbounded",
  "There is no test of the ciphers.",
  ["datas/encrypt/xorenc.hpp"], mechanism=M(("XOREncoder::Encode", "datas/encrypt")), observe_at=["buffer contents"])

P("P13", "String-view searches return the first or last match and stay in bounds",
  "Each search of a string view (for a substring, a character, any of or none of a set, forwards or backwards, with a start position) returns the same position that the standard string would return for the same arguments, or the not-found value when there is none. No search reads outside the view or the pattern.",
  ["inputs"], "all texts, patterns and start positions, unbounded length",
  "The searches have no test of their own.",
  ["datas/internal/string_view.inl", "datas/string_view.hpp"], mechanism=M(("find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of", "datas/internal/string_view.inl")), observe_at=["returned position"])

P("P14", "String-view slicing, copying, comparing and trimming match the standard",
  "Taking a sub-view, removing a prefix or suffix, copying out characters and comparing give what the standard string gives for the same arguments, including sub-views that start at the very end. Trimming whitespace removes exactly the leading or trailing spaces and tabs, also for empty or all-blank text, and nothing reads outside the view or writes more than the characters copied.",
  ["inputs"], "all texts, positions and counts",
  "Only construction is exercised by tests.",
  ["datas/internal/string_view.inl", "datas/string_view.hpp", "datas/supercore.hpp"], mechanism=M(("substr, copy, compare, SkipStartWhitespace, SkipEndWhitespace", "datas/internal/string_view.inl")), observe_at=["returned view, copied bytes"])

P("P15", "What is written through the binary writer is read back identically",
  "Scalars, vectors, strings and counted containers written with the binary writer and read with the binary reader under the same byte-order setting come back equal, and reading consumes exactly the bytes written. With byte swapping on, the bytes in the stream are the swapped representation, and the caller's object is unchanged by writing.",
  ["inputs"], "all values, container lengths, both byte orders",
  "test/bincore.inl writes and reads a few fixed values.",
  ["datas/binreader_ref.hpp", "datas/binwritter_ref.hpp", "datas/binreader_stream.hpp", "datas/binwritter_stream.hpp"], mechanism=M(("BinReaderRef::Read*, BinWritterRef::Write*", "datas")), observe_at=["stream bytes, values read"])

P("P16", "Stream positioning helpers keep their documented effect on the cursor",
  "Seek and tell are relative to the active origin and undo each other, padding moves the cursor to the next multiple of the alignment (never moving when already aligned, writing zero bytes when writing), and asking for the size leaves the cursor where it was. Pushing and popping the origin or the position restores the previous one.",
  ["inputs", "histories"], "all positions, origins, alignments and stream sizes",
  "test/bincore.inl checks one alignment and a few positions.",
  ["datas/internal/bincore_navi.hpp", "datas/binreader_ref.hpp", "datas/binwritter_ref.hpp"], mechanism=M(("BinStreamNavi, ApplyPadding, Skip, GetSize", "datas")), observe_at=["stream cursor and bytes"])

P("P17", "Relocatable pointers resolve once and null stays null",
  "A stored offset pointer resolved against a base address designates base plus offset; resolving it again does nothing, and a null offset stays null. A 32 bit slot assigned an address within reach (other than its own) reads back as that address, and assigned null reads back as null. Slots resolved earlier are recognised however many there are.",
  ["inputs", "histories"], "all offsets and bases, any number of repeated resolutions",
  "There is no test; double resolution is a history property.",
  ["datas/pointer.hpp"], mechanism=M(("esPointerX64/PointerX86 Fixup", "datas/pointer.hpp")), observe_at=["pointer value"])

P("P18", "Setting a reflected number stores it clamped and changes nothing else",
  "Assigning a number to a reflected integer, unsigned or float member stores that number, clamped to the member's range when it does not fit, in exactly that member's bytes. Every other byte of the object is unchanged, and reading the member back yields the stored value.",
  ["inputs"], "all values, all scalar member widths and array elements, all previous object contents",
  "test/reflector.inl sets fixed values on one object.",
  ["datas/reflector.cpp", "datas/internal/reflector.inl"], mechanism=M(("Reflector::SetReflectedValueInt/UInt/Float, SetNumber", "datas/reflector.cpp")), observe_at=["object bytes"])

P("P19", "Reflected bit-fields and flags change only their own bits",
  "Setting a reflected flag or a reflected bit-field member changes exactly that flag's or member's bits, for every bit position including those above 31, and leaves the rest of the storage and of the object unchanged. Reading back reports the state that was set.",
  ["inputs"], "all storage contents and positions",
  "Tests use a few low positions on one object.",
  ["datas/reflector.cpp"], mechanism=M(("BitFieldMember accessors, flag setters", "datas/reflector.cpp")), observe_at=["object bytes"])

P("P20", "Invalid reflected member or element indices are rejected without effect",
  "Every reflective read or write that names a member which does not exist, or an element or component outside the declared count, reports failure and leaves the object unchanged. Valid indices always address the bytes of that element and no others.",
  ["inputs"], "all member indices, element indices, values",
  "Tests cover a handful of wrong names.",
  ["datas/reflector.cpp"], mechanism=M(("Reflector index checks", "datas/reflector.cpp")), observe_at=["return value, object bytes"])

P("P21", "Binary reflection dump and load restore every member",
  "Saving a reflected object and loading the result into another object of the same class makes every reflected scalar, vector, array and string member equal, for all member values. Members the class does not share are skipped without disturbing the others.",
  ["inputs"], "all member values",
  "test/reflector_bindump.inl uses one fixed object.",
  ["datas/reflector_io.cpp", "datas/internal"], mechanism=M(("ReflectorBinUtil", "datas/reflector_io.cpp")), observe_at=["object bytes"])

P("P22", "Integer element formats decode every channel exactly",
  "For every signed or unsigned integer element format, each channel of a decoded sample equals the corresponding bit range of the element, sign or zero extended, with absent channels zero. Decoding reads only the bytes of that element.",
  ["inputs"], "all element contents, all supported layouts",
  "test/uni_format.inl decodes one sample per format.",
  ["uni/internal/format_full.hpp", "uni/format.hpp"], mechanism=M(("FormatCodec GetValue for INT/UINT", "uni/internal/format_full.hpp")), observe_at=["decoded vector"])

P("P23", "Normalised and float element formats decode every channel",
  "For every normalised element format, each channel of a decoded sample is the corresponding bit range of the element divided by the range's maximum within rounding (formats that decode a shorter channel at the precision of their longest: within one step of that channel), with no other influence from other channels; float formats give the float each channel encodes. Decoding reads only the bytes of that element.",
  ["inputs"], "all element contents, all supported layouts",
  "test/uni_format.inl decodes one sample per format.",
  ["uni/internal/format_full.hpp"], mechanism=M(("FormatCodec GetValue for NORM/UNORM/FLOAT", "uni/internal/format_full.hpp")), observe_at=["decoded vector"])

P("P24", "Sampling an element buffer visits each element exactly once",
  "Sampling count elements with a stride from a buffer yields, in order, the decode of the element at each multiple of the stride, for any count and stride. The codec chosen for a layout and type has that layout's element size and channel count.",
  ["inputs", "configurations"], "all counts, strides, layouts",
  "Tests sample a fixed three-element buffer.",
  ["uni/internal/format_full.hpp", "uni/uni_format.cpp", "uni/format.hpp"], mechanism=M(("FormatCodec::Sample, registry", "uni/uni_format.cpp")), observe_at=["sampled array"])

P("P25", "Four-lane SIMD vectors behave lane by lane like scalars",
  "Every arithmetic, bitwise, shift and comparison operation of the four-lane float and integer vectors gives in each lane the result of the scalar operation on that lane, equality is true exactly when all lanes agree (floats: within the stated tolerance), and a vector is symmetrical exactly when its four lanes are equal (within that tolerance). Conversions between lane types convert each lane, unsigned lanes as unsigned and float to integer rounding to nearest even; operands are unchanged except by compound assignment.",
  ["inputs"], "all lane contents",
  "test/vector_simd.inl checks one pair of operands per operation.",
  ["datas/vectors_simd.hpp"], mechanism=M(("V4SimdFltType, V4SimdIntType_t operators", "datas/vectors_simd.hpp")), observe_at=["lane values"])

P("P26", "Plain vectors behave component by component",
  "Every arithmetic, bitwise and comparison operation of the 2, 3 and 4 component vectors acts on each component independently, compound assignment equals the plain operation followed by assignment, and vector/scalar forms equal broadcasting the scalar. Dot and cross products follow their textbook formulas.",
  ["inputs"], "all component values, integer and float element types",
  "Plain vectors have almost no tests.",
  ["datas/vectors.hpp"], mechanism=M(("t_Vector2/t_Vector/V4ScalarType operators", "datas/vectors.hpp")), observe_at=["component values"])

P("P27", "Matrix operations satisfy their algebra",
  "Transposing a matrix (its 3x3 part, or all of it) moves each element to its mirrored position and twice is the identity on those elements; multiplying matrices and rotating points follow the row-by-column definition; a unit quaternion turned into a matrix gives its rotation matrix (rows dotted with the vector) and turning it back gives the quaternion up to sign. Inverting an orthonormal rotation with a translation in the fourth row gives the rotation and translation that undo that map.",
  ["inputs"], "all matrices and vectors, over real arithmetic",
  "test/matrix44.inl checks a few fixed matrices.",
  ["datas/matrix44.cpp", "datas/matrix44.hpp"], mechanism=M(("esMatrix44", "datas/matrix44.cpp")), observe_at=["matrix elements"])

P("P28", "Block texture decoders reproduce the specified pixels in place",
  "For every compressed block, each of the sixteen decoded pixels equals the value the block format defines from the endpoints and that pixel's index bits, for all five block formats. Decoding a tile writes exactly the pixels of that tile in the image and reads only that block.",
  ["inputs"], "all block contents, tile positions",
  "Formats have no tests at all.",
  ["formats/BlockDecoder.inl", "formats/BlockDecoder.h", "formats/BlockDecoderSimd.hpp"], mechanism=M(("DecodeBCn block functions", "formats/BlockDecoder.inl")), observe_at=["output image bytes"])

P("P29", "Swizzled texture addressing visits every texel once",
  "For power-of-two texture sizes (shorter side up to 16384) the swizzled address of every coordinate lies inside the texture and two different coordinates never share an address. The mapping interleaves the coordinate bits and appends the remaining bits of the longer side.",
  ["inputs", "configurations"], "all supported power-of-two sizes and coordinates",
  "Formats have no tests at all.",
  ["formats/addr_ps3.hpp"], mechanism=M(("MortonSettings, MortonAddr", "formats/addr_ps3.hpp")), observe_at=["computed address"])

P("P30", "Archive headers survive a write/read round trip",
  "Each archive record header written to a stream and read back is equal field by field, occupies exactly the size the archive specification gives plus its variable-length tail, and reading consumes exactly what writing produced.",
  ["inputs"], "all header field values and tail lengths",
  "Formats have no tests at all.",
  ["formats/ZIP.hpp", "formats/ZIP_istream.inl", "formats/ZIP_ostream.inl"], mechanism=M(("ZIP record stream operators", "formats")), observe_at=["stream bytes, fields"])

P("P31", "Texture mip-chain layout is contiguous and complete",
  "The computed mip sizes and offsets describe consecutive, non-overlapping pieces whose total is the returned buffer size, each size follows from the level's dimensions and the format's bits per pixel (whole blocks for the block formats), and nothing is written past the mip table.",
  ["inputs"], "all sides up to 16384, formats and mip counts whose buffer stays below 4 GiB (the table holds 32 bit sizes)",
  "Formats have no tests at all.",
  ["formats/DDS.hpp"], mechanism=M(("DDS::ComputeBufferSize, ComputeBPP", "formats/DDS.hpp")), observe_at=["mip table"])

P("P32", "Legacy and extended texture format tags convert back and forth",
  "Converting an extended texture format to its legacy description and back restores the format and its alpha interpretation whenever the conversion is made without forcing incompatibilities and is reported as supported, and an unsupported conversion is reported and changes nothing.",
  ["inputs"], "all format tags and pixel descriptions",
  "Formats have no tests at all.",
  ["formats/DDS.hpp"], mechanism=M(("DDS::FromLegacy, ToLegacy", "formats/DDS.hpp")), observe_at=["header fields, return code"])

P("P33", "Numeric helpers equal their mathematical definition",
  "Padding to a power-of-two alignment is the smallest non-negative amount that makes a value a multiple of the alignment, the power-of-two test is true exactly for powers of two, and a four-character tag is the little-endian value of its characters. Each holds for every argument.",
  ["inputs"], "all arguments",
  "Tests and static asserts use a few constants.",
  ["datas/supercore.hpp", "datas/internal/sc_type.hpp"], mechanism=M(("GetPadding, IsPow2, CompileFourCC", "datas/supercore.hpp")), observe_at=["return value"])

P("P34", "List views iterate exactly their elements",
  "Iterating a list interface from begin to end yields each index from zero to size minus one exactly once and in order, and looking up an element by index yields the same object as iterating to it. An empty list yields nothing.",
  ["inputs", "histories"], "all list sizes and indices",
  "test_uni.cpp iterates fixed lists.",
  ["uni/virtual_iterator.hpp", "uni/list.hpp", "uni/list_vector.hpp"], mechanism=M(("VirtualIteratorProxy, VectorList", "uni")), observe_at=["iteration sequence"])

P("P35", "Audio container headers describe their own data consistently",
  "A newly built wave header has the chunk identifiers and sizes of its own layout, and computing its derived fields gives frame size and byte rate that follow from channels, sample rate and sample width (whole bytes per sample), and stepping to the next chunk skips header and data of the current one. The known-chunk test accepts exactly the known chunk identifiers.",
  ["inputs"], "all field values",
  "Formats have no tests at all.",
  ["formats/WAVE.hpp"], mechanism=M(("WAVE_fmt::CalcData, IsValidWaveChunk", "formats/WAVE.hpp")), observe_at=["header fields"])

P("P36", "Enumeration name tables map names to values and back",
  "A reflected enumeration lists each enumerator's name with its own value in declaration order, explicit values included, so that converting a name to a value and back is the identity. Unknown names are rejected without effect.",
  ["inputs", "programs"], "all enumerations and names",
  "Tests reflect two enumerations.",
  ["datas/internal/reflector_enum.hpp", "datas/reflector.cpp"], mechanism=M(("EnumProxy, ReflectedEnum", "datas/internal/reflector_enum.hpp")), observe_at=["member text and value"])

P("P37", "A threaded queue runs every task exactly once",
  "Running a queue of tasks on several threads executes each task exactly once and returns only after the last has finished, for every interleaving.",
  ["schedules"], "all thread interleavings", "test/multi_thread.inl runs one schedule.",
  ["datas/multi_thread.hpp"], mechanism=M(("RunThreadedQueue", "datas/multi_thread.hpp")), observe_at=["task side effects"])

P("P38", "Log lines from concurrent threads are never interleaved or lost",
  "Each flushed log message reaches every registered sink exactly once and unmixed with messages from other threads.",
  ["schedules"], "all thread interleavings", "Tests log from one thread.",
  ["datas/master_printer.cpp"], mechanism=M(("MasterPrinterThread", "datas/master_printer.cpp")), observe_at=["sink output"])

P("P39", "Directory scans return exactly the files the filters accept",
  "Scanning a folder returns each file below it whose name matches a filter exactly once, and no other.",
  ["inputs", "fault_sequences"], "all directory trees", "There is no test.",
  ["datas/directory_scanner.cpp"], mechanism=M(("DirectoryScanner::Scan", "datas/directory_scanner.cpp")), observe_at=["file list"])

P("P40", "XML serialisation of reflected objects is lossless",
  "Saving a reflected object as XML and loading it into a fresh object restores every reflected member.",
  ["inputs"], "all member values", "test_xml.cpp round-trips one object.",
  ["datas/reflector_xml.cpp"], mechanism=M(("ReflectorXMLUtil", "datas/reflector_xml.cpp")), observe_at=["object bytes"])

P("P41", "Text encoding conversions are mutually inverse",
  "Converting valid text between UTF-8 and UTF-16 and back gives the original text.",
  ["inputs"], "all valid strings", "Tests convert a fixed string.",
  ["datas/unicode.hpp"], mechanism=M(("es::ToUTF8, ToUTF16", "datas/unicode.hpp")), observe_at=["converted text"])
