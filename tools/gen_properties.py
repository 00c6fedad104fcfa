#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                  "observe_at": observe, "hook_needed": None}})

R="src/metadata/reader.rs"; I="src/ifd.rs"; T="src/tile.rs"; D="src/decoder.rs"; PR="src/predictor.rs"; C="src/metadata/cache.rs"; F="src/metadata/fetch.rs"; RD="src/reader.rs"; A="src/array.rs"

prop("C01","Every tag value is read back exactly as stored",
 "For any well-formed TIFF, reading a directory entry yields exactly the tag id, type and values stored in the file, for every field type, every count (zero gives an empty list, one gives a scalar, more give a list in order), and wherever the values lie: inside the entry or at any offset the container can express, including beyond 4 GiB in BigTIFF. ASCII values are the text up to the first NUL with invalid UTF-8 replaced.",
 ["inputs","configurations"],"all field types x counts x placements x {II,MM} x {classic,BigTIFF} x entry order",
 "Unit tests sample about one value per type at fixed counts; inline/out-of-line boundaries, far offsets, odd byte patterns and combinations are not covered.",
 [R,F,RD],[("read_tag_value case split (0 / 1 / inline / out-of-line)",R+": read_tag_value"),("MetadataCursor + EndianAwareReader",F)],
 ["ImageFileDirectoryReader::read_tag","ImageFileDirectory::other_tags"])
prop("C02","Standard tags surface unchanged through the directory accessors",
 "For any set of tags in an IFD, each documented accessor returns the value of its own tag converted without loss whatever integer width it was stored in, absent optional tags are None and documented defaults apply (no compression, chunky layout, unsigned samples). Every tag without an accessor, and no other, appears unchanged among the remaining tags; a value that cannot be represented, or a missing required tag, makes reading fail instead of yielding a wrong value (only unrecognised planar-configuration, predictor and resolution-unit codes count as absent).",
 ["inputs"],"all subsets of the known tags x all legal integer widths x values incl. range limits x unknown tags",
 "The tests check a few accessors on a few fixture files; nothing checks that 45 accessors are wired to the right tag for every stored width.",
 [I,"src/tag_value.rs"],[("tag dispatch in ImageFileDirectory::from_tags",I),("TagValue::into_* conversions","src/tag_value.rs")],
 ["ImageFileDirectory accessors","ImageFileDirectory::from_tags"])
prop("C03","The directory chain is read completely, in order, once, and terminates",
 "Reading all directories returns every directory of the chain exactly once in file order; reading one at a time returns the same sequence, and has-next / next-offset always tell whether and where the next one is. A chain that loops back is reported as an error after finitely many reads, and an error while reading one directory leaves the reader positioned so that retrying it continues the same sequence.",
 ["inputs","histories","fault_sequences"],"chains of any length and physical order, II/MM, classic/BigTIFF, interleavings of stepwise and read-all calls, failures at any point",
 "Tests read fixture files with one or a few directories laid out sequentially; loops, backward chains, partial reads and retries are not exercised.",
 [R,"src/tiff.rs"],[("next_ifd_offset state machine",R+": TiffMetadataReader"),("visited offsets",R)],
 ["TiffMetadataReader::{read_next_ifd,read_all_ifds,read,has_next_ifd,next_ifd_offset}"],
 [("next_ifd_offset","offset of the next unread directory, None at the end",R),("read_ifd_offsets","directories already read",R)])
prop("C04","Byte order, container flavour and file layout do not change what is read",
 "Writing the same image and metadata as little- or big-endian, classic or BigTIFF, with values, directories and tiles placed anywhere in the file, gives identical directory contents (apart from the offsets themselves) and identical decoded pixels.",
 ["inputs","configurations"],"images x metadata x {II,MM}x{classic,BigTIFF} x physical layouts x codecs x predictors",
 "Fixtures fix one byte order and layout per image; the equivalence of representations is never compared.",
 [R,RD,PR,T],[("EndianAwareReader",RD),("fix_endianness",PR)],["accessors and Tile::decode"])
prop("C05","A tile index addresses its own bytes or is refused",
 "For every tiled image, the number of tiles is the exact ceiling of image size over tile size, and tile (x, y) maps to exactly the offset and length recorded for it (one range per band, in band order, for planar images). An index outside the grid, or without an entry in the tables, is refused and never mapped to another tile's bytes.",
 ["inputs"],"all image and tile sizes up to the 32-bit limits, band counts, offset tables, and indexes inside and outside the grid",
 "Tests fetch a handful of tiles of small images; size-rounding at large dimensions and every out-of-grid index are not sampled.",
 [I],[("tile_count",I),("TileByteRange::from_ifd_tile",I)],["tile_count","tile_byte_range","tiles_byte_ranges","fetch_tile","fetch_tiles"])
prop("C06","Fetching many tiles equals fetching each one",
 "For any list of tile indexes, in any order and with repeats, fetching them together returns, in the order asked, exactly the tiles that fetching each individually returns: same position, same bytes per band, same decoded pixels. If any index is invalid or any read fails the whole call fails.",
 ["inputs","histories"],"index lists x chunky/planar x band counts x readers with native or default multi-range support",
 "One test fetches a few tiles of one fixture.",
 [I],[("TilesByteRanges::into_fetch (flatten, fetch, regroup)",I)],["fetch_tiles vs fetch_tile","tiles_byte_ranges vs tile_byte_range"])
prop("C07","Losslessly compressed tiles decode to exactly the original samples",
 "For every lossless codec supported (none, Deflate and its old code, LZW, ZSTD, LZMA, LERC with and without inner Deflate/ZSTD, lossless WebP, lossless JPEG 2000), encoding any samples as a tile and decoding it returns exactly those samples, whatever the data type, band count, chunky or planar layout, predictor, byte order, tile size or encoder settings; padding that follows the end of a Deflate or LZW stream within the tile's byte count changes nothing.",
 ["inputs","configurations"],"samples x data types x bands x layouts x predictors x codecs x encoder settings x tile sizes",
 "Fixtures fix one small image per codec; most codec x type x layout x predictor x byte order combinations are never decoded.",
 [D,T,PR,A],[("Decoder impls",D),("Tile::decode pipeline",T)],["Tile::decode"])
prop("C08","Predictors are inverted exactly",
 "Decoding a tile stored with the horizontal or floating-point predictor returns exactly the samples that were differenced, for every sample width the predictor supports, any number of bands, row width and row count, both byte orders, chunky and planar: each row starts afresh, each band is differenced against itself, and arithmetic wraps.",
 ["inputs"],"samples incl. extreme values x {8,16,32,64}-bit ints, 32/64-bit floats x bands x widths x heights x II/MM x chunky/planar",
 "Fixture tests cover one or two images per predictor, mostly single band little-endian.",
 [PR,T],[("unpredict_hdiff / unpredict_float / fix_endianness",PR)],["Tile::decode"])
prop("C09","Decoded arrays agree with the tags, and disagreement is an error",
 "A successfully decoded tile has shape (height, width, bands) when chunky and (bands, height, width) when planar with the tile's full dimensions, the element type declared by sample format and bit depth (none if unsupported or inconsistent across bands), and exactly as many elements as its shape. A payload that decodes to too few bytes, or for multi-bit samples too many, is an error, never a short, padded or shifted array.",
 ["inputs"],"sample formats x bit depths (per band) x bands x dimensions x layouts x payload sizes around the exact size",
 "Unit tests check the type table for a few pairs and the shape of a few fixtures.",
 [T,A,"src/data_type.rs"],[("infer_shape",T),("Array::try_new length check",A),("DataType::from_tags","src/data_type.rs")],["Array::{shape,data_type,data,into_inner}"])
prop("C10","One-bit masks expand bit-exactly",
 "A tile of one-bit unsigned samples decodes to booleans where element i is true exactly when bit i of the stored data (most significant bit first) is set, for any tile size whose rows are whole bytes, any band count and layout, and any lossless codec; the data must hold enough bits or decoding fails.",
 ["inputs"],"bit patterns x sizes x bands x layouts x codecs x byte orders",
 "One small mask fixture is decoded.",
 [A,T],[("expand_bitmask",A)],["Tile::decode -> TypedArray::Bool"])
prop("C11","Typed arrays hold exactly the bytes they were built from",
 "Building a typed array from bytes and a data type gives, for every type, length and buffer, the native-endian reinterpretation of those bytes, with matching length, emptiness and byte view; a byte length that is not a whole number of elements is refused, and each data type reports the size of its elements. Converting a decoded array to an n-dimensional array keeps shape, type and every element at its position.",
 ["inputs"],"all data types x byte contents x lengths x buffer capacities/alignments x shapes",
 "Doc tests build two tiny arrays; buffers that cannot be reinterpreted in place and the ndarray conversion are barely exercised.",
 [A,"src/ndarray.rs"],[("TypedArray::try_new in-place cast / copying fallback",A),("NdArray TryFrom<Array>","src/ndarray.rs")],["TypedArray","NdArray"])
prop("C12","The readahead cache is transparent",
 "For any history of requests - any ranges, order, overlap or repetition, concurrent or cancelled midway, over a source that may fail or answer short at end of file - every successful answer of the readahead cache holds exactly the requested bytes of the source (cut only at its end), and a request inside the file fails only if the source failed. Opening a file through the cache therefore gives the same directories as opening it directly.",
 ["histories","schedules","fault_sequences","inputs"],"request histories x initial sizes x growth factors x source sizes x interleavings x cancellation points x source faults",
 "Two tests run a few sequential in-range fetches with fixed parameters.",
 [C],[("SequentialBlockCache::{contains,slice,append_buffer}",C),("mutex held across the fetch",C)],["ReadaheadMetadataCache as MetadataFetch"],
 [("buffers/len","contiguous bytes cached from offset 0",C)])
prop("C13","The readahead cache reads each byte once, sequentially, in growing requests",
 "Over any history of requests, the readahead cache asks its source only for the stretch that starts where its cached bytes end, never asks again for bytes it has received, makes no request when the answer is already cached and at most one otherwise. Each request is the larger of what is needed and the configured size: the initial size at first, then the growth factor times what is cached; so prefetching the reported header size lets a typical file's metadata be read in a single request.",
 ["histories","schedules","fault_sequences"],"request histories, concurrent or not, x initial size x multiplier x source faults and short answers x files",
 "One test counts the fetches of one sequence.",
 [C,"src/tiff.rs"],[("next_fetch_size",C),("header_byte_size","src/tiff.rs")],["requests seen by the wrapped source"])
prop("C14","Every byte source returns exactly the requested bytes or an error",
 "For any file and any list of byte ranges, every reader provided (file/stream via tokio, object store, HTTP, boxed and shared trait objects, and the default multi-range method) returns for each range, in order, exactly those bytes of the source, however the underlying stream fragments its reads and even if an HTTP server ignores range requests. A range reaching past the end yields only the available bytes or an error, and failures of the source are reported as errors.",
 ["inputs","configurations","fault_sequences"],"file contents x ranges and range lists x reader kinds x read fragmentation x server behaviours",
 "No test exercises the tokio or HTTP readers; object-store reads are only exercised through parsing fixtures.",
 [RD],[("TokioReader::make_range_request",RD),("ReqwestReader::make_range_request",RD),("ObjectReader",RD),("AsyncFileReader default/Box/Arc impls",RD)],["AsyncFileReader::{get_bytes,get_byte_ranges}"])
prop("C15","I/O failures surface as errors and never corrupt later reads",
 "If a read of the source fails, or answers short, at any point while opening a file, reading directories or fetching tiles, the operation in progress returns an error (never a panic, nor a result that differs from the fault-free one), and after the fault clears, retrying on the same reader and cache gives exactly the fault-free result.",
 ["fault_sequences","histories"],"every single fault position (k-th request) and random multi-fault sequences x fault kinds (error, truncated, empty) x files x cached/uncached",
 "No test injects a fault.",
 [R,C,I,F],[("`?` propagation through cursor, cache and fetch",F)],["all async entry points under an injected-fault reader"])
prop("C16","Malformed metadata is rejected without crash, hang or runaway memory",
 "For any byte sequence presented as a TIFF, and any tag values, opening it and reading its directories either succeeds or returns an error: it never panics, never loops forever or makes unboundedly many requests, and never allocates memory out of proportion to the file.",
 ["inputs"],"arbitrary and adversarially mutated files: counts, offsets, types, loops, overlaps, truncation; arbitrary tag maps",
 "Tests only parse valid files.",
 [R,I,"src/geo/geo_key_directory.rs",F],[("checked arithmetic and growth-on-read",R),("error returns in from_tags",I)],["TiffMetadataReader","ImageFileDirectory::from_tags","GeoKeyDirectory"])
prop("C17","Malformed tile data is rejected without crashing",
 "For any tile payload, JPEG tables, LERC parameters and any combination of dimensions, bit depth, bands, predictor and codec in the directory, fetching and decoding a tile either returns an error or an array consistent with the tags; it never panics, aborts or hangs.",
 ["inputs"],"random and mutated payloads for every codec x tag combinations incl. zero, odd and huge values",
 "Tests only decode valid tiles.",
 [D,T,PR,A],[("error mapping in decoders",D),("length checks",A)],["fetch_tile + Tile::decode"])
prop("C18","GeoTIFF keys are read exactly",
 "For any GeoKey directory, each known key appears in its own field with exactly its stored value - inline short, the referenced double, or the referenced slice of the ASCII parameters without its closing bar - unknown keys are skipped without disturbing others, and absent keys are None. The EPSG code is the projected type if present, otherwise the geographic type; malformed directories are errors.",
 ["inputs"],"subsets and orders of the 46 keys and unknown ids x locations x parameter arrays x II/MM",
 "Two fixture files are checked for a few keys.",
 [I,"src/geo/geo_key_directory.rs"],[("GeoKeyDirectory parsing",I),("GeoKeyDirectory::from_tags","src/geo/geo_key_directory.rs")],["ImageFileDirectory::geo_key_directory","GeoKeyDirectory::epsg_code"])
prop("C19","Tag value conversions preserve the value or refuse",
 "Converting a tag value to any integer, float, string or vector type returns exactly the numeric value(s) or text it holds, in order, or an error; it never truncates, wraps, changes sign or drops elements. Every integer conversion that widens within the same signedness succeeds, as do same-type float, text and list conversions.",
 ["inputs"],"all value kinds x all conversions x values around every integer limit x lists incl. mixed lists",
 "No unit test covers the conversions.",
 ["src/tag_value.rs"],[("TagValue::into_*","src/tag_value.rs")],["TagValue::into_*"])
prop("C20","Decoding uses exactly the registered decoder with exactly the tile's parameters",
 "A tile is decoded by the decoder registered for its compression code - user-defined, overriding or built-in - called once with the tile's exact bytes (once per band with one sample, in band order, for planar tiles) and the directory's photometric interpretation, JPEG tables, bit depth, band count and LERC parameters; its output is what ends up in the array and its error is returned. A code with no decoder is reported as unsupported compression, whatever the code.",
 ["inputs","configurations","histories"],"compression codes (all 65536) x registries x layouts x tags x decoder outcomes",
 "One doc test builds a registry; no test registers a custom decoder.",
 [D,T],[("DecoderRegistry",D),("Tile::decode dispatch",T)],["Decoder::decode_tile calls","Tile::decode result"])
prop("C21","Tag and enumeration codes follow the TIFF specification both ways",
 "Every 16-bit code converts to the named tag, type, compression, photometric, planar, predictor, resolution-unit, extra-sample or sample-format value the specification assigns, and back to the same code; unassigned codes are refused or kept as unknown with their number. Distinct codes never become equal values.",
 ["inputs"],"all 65536 codes of every enumeration (exhaustive)",
 "No test covers the code tables.",
 ["src/tags.rs"],[("tags! macro tables","src/tags.rs")],["from_u16 / from_u16_exhaustive / to_u16"])
prop("C22","Reading metadata never reads image data, and a tile costs exactly its bytes",
 "Opening a file and reading its directories requests only bytes of the header, the directories and their out-of-line values. Fetching a tile requests exactly the byte ranges recorded for it, each once, in one batch for several tiles; decoding performs no I/O, and the header size reported is the smallest recorded non-zero image-data offset.",
 ["inputs","histories"],"files x layouts x tile index lists x chunky/planar",
 "Tests never look at which bytes are requested.",
 [R,I,T,"src/tiff.rs"],[("per-tag cursor reads",R),("into_fetch single batch",I)],["requests logged by a custom reader"])
prop("C23","JPEG tiles decode with shared tables and the right colour handling",
 "A JPEG tile decodes to the image it encodes whether its quantisation and Huffman tables are in the tile or in the shared JPEGTables tag; grayscale and RGB components are returned untransformed, YCbCr is converted to RGB, four-component CMYK is returned as the complement of the stored components (the Adobe JPEG convention), and other interpretations are refused.",
 ["inputs","configurations"],"images x sizes x quantisation x table placement x photometric interpretations x layouts",
 "One JPEG fixture is decoded.",
 [D],[("decode_modern_jpeg",D)],["Tile::decode"])
prop("C24","Concurrent use gives the same results as sequential use",
 "When any number of tasks share one reader, one metadata cache and one set of directories - fetching tiles, reading directories and decoding in any interleaving, some cancelled midway - every completed operation returns what it would have returned alone, and none waits forever.",
 ["schedules","histories"],"task sets x interleavings at every await point x cancellation points x readers (stream-backed, in-memory, cached)",
 "Tests are sequential or run one operation at a time.",
 [RD,C,I],[("mutex around seek+read",RD),("mutex around the cache",C)],["TokioReader, ReadaheadMetadataCache, fetch_tile(s), Tile::decode"])
prop("C25","The Python bindings expose the same data as the Rust library",
 "For any file, store and decoder, the Python API returns what the Rust API gives for the same input: every directory attribute, mapping item and key list, GeoKey and raw tag (codes as members of the enumerations, whose values are the TIFF codes); tile ranges, compressed bytes and decoded arrays as read-only row-major buffers whose shape, format, strides and byte length describe exactly that data and stay valid while held; the same ranges are requested from a Python store, custom decoders receive the tile's bytes, a tile decodes once, and every refusal or failing store is a Python exception, never a panic, a crash or memory outside the data.",
 ["inputs","histories"],"files x python accessors x Python and Rust stores with faults x custom decoders x thread pools x Array constructor arguments",
 "The Python tests cover a few fixtures over the network.",
 ["python/src/array.rs","python/src/ifd.rs","python/src/tile.rs"],[("pyo3 wrappers","python/src"),("enumerations","python/python/async_tiff/enums.py")],["async_tiff Python module"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
