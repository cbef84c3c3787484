T = "Trusts rustc/LLVM lowering, the symbolic executor (its path models are replayed against the native build on every run) and z3."
p("C01", "Bits written are the bits read back, for every write sequence",
  "Any sequence of single-bit, multi-bit and byte writes to the bit writer, read back with the same sequence of widths, returns the same values; the number of bits and bytes it reports equals what was written; moving its cursor back discards exactly the bits after it; and after a reset it behaves like a new writer.",
  ["inputs", "histories"], "all values and all sequences of writes with widths 0..64 at every bit alignment",
  "The doc tests write a handful of fixed values at a few alignments; the guarantee is over every value at every alignment and after every reset.",
  ["io/bit_write.rs", "io/bit_read.rs"], [("BufferedBitWriter", "io/bit_write.rs"), ("BitWrite", "io/bit_write.rs")],
  "All values for up to 3 writes of any width 0..64 at all 8 alignments (see evidence bounds). " + T,
  how="the real BufferedBitWriter and reader are executed on symbolic values, widths and alignments; oracle: the values themselves, a bit list kept by the harness and the counts.")
p("C02", "The bit reader returns exactly the stored bits and refuses to read past the end",
  "For every buffer and every sequence of bit, multi-bit, byte, peek, skip and reset operations, the bit reader returns the stored bits in order, peeking does not move it, and asking for more bits than remain yields nothing instead of wrong bits or a crash.",
  ["inputs", "histories"], "all buffer contents up to the bound, all operation sequences, all widths",
  "The doc tests read fixed buffers with a few fixed widths; the end-of-buffer cases at every alignment and mixed operation sequences are not sampled.",
  ["io/bit_read.rs"], [("BufferedBitReader", "io/bit_read.rs"), ("BitRead2", "io/bit_read.rs")],
  "All contents of buffers up to the bound, all operation sequences up to the bound. " + T,
  how="the real BufferedBitReader is executed on symbolic buffers and operation sequences; oracle: the bits of the buffer, indexed by a position the harness keeps.")
XW = "Unit tests round-trip a few literal vectors; correctness must hold for every bit pattern of every value and every pair of adjacent XOR shapes (leading and trailing zero counts), which no finite sample covers."
def xor(id, name, f, extra=""):
    p(id, f"{name} files decode to bit-identical values",
      f"Encoding any sequence of doubles with the {name} compressor and decoding the file returns the same number of values, each bit-identical to the input, including signed zeros, infinities, subnormals and NaN payloads (the canonical NaN, which the format uses as its end marker, excepted{extra}).",
      ["inputs"], "all sequences of doubles", XW,
      [f"compressor/{f}.rs", f"decoder/chunk_reader/{f}.rs", "compressor/general_xor.rs", "decoder/chunk_reader/general_xor.rs", "encoder.rs", "decoder.rs"],
      [(f"{name} encoder", f"compressor/{f}.rs"), (f"{name} decoder", f"decoder/chunk_reader/{f}.rs")],
      "Every (leading, trailing) zero shape of the XOR of neighbouring values with symbolic middle bits, sequences of 1 to 3 values plus the end marker, through the file API. " + T,
      how="the real encoder and decoder are executed over symbolic leading/trailing zero shapes and symbolic bits between; oracle: the input, bit for bit.")
xor("C03", "Gorilla", "gorilla")
xor("C04", "Chimp", "chimp")
xor("C05", "Chimp128", "chimp_n")
p("C06", "Elf and Elf-on-Chimp files decode to bit-identical values",
  "Encoding any sequence of doubles with the Elf or the Elf-on-Chimp compressor and decoding the file returns the same number of values, each bit-identical to the input: what the erasing step removes, the decoder restores exactly. (NaNs, which share the format's end marker, excepted.)",
  ["inputs"], "all sequences of doubles other than NaN", "Whether erased bits can be restored depends on the decimal expansion of every single double, including signs, zeros, infinities and very small values; tests try a few decimals.",
  ["compressor/elf.rs", "decoder/chunk_reader/elf.rs", "compression_common/elf.rs", "compressor/general_xor.rs", "decoder/chunk_reader/general_xor.rs"],
  [("Elf encoder", "compressor/elf.rs"), ("Elf decoder", "decoder/chunk_reader/elf.rs"), ("erasing and restoring", "compression_common/elf.rs")],
  "All decimals of up to 12 bits over seven powers of ten (1 value), 6 and 4 bits (2 and 3 values), zeros and infinities, through the file API; every XOR shape through the Elf XOR codec. " + T,
  how="the real encoder and decoder are executed on symbolic decimals and on symbolic XOR shapes; oracle: the input, bit for bit.")
p("C07", "Run-length files decode to bit-identical values, and rewinding undoes appends",
  "Encoding any sequence of doubles with run-length encoding and decoding the file returns bit-identical values, whatever the pattern and length of runs (also beyond 255); after any sequence of appends and rewinds the compressor holds exactly the records appended and not rewound, and a rewind of more records than are held fails and changes nothing.",
  ["inputs", "histories"], "all sequences of doubles, all append/rewind histories", "Run boundaries depend on equality of neighbouring bit patterns and on the 255 limit; tests use a few fixed runs and never rewind across fields.",
  ["compressor/run_length.rs", "decoder/chunk_reader/run_length.rs", "format/run_length.rs"],
  [("RunLengthCompressor", "compressor/run_length.rs"), ("RunLengthReader", "decoder/chunk_reader/run_length.rs")],
  "Every equality pattern of 5 symbolic values, runs around 255 and 510, append/rewind histories of 4 operations. " + T,
  how="the real compressor, file writer and reader are executed on symbolic values and histories; oracle: the input, and a plain list that is pushed and popped.")
p("C08", "Uncompressed, zstd, gzip, snappy and ALP files decode to bit-identical values",
  "Encoding any sequence of doubles with the uncompressed, zstd, gzip, snappy or ALP scheme and decoding the file returns bit-identical values (given that the third-party coder inverts itself); the uncompressed compressor holds exactly the records appended and not rewound and counts their bytes.",
  ["inputs", "histories"], "all sequences of doubles, all append/rewind histories", "The byte reinterpretation, sizes and chunk limits must fit for every length and chunking and whatever the coder returns; tests try single random vectors.",
  ["compressor/uncompressed.rs", "decoder/chunk_reader/uncompressed.rs", "compressor/zstd.rs", "compressor/gzip.rs", "compressor/snappy.rs", "compressor/ffi_alp.rs", "decoder/chunk_reader/zstd.rs", "decoder/chunk_reader/gzip.rs", "decoder/chunk_reader/snappy.rs", "decoder/chunk_reader/ffi_alp.rs"],
  [("UncompressedCompressor", "compressor/uncompressed.rs"), ("ZstdReader", "decoder/chunk_reader/zstd.rs"), ("GzipReader", "decoder/chunk_reader/gzip.rs"), ("SnappyReader", "decoder/chunk_reader/snappy.rs")],
  "1 to 6 fully symbolic values in one or more chunks; third-party coders replaced by contract stubs with short reads. " + T,
  how="the real compressors and readers are executed around contract stubs of the third-party coders (which invert themselves and read short); oracle: the input, bit for bit.")
p("C09", "Delta-Sprintz files decode to the nearest multiple of the scale's step",
  "Encoding any sequence of doubles with the delta-Sprintz compressor at a scale s and decoding the file returns as many values, each the input rounded to the nearest multiple of 1/s; in particular inputs that are multiples of 1/s come back unchanged, however far neighbouring values are apart.",
  ["inputs"], "all sequences of finite doubles within 2^61 steps, all scales below 2^32", "The width of the packed deltas depends on the largest jump in the data; sign handling, width 0 and widths beyond 56 bits each need particular neighbours. Tests use one or two sequences of small decimals.",
  ["compressor/sprintz.rs", "decoder/chunk_reader/sprintz.rs"],
  [("DeltaSprintzCompressor", "compressor/sprintz.rs"), ("DeltaSprintzReader", "decoder/chunk_reader/sprintz.rs")],
  "1 to 5 values of up to 11 symbolic bits, deltas of every width 0..61, eight scales, on and off the grid. " + T,
  how="the real encoder and decoder are executed on symbolic data; oracle: round(v*s)/s; every internal overflow, out-of-bounds access and panic is a violation as well.")
p("C10", "BUFF keeps every value to its precision, and reads back the precision asked for",
  "Encoding any sequence of doubles with the BUFF compressor at scale 10^p and decoding returns as many values, each the input cut towards zero to the number of fractional bits BUFF assigns to p decimals, so decimals with at most p places come back exactly by rounding; reading with controlled precision q returns values below the full ones by less than the precision of q, and the full values if q >= p.",
  ["inputs"], "all sequences of doubles within 2^61 steps of the precision, scales 1 to 10^12", "Bit positions depend on the exponent of each value, on the range spanned by the chunk (0 to 62 bits, up to 8 sub-columns) and on sign; tests use a few decimals of one range.",
  ["compression_common/buff.rs", "compressor/buff.rs", "decoder/chunk_reader/buff.rs", "decoder/chunk_reader/buff/decode.rs"],
  [("into_fixed_representation", "compression_common/buff.rs"), ("BitPack", "compression_common/buff.rs"), ("BUFFCompressor", "compressor/buff.rs"), ("BUFFReader", "decoder/chunk_reader/buff.rs")],
  "Every exponent with 11 symbolic mantissa bits (1 value), every width of the range 0..62 (2, 3 and 9 values), decimals of 11 bits over 13 scales, controlled precisions 0..12. " + T,
  how="the real encoder and decoder are executed on symbolic data; oracle: a bit-level cut of the input written independently in the harness, and the decimal itself.")
p("C11", "A file's header and footer give back the settings and sizes it was written with",
  "For every compressor and every value of its settings (capacity, scale, level), every chunk option and any number of records including none, opening the written file reports the same compressor configuration, compression scheme and chunk option, the right number of records and chunks, and sizes that add up to the file's length; timing records survive unchanged.",
  ["inputs"], "all settings of all compressors, all chunk options and limits", "Each field is written and parsed by hand-laid-out code; tests use default settings.",
  ["format.rs", "format/native.rs", "format/serialize.rs", "format/deserialize.rs", "compressor.rs", "encoder.rs", "decoder.rs", "time.rs"],
  [("CompressorConfig::serialize", "compressor.rs"), ("write_footer", "encoder.rs"), ("fetch_footer", "decoder.rs")],
  "All 13 configurations with fully symbolic 64-bit settings; files of 0 to 3 records; header limits symbolic. " + T,
  how="the real header, footer and configuration code is executed with symbolic settings; oracle: the settings given, and the file's length.")
p("C12", "Chunking neither loses nor reorders records, and the chunk directory is exact",
  "For every compressor, number of records and chunk option (full, record count, byte size), the chunks of the file are non-empty, do not overlap, start at the record their footer says, hold the number of records requested, and concatenated in order give back the input exactly; an empty input gives a readable file without chunks.",
  ["inputs"], "all inputs, all chunk options", "Chunk boundaries, the short last chunk and compressor reuse between chunks combine with every length; tests use one chunk size.",
  ["encoder.rs", "api/encoder.rs", "decoder.rs", "api/decoder.rs"],
  [("ChunkWriter::write", "encoder.rs"), ("GeneralChunkHandle", "decoder.rs"), ("Decoder::materialize", "api/decoder.rs")],
  "All 13 compressors, 0 to 6 records, record counts 1 to 7, four byte sizes; values symbolic for the byte-oriented schemes. " + T,
  how="the real chunk writer and chunk handles are executed over symbolic data and chunk options; oracle: the input cut at the requested positions.")
p("C13", "Short, interrupted or failing reads and writes never lose or alter records",
  "However the input stream, output stream or file reader splits its transfers (short reads and writes, interruptions), encoding followed by decoding returns the input; and when a stream fails with an error, the operation reports an error rather than success with missing records. Bytes after the last whole record are ignored.",
  ["schedules", "fault_sequences", "inputs"], "all schedules of short, interrupted and failing transfers within the bound", "Tests use in-memory streams that always transfer everything.",
  ["encoder.rs", "api/encoder.rs", "api/decoder.rs", "decoder.rs", "decoder/query.rs"],
  [("read_less_or_equal", "encoder.rs"), ("ChunkWriter::write", "encoder.rs"), ("default_materialize", "decoder/query.rs")],
  "Every schedule of two disturbed calls among the first 16, and a failure from any of the first 16 calls on; symbolic data. " + T,
  how="the real encoder and decoder are executed over streams whose every transfer length, interruption and failure is a symbolic choice; oracle: the input, or an error.")
p("C14", "Materialize writes exactly the records asked for, in order, for every scheme",
  "For every compression scheme, chunking, chunk id (or none) and bitmask (or none), materialize writes exactly the records that are in the chunk and in the mask, in ascending order, with the values full decompression gives; records in the mask beyond the end of the file are ignored.",
  ["inputs"], "all data, masks, chunkings and chunk ids", "The mask must be translated to chunk-local positions in every chunk and in both the in-memory and the streaming readers; tests use one mask on one chunk.",
  ["api/decoder.rs", "decoder/query.rs", "decoder/chunk_reader.rs"],
  [("Decoder::materialize", "api/decoder.rs"), ("default_materialize", "decoder/query.rs")],
  "All 13 schemes, 1 to 5 records, chunks of 1 to 3 or one, every subset of the records as mask, every chunk id. " + T,
  how="the real file is written, then materialized with each chunk id and mask; oracle: the input, indexed.")
p("C15", "Filter returns exactly the records that satisfy the predicate (exact schemes)",
  "For every scheme that keeps values exactly, every predicate (equal, not equal, ranges with inclusive, exclusive or absent bounds; constants including NaN, infinities and signed zeros), chunking, chunk id and bitmask, filter returns exactly the indices of the records in the chunk and in the mask whose value satisfies the predicate under IEEE comparison.",
  ["inputs"], "all data, predicates, masks, chunkings and chunk ids", "The verdict on NaN, signed zeros and interval ends, over runs and chunk boundaries, cannot be sampled; tests use one predicate on one vector.",
  ["api/decoder.rs", "decoder/query.rs", "decoder/chunk_reader/run_length.rs", "decoder/chunk_reader.rs"],
  [("Decoder::filter", "api/decoder.rs"), ("default_filter", "decoder/query.rs"), ("RunLengthReader::filter", "decoder/chunk_reader/run_length.rs")],
  "3 fully symbolic values and two fully symbolic constants, 11 predicate shapes, every mask of 3 records, chunks of 1, 2 and one. " + T,
  how="the real filter is executed with symbolic values and predicate constants; oracle: IEEE comparison in the harness.")
p("C16", "In-place filters (BUFF, delta-Sprintz) agree with filtering the decoded values",
  "For BUFF and delta-Sprintz files, which answer filters on the compressed form, every predicate, chunking, chunk id and bitmask gives exactly the records in the chunk and in the mask whose decoded value satisfies the predicate, also for constants outside the range of the data, NaN, infinities and huge constants, for chunks of any value range and of any length (scalar and SIMD code). (BUFF cuts constants to the scale's precision first.)",
  ["inputs"], "all data, predicates, masks, chunkings and chunk ids", "BUFF compares byte column by byte column with early exits that depend on ties in higher columns, and uses SIMD from 32 records on; each combination of range, tie and bound shape is a different path. Tests use one predicate.",
  ["decoder/chunk_reader/buff.rs", "decoder/chunk_reader/buff/filter.rs", "decoder/chunk_reader/buff/filter_cmp.rs", "decoder/chunk_reader/buff/filter_eq.rs", "decoder/chunk_reader/sprintz.rs", "compression_common/buff.rs"],
  [("BUFFReader::filter", "decoder/chunk_reader/buff.rs"), ("filter_cmp", "decoder/chunk_reader/buff/filter_cmp.rs"), ("filter_eq", "decoder/chunk_reader/buff/filter_eq.rs"), ("DeltaSprintzReader::filter", "decoder/chunk_reader/sprintz.rs")],
  "2 to 3 symbolic records and constants over value ranges of 0 to 40 bits, 35 to 70 records for the SIMD code, 11 predicate shapes, masks and chunk ids. " + T,
  how="the real filter (scalar and AVX2 code, the latter through lane-by-lane models of the intrinsics) is executed with symbolic data and constants; oracle: IEEE comparison of the decimals in the harness.")
p("C17", "Sum, min and max cover exactly the records asked for (exact schemes)",
  "For every scheme that keeps values exactly, every chunking, chunk id and bitmask, sum, min and max are those of the records that are in the chunk and in the mask: no record is left out, counted twice or taken from outside; NaN values are passed over by min and max and carried by sum.",
  ["inputs"], "all data, masks, chunkings and chunk ids", "Which record decides a minimum, and in which chunk or run it lies, is different for every input; tests ask one file with one mask.",
  ["api/decoder.rs", "decoder/query.rs", "decoder/chunk_reader.rs", "decoder/chunk_reader/run_length.rs"],
  [("Decoder::sum", "api/decoder.rs"), ("default_sum", "decoder/query.rs"), ("default_min", "decoder/query.rs"), ("RunLengthReader::sum", "decoder/chunk_reader/run_length.rs")],
  "3 fully symbolic values (min, max), 3 symbolic quarters (sum), every mask of 3 records, chunks of 1, 2 and one. " + T,
  how="the real queries are executed on files of symbolic values; oracle: is the result one of the selected records and below all of them, and the sum in the harness (all additions exact, so that the order does not matter).")
p("C18", "In-place sum, min and max (BUFF, delta-Sprintz) agree with the decoded values",
  "For BUFF and delta-Sprintz files, which compute on the compressed form, sum, min and max equal those of the decoded values of the records in the chunk and in the mask, for every value range of the chunk, sign, mask, chunking and chunk id, including chunks of equal values.",
  ["inputs"], "all data, masks, chunkings and chunk ids", "The in-place code works byte column by byte column, with candidates narrowed column after column; the number of columns and the ties depend on the data. Tests use one data set.",
  ["decoder/chunk_reader/buff.rs", "decoder/chunk_reader/buff/sum.rs", "decoder/chunk_reader/buff/min_max.rs", "decoder/chunk_reader/sprintz.rs"],
  [("BUFFReader::sum", "decoder/chunk_reader/buff.rs"), ("sum", "decoder/chunk_reader/buff/sum.rs"), ("min_max", "decoder/chunk_reader/buff/min_max.rs"), ("DeltaSprintzReader::sum", "decoder/chunk_reader/sprintz.rs")],
  "2 and 3 symbolic records over value ranges of 0 to 51 bits, 9 and 33 records with 2 symbolic, masks and chunk ids. " + T,
  how="the real in-place code is executed on symbolic records; oracle: sum, min and max of the decimals in the harness, up to 10^-12 relative for sums.")
p("C19", "filter_materialize writes exactly the records that satisfy the predicate",
  "For every scheme, predicate, chunking, chunk id and bitmask, filter_materialize writes the values of exactly the records in the chunk and in the mask that satisfy the predicate, in ascending order of their index, as decompression gives them.",
  ["inputs"], "all data, predicates, masks, chunkings and chunk ids", "It is a second implementation of filtering and of materializing in several schemes; tests compare the two on one input.",
  ["api/decoder.rs", "decoder/query.rs", "decoder/chunk_reader/run_length.rs", "decoder/chunk_reader/sprintz.rs", "decoder/chunk_reader/buff.rs"],
  [("Decoder::filter_materialize", "api/decoder.rs"), ("default_filter_materialize", "decoder/query.rs")],
  "All 13 schemes, 2 or 3 records, symbolic values and constants, 11 predicate shapes, masks and chunk ids. " + T,
  how="the real filter_materialize is executed with symbolic data and constants; oracle: IEEE comparison over the input in the harness.")
p("C20", "Compressors report their sizes exactly and can be reused",
  "For every compressor: the bytes it reports as taken in are the size of the input last given (zero after a reset), the bytes it reports as buffered are exactly the bytes it then hands out, and compressing with a used or reset compressor produces the same bytes as with a new one.",
  ["inputs", "histories"], "all inputs and reuse histories of all compressors", "Residual state shows only for particular pairs of inputs (leading-zero windows, hash tables, open runs); tests use one input twice.",
  ["compressor.rs", "compressor/general_xor.rs", "compressor/chimp_n.rs", "compressor/elf.rs", "compressor/buff.rs", "compressor/sprintz.rs", "compressor/zstd.rs"],
  [("Compressor", "compressor.rs"), ("GeneralXorCompressor", "compressor/general_xor.rs"), ("Chimp128Compressor", "compressor/chimp_n.rs")],
  "All 13 compressors, two inputs of one or two symbolic values, with and without reset and prepare between. " + T,
  how="the real compressors are executed twice on symbolic inputs; oracle: a fresh compressor on the second input, and the length of what is handed out.")
p("C22", "Queries on one reader do not influence each other",
  "On one chunk reader, and on one decoder, every operation (decompression, iteration, materialize, filter, filter_materialize, sum, min, max, dot product, squared distance; any mask) gives the same result whatever operations were run before it, for every scheme; a BUFF reader asked for one controlled precision after another always returns values at least as precise as asked for last.",
  ["histories", "inputs"], "all sequences of operations on one reader, all data", "Readers keep decompressed values, cursors and partly read headers between calls; tests build a new reader for each query.",
  ["decoder/chunk_reader.rs", "decoder/query.rs", "decoder.rs", "decoder/chunk_reader/buff.rs", "decoder/chunk_reader/sprintz.rs", "decoder/chunk_reader/run_length.rs", "decoder/chunk_reader/general_xor.rs"],
  [("GeneralChunkReader", "decoder/chunk_reader.rs"), ("Reader", "decoder/chunk_reader.rs"), ("Decoder::chunk_reader", "api/decoder.rs")],
  "All 13 schemes, sequences of 2 operations (3 in thorough) on one chunk reader, and of 3 on one decoder. " + T,
  how="the real reader is driven through every sequence of operations on symbolic data; oracle: each operation's definition over the input, independent of what came before.")
p("C23", "knn1 returns a nearest vector",
  "For every file seen as consecutive vectors of the target's length, knn1 returns the index of a vector with the least squared distance to the target and that distance, whatever the chunking (vectors within a chunk or across chunks); records after the last whole vector are ignored; a file without a whole vector or an empty target does not crash.",
  ["inputs"], "all data, targets, dimensions and chunkings", "Distances of vectors that cross chunk boundaries are added up piece by piece; the tests' chunk sizes are multiples of the vector length.",
  ["api/decoder.rs", "decoder/query.rs"],
  [("Decoder::knn1", "api/decoder.rs"), ("default_distance_squared", "decoder/query.rs")],
  "Vectors of 1 to 4 components, up to 4 of them, chunks of 1 to 5 records; 3 symbolic records and 1 symbolic target component. " + T,
  how="the real knn1 is executed on symbolic files; oracle: the distances of all vectors, computed in the harness.")
p("C24", "Matrix products and dot products equal their definition, whatever the chunking",
  "For every file seen as a batch of row-major matrices, every target matrix and chunking, matmul returns the product of each data matrix with the target; dot product and squared distance at any offset of a chunk equal their definition; shapes that do not fit give an error.",
  ["inputs"], "all data, shapes and chunkings", "Rows that cross chunk boundaries are added up piece by piece; tests use one shape that fits the chunks.",
  ["api/decoder.rs", "decoder/query.rs", "decoder/chunk_reader/sprintz.rs"],
  [("Decoder::matmul", "api/decoder.rs"), ("default_dot_product", "decoder/query.rs"), ("default_distance_squared", "decoder/query.rs")],
  "Matrices of 1 to 3 rows and columns, batches of 0 to 3, chunks of 1 to 7 records; 3 symbolic records and 1 symbolic target element. " + T,
  how="the real matmul, dot product and distance are executed on symbolic files; oracle: the triple loop in the harness (all arithmetic exact).")
p("C25", "Aggregations of column expressions equal their record-by-record definition",
  "For every arithmetic expression over columns and literals, aggregation (sum, min, max, none), bitmask and chunking, the result equals evaluating the expression record by record on the selected records and aggregating; computing several at once gives the same as one at a time.",
  ["inputs"], "all data, expressions, aggregations and masks", "Single columns take the in-place path, other expressions a record-by-record one, chunk results are merged per kind, and operators are not commutative; every combination of shape, kind, mask and chunking must agree. Tests use a few expressions.",
  ["api/decoder.rs", "decoder/expr.rs"],
  [("Aggregation::compute", "api/decoder.rs"), ("AggregationKind::dispatch", "api/decoder.rs"), ("Expr::compute_chunk", "decoder/expr.rs")],
  "Columns of 3 records in chunks of 1, 2 or one; expressions of depth 1 and 2 with all operators; 4 symbolic records. " + T,
  how="the real compute and compute_multiple are executed on symbolic columns; oracle: a record-by-record evaluator in the harness.")
p("C26", "A file that is cut short, unfinished or damaged is refused when it is opened",
  "Opening a file that was cut at any length, that an encoder left behind when it was stopped or failed before finishing (at any write), or whose magic number, footer offset, record or chunk counts or compressor settings are damaged returns an error, or the whole data; it never panics, allocates beyond the file's size, or takes an unfinished file for a finished one.",
  ["crash_points", "inputs"], "all cut lengths, all stopping points of the encoder, all header and footer contents", "What a cut or unfinished file looks like depends on where it stopped: an unfinished file has a zero footer offset, so that the header is read as a footer. No test opens such a file.",
  ["decoder.rs", "api/decoder.rs", "encoder.rs", "api/encoder.rs", "format/deserialize.rs"],
  [("FileReader::fetch_header", "decoder.rs"), ("FileReader::fetch_footer", "decoder.rs"), ("Encoder::encode", "api/encoder.rs")],
  "All 13 schemes, files of 0 to 3 records cut at every length, encoders stopped at each of the first 12 writes, symbolic headers and footers. " + T,
  how="the real encoder is stopped at a symbolic write, the real decoder opens the result; oracle: an error, or the whole input.")
p("C27", "Damaged chunk data never makes the decoder touch memory outside its buffers",
  "Whatever bytes the chunks of a file hold, decompressing and querying them gives values, an error or a panic, but never a read or write outside the decoder's buffers.",
  ["inputs"], "all contents of chunk bytes", "The decoders trust widths, counts and indices found in the data and use unsafe code (slices over uninitialized vectors, SIMD loads); only particular damaged bytes could reach outside. Tests only read intact files.",
  ["decoder/chunk_reader/buff.rs", "decoder/chunk_reader/buff/filter_eq.rs", "decoder/chunk_reader/buff/filter_cmp.rs", "decoder/chunk_reader/chimp_n.rs", "decoder/chunk_reader/gorilla.rs", "decoder/chunk_reader/chimp.rs", "decoder/chunk_reader/elf.rs", "decoder/chunk_reader/sprintz.rs", "decoder/chunk_reader/run_length.rs", "decoder/chunk_reader/uncompressed.rs"],
  [("Chimp128 decoder", "decoder/chunk_reader/chimp_n.rs"), ("equal_simd", "decoder/chunk_reader/buff/filter_eq.rs"), ("comp_simd", "decoder/chunk_reader/buff/filter_cmp.rs")],
  "Any 2 neighbouring bytes (XOR schemes, RLE, uncompressed) or 3 neighbouring bits of any byte (BUFF, delta-Sprintz, Elf) of small chunks. " + T,
  how="the real decoder is executed on chunks with symbolic bytes; every load and store is checked against the bounds of its allocation, over all values.")
p("C21", "Encoding and decoding by file path does what it does in memory",
  "Encoding a file to a path writes, whatever was there before, exactly a file that decodes to the input; decoding to a path leaves exactly the decoded records there; with or without buffering, however the system splits transfers or interrupts them; inputs are left as they were and files are closed; a missing input is an error; and when a read, write or seek of a file fails, success is reported only if the result is complete.",
  ["inputs", "fault_sequences"], "all contents, previous contents of the target, buffering choices, transfer sizes and failing calls", "A stale tail of a previous file, an error swallowed when a buffer is flushed, or a short transfer each need a particular previous file or a particular failing call; the tests write to memory only.",
  ["api/encoder.rs", "api/decoder.rs", "encoder.rs", "decoder.rs"],
  [("EncoderInput::from_file, EncoderOutput::from_file, into_buffered", "api/encoder.rs"), ("DecoderInput::from_file, DecoderOutput::from_file, into_buffered", "api/decoder.rs")],
  "The real API and the standard library's File, BufReader and BufWriter over a model of the file system calls; any failing or interrupted call among the first 24. " + T,
  how="the real API is executed down to the C library's open, read, write, lseek, close and fstat, for which the harness defines a model of files (used by the native replay as well); symbolic contents, previous files, transfer sizes and failing call; oracle: the input's bytes and the file's exact length.")
p("C28", "Reported execution times are those of the operation and count no time twice",
  "For encodings, queries and aggregations, the segment times reported are sums of non-overlapping intervals within that operation: together they never exceed the time it took, time spent reading or writing streams is reported as such, nothing of an earlier operation is included, and a file's elapsed time is the time from the encoder's creation to its end. A timer adds (or sets) exactly the time between its start and its stop, once; adding and storing times preserves them.",
  ["inputs", "histories"], "all clock readings, all schemes, chunkings and sequences of operations", "Times differ from run to run, so that no test compares them; a segment counted twice or left over from the previous chunk or query shows only for particular schemes and chunkings.",
  ["time.rs", "encoder.rs", "api/encoder.rs", "api/decoder.rs", "decoder/expr.rs", "decoder/query.rs", "compressor/general_xor.rs", "compressor/buff.rs", "compressor/sprintz.rs", "compressor/chimp_n.rs"],
  [("SegmentTimer", "time.rs"), ("SegmentedExecutionTimes", "time.rs"), ("Encoder::encode", "api/encoder.rs"), ("Aggregation::compute_multiple", "api/decoder.rs")],
  "All 13 schemes; a symbolic amount of time passing between any two clock readings among the first 40 (encoding), 20 (query), 60 (aggregation) or in any of 16 stream calls. " + T,
  how="the harness defines the clock the standard library reads; the real encoder, queries and timers are executed with symbolic time passing at a symbolic reading or in a symbolic stream call; oracle: the clock itself.")
p("C30", "The GPU matrix product equals the one on the CPU",
  "With the cuda feature, matmul_cuda returns what matmul returns, for every file, shape and chunking.",
  ["inputs"], "all files and shapes", "Shapes and chunk boundaries vary.", ["api/decoder.rs"], [("matmul_cuda", "api/decoder.rs")], "",
  na="the product is computed by cuBLAS on a GPU through cuda-binding: neither the library nor a device exists here, and its code is not available as IR; the feature cannot be built.")
p("C31", "zstd, gzip, snappy and ALP coders invert themselves",
  "Decompressing what the third-party coder produced gives back its input, for every input.",
  ["inputs"], "all inputs", "Coders have many input-dependent paths.", ["compressor/zstd.rs", "compressor/gzip.rs", "compressor/snappy.rs", "compressor/ffi_alp.rs"], [("ZstdCompressor", "compressor/zstd.rs")], "",
  na="the coders are third-party code and no part of the repository (zstd is a C library, ALP's C++ sources are missing here), with entropy coding over tables whose symbolic execution is out of reach; C08 takes their contract as given and checks everything around it.")
p("C29", "csv2bin writes exactly the numbers of the text, or reports an error",
  "For a text of comma-separated numbers in lines, csv2bin writes beside it exactly the little-endian doubles of its fields, in order and nothing else, whatever was in the output file before and however the system splits transfers or interrupts them; the text is left as it was. A field that is no number, a failing read and a failing write, including the last, are reported as errors.",
  ["inputs", "fault_sequences"], "all texts, previous outputs, transfer sizes and failing calls", "Empty fields, line ends and numbers split between buffers need particular texts; a write that fails when the last buffer is flushed needs a full disk at that moment. There are no tests of the tool.",
  ["../../tools/src/csv2bin.rs"], [("process_file", "../../tools/src/csv2bin.rs")],
  "Texts of up to 6 fields, and 3000 fields; failing calls among the first 8. " + T,
  how="the tool's own source is compiled into the harness and executed over the same model of the file system calls as C21, with symbolic digits, bytes, transfer sizes and failing call; oracle: each field parsed by itself.")
p("C32", "The TPC-H experiments answer the queries' SQL",
  "For a table of line items (the rows already selected by date and group), the experimenter's h01 gives the four sums, the averages of quantity, price and discount and the count of TPC-H query 1, in the order of its SQL and named accordingly; h01 simplified gives its sums, averages and count; h06 gives the revenue of the rows with a discount from 0.05 to 0.07, both included, and a quantity below 24. They do so with every compression scheme, and the times reported for the parts add up.",
  ["inputs", "configurations"], "all tables and schemes", "Rows exactly at a limit, and groups spread over chunks, need particular tables; the experiments are run by hand and their answers not compared.",
  ["../../experimenter/src/tpch.rs"], [("process_h01", "../../experimenter/src/tpch.rs"), ("process_h06", "../../experimenter/src/tpch.rs")],
  "Tables of 3 and 40 rows in up to two batches with 2 to 6 symbolic bits in the decimals. " + T,
  how="the real queries are executed on arrow's real arrays, with a stub in place of the parquet reader; symbolic decimals on both sides of every limit; oracle: the SQL of tools/gen-tpch.py, evaluated row by row.")
p("C33", "The experimenter's scales, rounding, statistics and saved results are right",
  "The number of decimal places found for a literal or a text is the number its value needs (exponents included), the scale and precision chosen from it make every number representable (or, with a tolerance, the stated share of them), rounding to places gives the nearest such number, the statistics of data are those of its values, and saving a result writes it completely to a new file, never touches a file that is already there, and reports failing writes.",
  ["inputs", "fault_sequences"], "all literals, texts, values, previous files and failing calls", "Exponents, shares exactly at the tolerance and ties need particular numbers; a failing write needs a full disk. The tests sample a few literals.",
  ["../../experimenter/src/lib.rs"], [("get_decimal_precision", "../../experimenter/src/lib.rs"), ("save_json_safely", "../../experimenter/src/lib.rs")],
  "Literals of up to 8 digits with exponents of -19 to 19; texts of 6 numbers and of 250. " + T,
  how="the real functions are executed with symbolic digits, signs and exponents, values and failing calls (file system model of C21); oracle: the places counted from the literal's parts, exact decimal arithmetic, the definitions of the statistics.")
p("C34", "The experimenter's commands run what they report on the file they name",
  "The experimenter's commands compress, filter, filter-materialize, materialize, max and sum run, in memory or by path, on the file, chunk and bitmask they are given, and report and write that operation's result, sizes and settings; a missing file and failing writes are errors; the configurations it makes for a file hold the percentiles of its values, or the scale its numbers need.",
  ["inputs", "configurations", "fault_sequences"], "all files, configurations and failing calls", "The commands are run by hand on large data; a result of the wrong chunk or a truncated output file would not be noticed.",
  ["../../experimenter/src/main.rs", "../../experimenter/src/lib.rs"], [("filter_command", "../../experimenter/src/main.rs"), ("create_config_command", "../../experimenter/src/main.rs")],
  "Files of 3 to 5 records in five schemes, with one chunk or several; failing calls among the first 12. " + T,
  how="the program's own source is compiled into the harness and its commands executed over the file system model of C21; symbolic values, masks, modes and failing call; oracle: the records as the file decodes, selected one by one.")
p("C36", "collect-stats reports the statistics of the numbers in the text",
  "For a text of comma-separated numbers in lines, collect-stats gives the count, the greatest, least, average and standard deviation of its values, of their decimal places (exponents included) and of their binary exponents, the average leading and trailing zeros of the XOR of neighbours, and the share of repeated values; however many values there are. A field that is no number, a missing file and a failing read are errors.",
  ["inputs", "fault_sequences"], "all texts and failing calls", "Exponents in either case, empty fields, and sums that overflow only with millions of values need particular texts; there are no tests of the tool.",
  ["../../tools/src/collect-stats.rs"], [("collect_stats_from_csv", "../../tools/src/collect-stats.rs")],
  "Texts of up to 5 numbers with symbolic digits; the exponents of 2.2 million zeros. " + T,
  how="the tool's own source is compiled into the harness and executed over the file system model of C21 with symbolic digits and failing call; oracle: the definitions of the statistics, computed from the fields' parts.")
p("C35", "The experimenter's UCR, embedding and matrix experiments time what they name",
  "The k-nearest-neighbour experiments over UCR data, the embedding and matrix experiments and the averages over outputs run and time the operations they report, on the data sets they name.",
  ["inputs"], "all data sets and settings", "They are run by hand on large data sets.", ["../../experimenter/src/main.rs"], [("main", "../../experimenter/src/main.rs")], "",
  na="their results are wall-clock times over directories of downloaded data sets (walked through glob and the process's environment), and part of them needs a GPU; what they compute is decided by C23 and C24.")

