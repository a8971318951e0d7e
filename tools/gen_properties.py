#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the list lives here so that it can be edited readably)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Merging inputs is complete, time-ordered and stable",
 "For any number of inputs, each non-decreasing in time, driving a pipeline that merges them delivers every row of every input exactly once and unmodified, in globally non-decreasing timestamp order. Rows of the same input keep their original relative order. This holds also when some inputs are empty, are exhausted early, or contain long runs of equal timestamps.",
 ["inputs", "histories"], "all numbers of inputs, all lengths (including zero), all non-decreasing timestamp sequences and tie patterns, all u64 timestamps",
 "The tests merge two or three fixed CSV files that have the same length and identical rows; uneven lengths, empty inputs, extreme timestamps and ties across many inputs are never reached.",
 ["src/driver/driver.rs", "src/driver/source_row_buffer.rs"],
 [("minimum-timestamp selection over one buffered row per input", "Driver::drive / get_next_buffer_index"), ("refill and retirement of a buffer", "SourceRowBuffer::has_next")],
 ["rows received by the sink behind the merge"])

prop("C02", "Only rows inside [begin, end) are delivered, and all of them",
 "With a begin bound B and/or end bound E, driving a pipeline over time-ordered inputs delivers exactly the rows whose timestamp t satisfies B <= t (when B is given) and t < E (when E is given); no other rows, none missing, and the run succeeds even when nothing is in range. Each input is independently cut: one input running past E or having no row in range does not affect the rows of another.",
 ["inputs", "configurations"], "all bound pairs (either or both absent, equal, inverted, at extreme u64 values) and all time-ordered inputs",
 "The only range test feeds one file with one fixed pair of bounds; boundary equality, empty ranges and ranges that exclude a whole input are not sampled.",
 ["src/driver/source_row_buffer.rs", "src/driver/driver.rs", "src/chopper/types.rs"],
 [("Stop / Write / Skip decision per row", "filter_data_range, match_next_row")],
 ["rows received by sinks", "result of drive()"])

prop("C03", "Every sink in the graph receives exactly the rows routed to it",
 "For any graph of chains built from row-processing sinks (emitting zero, one or many rows per input row), splits, merges and tees, each sink is called once per row that reaches it, in order, with exactly the row that the preceding nodes of its path produced: a split hands an independent copy to each listed chain, a merge or split in mid-chain also continues its own chain, a sink that emits several rows has each of them processed downstream in order, and one that emits none stops that row there, as does the end of a chain (which may have no nodes at all).",
 ["programs", "histories"], "all acyclic graphs over the node kinds, all per-row fan-outs, all row histories",
 "Three fixed topologies are tested, each on one four-row file; fan-out other than one or three rows and sinks behind a tee or nested split are not exercised.",
 ["src/driver/driver.rs", "src/chopper/header_graph.rs", "src/chopper/data_graph.rs", "src/driver/split.rs", "src/driver/merge_join.rs"],
 [("recursive row routing", "Driver::process_row"), ("building the data graph from the header graph", "HeaderGraph::process_header")],
 ["calls observed by instrumented DataSinks: (node, rows) in order"])

prop("C04", "Each input feeds its own chain, and merges require equal schemas",
 "Input number i's schema and rows enter the chain at position i of the graph, whatever the number of inputs and whatever the other chains do with theirs. Each sink is handed the schema produced by the nodes before it on its path. A merge node accepts its inputs only if all their schemas (names and types, in order) are identical; otherwise, or when there are fewer chains than inputs, when a merge or split names a chain that does not exist (or a merge one that is not a merge), or when a merge is reached by more or fewer inputs than it was made for, building the pipeline fails with an error before any row is processed.",
 ["programs", "configurations"], "all numbers of inputs, distinct per-input schemas and chains, all pairs of equal or unequal schemas meeting at a merge",
 "Tests use identical schemas and identical chains for every input, so a mixed-up mapping or a weakened schema comparison is invisible.",
 ["src/driver/driver.rs", "src/chopper/header_graph.rs", "src/driver/merge_join.rs", "src/chopper/types.rs"],
 [("chain id given to each source", "Driver::get_row_buffers"), ("header comparison", "MergeJoin::check_header, Header::eq"), ("count of headers still expected", "HeaderCountTracker")],
 ["schemas and rows observed by instrumented sinks per chain", "result of Driver::new"])

prop("C05", "Processing is streaming: bounded lookahead and constant memory",
 "While driving, at most one row per input has been read ahead of the rows already delivered, rows are delivered before their inputs end, and reading an input stops at the first row at or past the end bound, so that unbounded inputs and inputs much larger than memory can be processed. Memory held by a run does not grow with the number of rows or bytes of an input, for CSV, DC, compressed and directory inputs alike.",
 ["inputs", "histories"], "all input counts and lengths, infinite inputs with an end bound, all interleavings of timestamps",
 "Tests only compare final output files of a few rows; they cannot see when a row was read or how much memory was held.",
 ["src/driver/driver.rs", "src/driver/source_row_buffer.rs", "src/source/csv_source.rs", "src/source/dc_source.rs", "src/util/reader.rs", "src/decompress/zst.rs"],
 [("one buffered row per source", "SourceRowBuffer"), ("fixed 8 KiB preview buffer", "ChopperBufPreviewer")],
 ["order of next_row and write_row calls on instrumented sources and sinks", "peak heap bytes during a run (counting allocator)"])

prop("C06", "Read failures are reported, never mistaken for the end of the data",
 "If reading an input fails with an I/O error at any byte position, or the input ends in the middle of a binary record, creating the source or driving the pipeline returns an error; it never succeeds with the data silently cut short and never crashes. Everything delivered before the failure is a prefix of the rows that the undamaged input would have produced.",
 ["fault_sequences", "inputs"], "all fault positions in all inputs (CSV, DC, and compressed forms of both, alone or as one of several inputs), all chunkings of the byte stream, all error kinds",
 "Existing tests read only healthy files; no test injects a read error or truncates a file.",
 ["src/source/dc_source.rs", "src/source/csv_source.rs", "src/util/reader.rs", "src/driver/source_row_buffer.rs", "src/decompress/zst.rs", "src/source/multi_file_source.rs"],
 [("error propagation with ? from next_row", "DCSource::next_row, CSVSource::next_row, match_next_row"), ("preview fill", "ChopperBufReader::fill_buffer")],
 ["result of create_source_* and of next_row()/drive()"])

prop("C07", "Success means every sink was flushed and all output was written",
 "When a run succeeds, every sink has been flushed after the last row it received and the complete output is in the file. When writing, flushing or processing fails at any point, the run returns an error instead of success; a sink's error stops the run and is returned.",
 ["fault_sequences", "programs"], "all graphs, all sinks failing at any of their write or flush calls, all output sizes against a full or refusing output device",
 "Tests only read output back after complete success with tiny outputs that fit one write buffer; no failing sink or device is ever used.",
 ["src/driver/driver.rs", "src/write/csv_sink.rs", "src/write/dc_sink.rs"],
 [("flush on exhaustion of an input", "Driver::flush"), ("buffered writers", "CSVSink, DCSink")],
 ["order of write_row/flush calls per sink", "bytes in the output file", "result of drive()"])

prop("C08", "CSV input is parsed faithfully",
 "Reading CSV text with a known delimiter and header setting yields, for each record, exactly its field texts in order: quoted fields may contain delimiters, line breaks and doubled quotes; surrounding whitespace is trimmed; LF, CRLF and a missing final line break are equivalent; blank lines are ignored. Column names come from the header line (or col_0, col_1, ... without one), every column is text, and none of this depends on the file's size or on how its bytes arrive in chunks.",
 ["inputs"], "all tables of Unicode text cells, all legal encodings of them (quoting, padding, line endings, delimiters), all sizes around the preview buffer, all chunkings",
 "Tests read three tiny files without quoting, multi-byte text or long rows.",
 ["src/source/csv_source.rs", "src/util/reader.rs", "src/source/csv_configs.rs", "src/util/csv_util.rs"],
 [("csv reader configuration (delimiter, header, trim)", "CSVSource::new"), ("row materialisation", "CSVSource::update_row")],
 ["header() and next_row() of a source made by InputFactory"])

prop("C09", "CSV delimiter and header line are detected by the documented rule",
 "When not specified, the delimiter is the one of comma, tab and space that occurs most often in the first line (earlier in that list on a tie), and the first line is taken as a header exactly when, cell by cell, the kinds (integer, decimal, text) of the first two lines' trimmed cells differ; a single-line input has no header. Explicit settings override detection, and detection never loses, duplicates or alters a data row.",
 ["inputs", "configurations"], "all first and second lines (including non-ASCII text, differing widths, blank-ish lines, lines longer than the preview) and all explicit overrides",
 "Unit tests sample six literal line pairs; non-ASCII characters, ties, ragged lines and long lines are not sampled.",
 ["src/util/csv_util.rs", "src/source/csv_source.rs", "src/util/reader.rs"],
 [("delimiter frequency count", "csv_util::guess_delimiter"), ("kind comparison", "csv_util::guess_has_header, guess_type"), ("delimiter option parsing", "csv_util::parse_into_delimiter")],
 ["return values of the csv_util functions", "header and rows of the resulting source"])

prop("C10", "The timestamp column is chosen by the documented priority",
 "With automatic selection the time column is found by lower-cased name: 'time' plus a unit suffix (seconds, millis, micros, nanos); else 'date' (joined with 'time' if present); else 'time'; else a prefixed time with unit suffix; else a prefixed date (joined with a prefixed time of the same prefix); else a prefixed time; else the first column; the leftmost candidate of a kind wins and a unit suffix decides the unit. A column or date/time column pair given explicitly by name or index is used instead, and a name that does not exist, or an index outside the record, is reported as an error.",
 ["inputs", "configurations"], "all lists of column names (case, prefixes, suffixes, duplicates, order) and all explicit selections",
 "A handful of fixed header rows is tested; the precedence between the seven kinds of candidates and duplicates is not covered.",
 ["src/source/csv_timestamp.rs", "src/chopper_cli.rs"],
 [("column scan in reverse with per-kind candidates", "get_timestamp_col"), ("explicit name/index lookup", "get_timestamp_col, Header::get_field_index")],
 ["timestamps of the rows produced from a table whose columns hold different instants"])

prop("C11", "Timestamps are recognised and converted exactly",
 "Each supported notation (ISO 8601 with offset, the documented date-time, split date/time and date-only layouts, and epoch seconds/millis/micros/nanos by magnitude, by column unit or by explicit option, or an explicit format) is recognised from the first row and every row's timestamp equals the instant its text denotes, to the nanosecond. A value that does not match the established notation, or whose instant cannot be represented as an unsigned 64-bit nanosecond count since 1970, is reported as an error and never stored as a different instant.",
 ["inputs", "configurations"], "all instants, all notations, all rows after the first, all magnitudes near the recognition and overflow limits",
 "Tests convert fewer than ten fixed strings; overflow, pre-1970 values, range edges, fractional digits and a later row that deviates are not sampled.",
 ["src/source/csv_timestamp.rs", "src/source/csv_source.rs"],
 [("format autodetection from the first row", "get_timestamp_fmt_auto*"), ("conversion", "get_timestamp"), ("magnitude windows", "RANGE_SECONDS .. RANGE_NANOS")],
 ["timestamp of rows from the CSV source", "errors"])

prop("C12", "Local times map to instants through the time zone, never by guessing",
 "A time without offset is interpreted in the configured zone with that zone's rules at that date; a local time that occurs twice or never (a clock change) and a local time with no zone configured are errors; a time that carries its own offset ignores the zone. The result never depends on the machine's own time zone.",
 ["inputs", "configurations"], "all zones, all local times including those within hours of a clock change, all entry points (CSV rows, range bounds)",
 "Tests use one zone at a handful of ordinary instants, none near a clock change.",
 ["src/util/tz.rs", "src/source/csv_timestamp.rs", "src/util/timestamp_util.rs"],
 [("LocalResult handling", "ChopperTz::from_local_datetime")],
 ["row timestamps, parsed bounds, errors"])

prop("C13", "Begin and end bounds are parsed as documented",
 "A bound given as YYYY, YYYYMM, YYYYMMDD, a date and time in any of the supported layouts (with optional fraction), ISO 8601 with offset, or an epoch number in s/ms/us/ns between 1990 and 2033 denotes exactly that instant, the shorter forms denoting the start of that year, month or day in the configured zone. Any other text, and any instant not representable as an unsigned nanosecond count since 1970, is rejected with an error.",
 ["inputs", "configurations"], "all instants in all layouts and zones, all digit counts and magnitudes near the window edges, malformed text",
 "Around twenty literal strings are asserted; window edges, other zones, all layout combinations and rejections are not.",
 ["src/util/timestamp_util.rs", "src/chopper/types.rs", "src/cli_app.rs"],
 [("digit-count completion, epoch windows, format product", "parse_datetime_range_element")],
 ["parse_datetime_range_element and TimestampRange::new"])

prop("C14", "Writing DC and reading it back reproduces schema and rows",
 "For every schema of supported column types and every sequence of rows (including nulls, any number of columns, any timestamps, NaN and infinities, empty, long and non-ASCII strings), writing them to a .dc file and reading that file back yields the same column names and types and the same rows, bit for bit. Converting DC to DC through a pipeline any number of times is the identity.",
 ["inputs"], "all schemas (0 to many columns, including counts around multiples of eight), all null patterns, all values, strings around 32767 bytes and beyond 64 KiB",
 "No test writes DC and reads it back; existing DC tests use one fixed file layout.",
 ["src/write/dc_sink.rs", "src/source/dc_source.rs", "src/util/dc_util.rs"],
 [("null bitset width and order", "get_bitset_bytes, DCSink::write_row, DCSource::next_row"), ("string length encoding", "write_string_value, read_string")],
 ["header and rows before and after"])

prop("C15", "DC files conform to the documented binary layout",
 "Files written are byte-for-byte the format: 8-byte magic DCAT, 2-byte version 2, length-prefixed user header, column count, per column length-prefixed name and type string plus display hint, then per row an 8-byte timestamp, a null bitset of ceil(columns/8) bytes (lowest bit first) and the non-null values, all big-endian, with strings prefixed by a 16-bit length or -1 and a 32-bit length. Any file in that layout, including non-empty user headers, unnamed columns (read as col_i), any valid display hint and the long string form for short strings, is read back to exactly the values encoded.",
 ["inputs"], "all files in the layout, produced by an encoder independent of this codebase, and all files produced by the writer, decoded independently",
 "Round trips alone accept a reader and writer that share the same mistake; the tests contain no independently encoded file with more than a few columns.",
 ["src/write/dc_sink.rs", "src/source/dc_source.rs", "src/util/dc_util.rs"],
 [("field order and endianness", "DCSink::write_header/write_row, DCSource::new/next_row, FieldDescriptor::new")],
 ["bytes of written files", "rows from independently encoded files"])

prop("C16", "Malformed DC input is rejected cleanly",
 "Any byte sequence given as a DC file is either read according to the layout or rejected with an error: wrong magic or version, unknown type or display hint, negative or absurd lengths and counts, invalid text and truncation at any point all yield an error. It never crashes or aborts, never allocates memory out of proportion to the input, and never returns rows that the bytes do not encode.",
 ["inputs", "fault_sequences"], "all byte sequences, in particular all truncations and all single and multiple field corruptions of valid files",
 "No test feeds a damaged DC file.",
 ["src/source/dc_source.rs", "src/util/dc_util.rs", "src/source/dc_factory.rs"],
 [("header checks", "DCSource::new"), ("length handling", "read_string, FieldDescriptor::get_sized_string")],
 ["result of creating and draining the source, peak allocation"])

prop("C17", "Compressed inputs are equivalent to their uncompressed contents",
 "For gzip (including multi-member files), LZ4 frame, LZ4 block, LZF, Zstandard and single-file zip (stored, deflate, bzip2), an input yields exactly the schema and rows of its uncompressed contents, whether the compression is recognised by file name, by content or by explicit format, whatever the size, the compression settings, the block structure and the arrival of bytes in chunks.",
 ["inputs", "configurations"], "all contents and sizes (empty to several blocks), all formats and encoder settings, all three ways of recognition, all chunkings",
 "Each format is tested with a single small file in one encoding; multi-block, multi-member, incompressible and empty contents are not.",
 ["src/decompress/decompress.rs", "src/decompress/zst.rs", "src/decompress/zip.rs", "src/input/single_file.rs"],
 [("format detection by suffix and magic", "is_compressed_using_format, is_compressed_using_previewer"), ("decoders", "decompress, ZstReader::read, Crc32Reader")],
 ["rows from compressed and plain inputs", "bytes from decompress()"])

prop("C18", "Damaged compressed input is detected, never read as shorter or other data",
 "When a compressed input whose format carries integrity information is truncated or has bytes altered, reading either reports an error or still produces exactly the original contents; it never succeeds with missing or different data and never crashes. Whatever was delivered before the error is a prefix of the true contents, for formats verified block by block.",
 ["fault_sequences", "inputs"], "all truncation points and all byte alterations of compressed payloads and checksums in gzip, Zstandard with content checksum, LZ4 frame and block with checksums, zip",
 "No test reads a damaged compressed file.",
 ["src/decompress/crc32.rs", "src/decompress/zst.rs", "src/decompress/zip.rs", "src/decompress/decompress.rs"],
 [("crc check at end of zip member", "Crc32Reader::read"), ("error mapping of decoders", "ZstReader::read"), ("block checksum verification", "decompress_lz4_jblock")],
 ["bytes and error from a full read of the decompressed stream"])

prop("C19", "Zip archives holding one file are located and read correctly",
 "A zip archive with exactly one member yields that member's contents, however it is laid out: prefix data before or gaps between records, archive comments (also ones containing signature bytes), member comments, extra fields in any number and order in local and central headers, sizes given late in a data descriptor, zip64 records. Archives with no or several members, encryption, several disks, an unsupported method or inconsistent structure are rejected with an error.",
 ["inputs"], "all layouts of single-member archives and all rejected variants, all truncations and corruptions of the directory structures",
 "Two fixed archives written by one tool are tested; zip64, comments, extra fields and rejection paths are not.",
 ["src/decompress/zip.rs", "src/decompress/crc32.rs"],
 [("backward search for the end record", "find_eocdr_and_prepare_to_read"), ("zip64 locator", "get_start_of_central_dir_offset"), ("extra field parsing", "CentralDirHeader::read_extra_field")],
 ["result and bytes of new_reader_for_single_file_zip_archive"])

prop("C20", "The input format is chosen by override, then name, then contents",
 "An explicit format is obeyed without any detection; otherwise the file name (after removing a recognised compression suffix) decides; only if the name says nothing do the contents decide, where DC is recognised by its magic and version, compressed data by its magic, and text by being valid UTF-8 lines. User-supplied source factories and transports take precedence over the built-in ones in the order given, each input is opened through exactly one streaming transport, and an input nothing can handle is an error.",
 ["inputs", "configurations"], "all combinations of name, contents, override, compression and user-supplied factories and transports",
 "Only a few name/content combinations are tested, never a conflict between them and never a user extension competing with a built-in.",
 ["src/input/single_file.rs", "src/input/input_factory.rs", "src/decompress/decompress.rs", "src/source/csv_factory.rs", "src/source/dc_factory.rs", "src/transport/streaming/previewer_factory.rs", "src/transport/seekable/seekable_factory.rs"],
 [("decision order", "SingleFileInputFactory::create_source_from_previewer"), ("factory order", "create_default_source_factories, InputFactory::new")],
 ["which factory/transport served an input; schema and rows or error"])

prop("C21", "A directory input is the ordered concatenation of its files",
 "A directory given as input yields the rows of all its regular files, one after the other in ascending file name order, ignoring subdirectories, with the schema of the first file (or the one supplied). In later files columns are matched by name: reordered columns are put back in order, additional columns are dropped, and a missing column or a column of another type is an error; every row delivered has exactly the columns of the schema.",
 ["inputs", "configurations"], "all numbers and names of files, all permutations, additions, duplications and removals of columns, all mixes of formats and compressions",
 "One directory of three fixed CSV files and five literal header pairs are tested.",
 ["src/source/multi_file_source.rs", "src/input/files_in_dir_provider.rs", "src/transport/dir/file.rs", "src/input/input_factory.rs"],
 [("swap map", "check_headers_match_and_return_swap_map, next_row"), ("file ordering", "FilesInDirPathProvider::new")],
 ["header and rows of the directory source"])

prop("C22", "Built-in filters act on exactly the named column and rows",
 "Deleting a column removes the first column whose name matches ignoring ASCII case from the schema and the same position from every row, leaving the others untouched and in order. The equality and greater-than row filters pass exactly the rows whose value in the first matching column equals, or is greater than, the given value (NaN never passes, a missing value equals nothing but a missing value and is never greater), unmodified and in order. A name that matches no column is an error when the pipeline is built.",
 ["inputs", "programs"], "all schemas (duplicate names, mixed case), all column types with comparable values, all chains of several filters",
 "One chain of each filter is tested on one file.",
 ["src/filter/column_filter_delete_col.rs", "src/filter/row_filter_equal_value.rs", "src/filter/row_filter_greater_value.rs", "src/chopper/types.rs"],
 [("name lookup and index capture", "process_header of each filter"), ("typed comparison", "FieldValue::eq, partial_cmp")],
 ["schema and rows behind the filters"])

prop("C23", "CSV output renders time, values and layout as configured",
 "CSV output has one header line and one line per row, all using the configured delimiter, with the time column first if enabled (named as configured, else 'time', or 'timestamp' plus the unit for epoch style). Epoch times are the timestamp in the configured unit rounded down; human-readable times are that instant in the configured zone with offset and 0, 3, 6 or 9 fractional digits; integers print in decimal, floating-point values in text that parses back to the same value, strings verbatim and nulls as nothing.",
 ["inputs", "configurations"], "all output configurations, all schemas including zero columns, all values and timestamps up to the u64 maximum, all zones",
 "Fixed outputs with one delimiter and two time styles are compared; other delimiters, units, widths and extreme values are not.",
 ["src/write/csv_sink.rs", "src/source/csv_configs.rs", "src/util/tz.rs", "src/write/factory.rs"],
 [("header and row rendering", "CSVSink::write_csv_header, write_row"), ("default column name", "CSVOutputConfig::new")],
 ["bytes of the output file"])

prop("C24", "CSV output of simple data reads back to the same rows",
 "Rows of simple values (text without delimiters, quotes, line breaks or surrounding blanks, and numbers) written as CSV with any time style and unit and read back with matching settings give the same column texts and, up to the printed precision, the same timestamps, in the same order. Reading CSV and writing it again with a fixed configuration is idempotent, except that an output time column, if enabled, is added in front of the columns read.",
 ["inputs", "configurations"], "all tables of simple values, all time styles, units, zones and delimiters for which the output is unambiguous",
 "No test feeds CSV output back as input.",
 ["src/write/csv_sink.rs", "src/source/csv_source.rs", "src/source/csv_timestamp.rs"],
 [("time column name recognised by the reader", "CSVOutputConfig::new, get_timestamp_col"), ("rendered formats recognised by the reader", "CSVSink::write_row, get_timestamp_fmt_auto")],
 ["rows after write and read"])

prop("C25", "The command line applies every option as documented and fails cleanly",
 "Running the tool with any combination of its options over file, directory and stdin inputs writes exactly the output defined by the options (formats assigned to inputs in order with the last one repeated, bounds, zone from -z or else CHOPPER_TZ, CSV input and output options, output file or stdout) and exits 0; any invalid input, option value or failure gives a message on stderr and exit status 1, without a crash. The output depends only on arguments, CHOPPER_TZ and input contents.",
 ["configurations", "inputs"], "all combinations of options and input kinds, valid and invalid",
 "No test runs the command line at all.",
 ["src/chopper_cli.rs", "src/cli_app.rs", "src/error.rs", "src/util/tz.rs", "src/write/factory.rs"],
 [("argument mapping", "parse_cli_args, parse_csv_input_config, parse_csv_output_config"), ("exit status", "handle_drive_error")],
 ["stdout, output file, stderr and exit status of the process"])

prop("C26", "Peeking at an input never changes what is read from it",
 "The preview of an input is exactly its first min(8192, length) bytes, and the lines offered for detection are exactly its complete lines within them without line ends (a last unterminated line counts only when the whole input was seen, and none are offered if any of them is not valid UTF-8). Reading after peeking returns the identical byte stream, for any size of the chunks delivered by the input and requested by the reader and through either the read or the buffered interface.",
 ["inputs", "schedules"], "all byte contents and lengths around the buffer size, all delivery and request chunkings, mixed use of both read interfaces",
 "Unit tests use one 17-byte text with a reader that never returns short counts.",
 ["src/util/reader.rs"],
 [("preview fill and line splitting", "ChopperBufPreviewer::new, get_lines_from_reader"), ("buffered reading with bypass", "ChopperBufReader::read, fill_buf, consume")],
 ["get_buf, get_lines, and bytes from get_reader"])

prop("C27", "HTTP inputs behave like the file they serve",
 "An http URL yields the same schema and rows as a local file with the response body as contents and the last path segment as name, for every body encoding the server may use (content length, chunked, until close) and every chunking in time, compressed or not. A response other than success, a refused connection and a body shorter than announced are errors, never an empty or shortened result.",
 ["inputs", "fault_sequences"], "all bodies, sizes, transfer encodings, chunkings, status codes and cut-off points, over loopback",
 "No test opens an http input.",
 ["src/transport/streaming/http.rs", "src/input/input_factory.rs", "src/transport/streaming/previewer_factory.rs"],
 [("status check and body reader", "HttpTransport::open")],
 ["rows or error from a source created for a loopback URL"])

prop("C28", "Every source delivers rows that match its declared schema",
 "Every row a source delivers has exactly one value per declared column, each missing or of the declared type, for well-formed and for ragged input alike, and names and types have equal length and never change while rows are read. A CSV table has as many columns as the wider of its header line and first record (unnamed ones are called col_i); a record with fewer fields has the remaining columns missing (never values of an earlier record), and a later record with more fields is reported as an error.",
 ["inputs"], "all CSV tables with records of varying width (first row, later rows, header narrower or wider), all DC files, all directories",
 "Tests read only rectangular files.",
 ["src/source/csv_source.rs", "src/source/dc_source.rs", "src/source/multi_file_source.rs"],
 [("row materialisation into a reused row", "CSVSource::update_row, DCSource::next_row")],
 ["header() and each row of the source"])

prop("C29", "Arbitrary bytes as input are handled or rejected, never crash",
 "For any byte sequence and any file name, override and CSV configuration, opening and reading an input either produces rows or returns an error. It never panics or aborts, never exits the process by itself, and terminates; in particular empty, header-only, blank-line-only and binary inputs are handled. The same holds for any text given as a bound or as the name of a zone.",
 ["inputs", "configurations"], "all byte sequences (including mutated valid files of every supported format and compression), all names, overrides and CSV configurations",
 "Tests feed only well-formed files.",
 ["src/input/single_file.rs", "src/source/csv_source.rs", "src/source/csv_timestamp.rs", "src/source/dc_source.rs", "src/decompress/zip.rs", "src/decompress/decompress.rs", "src/util/csv_util.rs"],
 [("error returns along the whole input path", "InputFactory::create_source_from_input")],
 ["result of creating and draining a source; the process survives"])

prop("C30", "Public helper operations meet their contracts",
 "Removing a sorted list of positions from a vector leaves exactly the other elements in order; comparing two files answers true exactly when their bytes are equal, whatever their sizes; the common type of a list of column types is text if any is textual, boolean or a buffer or the list is empty, else floating-point if any is, else integer; and creating an output refuses any file name that is neither csv nor dc.",
 ["inputs"], "all vectors and index lists, all pairs of files (sizes around the comparison buffer, equal prefixes), all lists of types, all output names",
 "Each has at most a handful of literal examples; are_contents_same has none of its own although all output tests trust it.",
 ["src/util/remove_multiple.rs", "src/util/file.rs", "src/util/csv_util.rs", "src/write/factory.rs"],
 [("rotation-based removal", "RemoveMultiple::remove_multiple"), ("block-wise comparison", "are_contents_same"), ("type join", "guess_common_type")],
 ["return values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
