# prop(id, title, statement, over, quantifier text, why tests can't, files, mechanisms, level note, ...)
prop('C01', 'The binary number and string codec is an exact, self-delimiting inverse',
     'Every unsigned integer written in variable-length form, every unsigned or signed integer that fits the chosen fixed width, and every byte string is read back unchanged from the encoded bytes, and reading it consumes exactly the bytes that were written. Variable-length integers use the minimal number of base-128 groups; fixed-width integers are big endian.',
     ['inputs'], 'every value of every integer width (16, 32, 64 bits; 1..8 bytes), every byte string, every concatenation of two values',
     'Tests encode a handful of constants; the property ranges over 2^64 values and every group boundary.',
     ['arki/core/binary.h', 'arki/core/binary.cc'],
     [('variable-length and fixed-width writers', 'arki/core/binary.h'), ('matching readers', 'arki/core/binary.h')],
     'All obligations for all inputs, bit-precise; byte strings up to 4000 bytes in the raw-copy contract.')
prop('C02', 'Reading binary data never goes outside the buffer, whatever the bytes',
     'Whatever bytes and length are given, each primitive reader of the binary format (numbers, strings, data blocks, item envelopes, metadata bundle headers) either raises an error or consumes a prefix, leaving exactly the remaining suffix to be read. No byte outside the buffer is read and no part of the buffer handed out extends past its end.',
     ['inputs'], 'every buffer content and every length, including truncated, overlong and hostile encodings',
     'Tests decode well-formed or slightly damaged samples; memory safety must hold for every malformed input.',
     ['arki/core/binary.h', 'arki/core/binary.cc'],
     [('size check before every read', 'arki/core/binary.h'), ('item envelope and bundle header readers', 'arki/core/binary.cc')],
     'Every memory access of the readers is an obligation (bounds, uninitialised, shift width), for every buffer of up to 24..100 bytes of any content.')
prop('C03', 'Calendar arithmetic is exact over the proleptic Gregorian calendar',
     'Days of month and year, normalisation of out-of-range fields, next and previous instant, start and end of months, period bounds from partial dates, the difference of two times and the overlap of time ranges all agree with the mathematical Gregorian calendar, to the second. Comparing two times gives the chronological order.',
     ['inputs'], 'every valid time of years -9999..9999 (normalise: every field within +-100000)',
     'Tests sample a few dates; leap-year, century, month-length and carry corner cases are quantified over all dates.',
     ['arki/core/time.cc', 'arki/core/time.h'],
     [('normalisation by carries', 'arki/core/time.cc'), ('bounds of partial dates', 'arki/core/time.cc'), ('difference in seconds', 'arki/core/time.cc')],
     'Loop invariants for the carry loops and for the year loop of the duration; linear integer arithmetic, unbounded iterations. Not covered: parsing and formatting of times.')
prop('C04', 'Time intervals behave as sets of instants',
     'A time interval is half open, either end may be unbounded. Containment, overlap, emptiness checks, intersection and extension of intervals agree with the sets of instants they denote: an instant is in the intersection exactly when it is in both, the extension is the smallest interval covering both, and the months visited when a query is spread over monthly segments cover exactly the instants of the interval.',
     ['inputs'], 'every pair of intervals with valid or missing ends, every instant',
     'Tests try a few overlaps; boundary equality, missing ends and empty intersections are quantified over all instants.',
     ['arki/core/time.cc', 'arki/core/time.h'],
     [('containment and overlap', 'arki/core/time.cc'), ('intersection and extension', 'arki/core/time.cc'), ('month iteration', 'arki/core/time.cc')],
     'All pairs of intervals; the month iteration has a loop invariant, for intervals of any length.')
prop('C05', 'Every metadata item survives encoding unchanged',
     'For each type and style of metadata item, an item built from any values its constructor accepts can be encoded and decoded back to an equal item with the same values and the same bytes; values that the binary format cannot represent are refused when the item is built instead of being stored as something else.',
     ['inputs'], 'every item of every type and style, all numeric field values, strings up to the stated lengths',
     'Tests round-trip one or two samples per style; field packing errors show only for particular values (sign, high bits, length boundaries).',
     ['arki/types/', 'arki/types/values.cc', 'arki/types.cc'],
     [('encoders of each style', 'arki/types'), ('decoders of each style', 'arki/types'), ('item envelope', 'arki/types.cc')],
     'All numeric values; strings up to 12..40 bytes; key=value lists of up to two entries. Quantities of up to three names; blob sources without their base directory, which the format does not keep. Excluded: GRIB1 time range type 10 with p1 over 96, JSON and text forms.')
prop('C06', 'Item comparison is a total order consistent with equality',
     'For every type of metadata item, compare() is antisymmetric, transitive and returns zero exactly for items that denote the same value, which are the ones that equals() calls equal (where a unit of measure admits two spellings of a value, equal values compare equal). Sorting and summaries depend on it.',
     ['inputs'], 'all pairs and triples of items of each type, across styles',
     'An order can be inconsistent for one triple in billions; tests compare handfuls of pairs.',
     ['arki/types/', 'arki/types/values.cc'],
     [('compare and compare_local of each style', 'arki/types'), ('comparison of key=value lists', 'arki/types/values.cc')],
     'All numeric values, all style pairs; strings bounded to a few bytes; key=value lists of up to 3 entries in all (thorough: 4); blob sources with file names without directories. Excluded: bounding boxes.')
prop('C07', 'Decoding a damaged metadata item is an error or a usable item',
     'Whatever bytes arrive as the body of a metadata item of any type, decoding raises an error or gives an item; reading its fields, copying it, comparing it and encoding it never touch memory outside its bytes, and encoding it gives back the bytes it was decoded from. The same holds for key=value lists of any content.',
     ['inputs'], 'every byte string up to the stated length for every item type',
     'Tests damage a few samples; the property ranges over every possible content.',
     ['arki/types/', 'arki/types.cc', 'arki/types/values.cc'],
     [('size checks in each decoder', 'arki/types'), ('style dispatch', 'arki/types')],
     'Every byte content for bodies of up to 7..24 bytes depending on the type.')
prop('C08', 'Matching a key=value list is exact inclusion',
     'A query on a key=value list (area, product definition) matches an item exactly when every key asked for is present with the value asked for, whatever other keys either has and wherever they sort.',
     ['inputs'], 'every pair of lists with up to two entries each',
     'The merge walk over two sorted lists goes wrong only for particular relative orders of keys.',
     ['arki/types/values.cc', 'arki/types/values.h'],
     [('merge of two sorted key lists', 'arki/types/values.cc')],
     'Loop unrolled: lists of up to two entries, one-byte keys and strings, all integer values for single-entry lists.')

prop('C09', 'An item matches an expression exactly when it has every value stated',
     'A matcher expression for an origin, product, level, timerange, run, task, area or proddef that gives a style followed by a comma separated list of values matches an item exactly when the item has that style and, for each field that the expression states, that value; blank and missing fields accept anything, and "-" in the fields that admit it asks for a missing value. Time range steps and durations match whatever unit they are written in. Matching an item in its encoded form gives the same answer as matching the item.',
     ['inputs'], 'every item of every style against every expression with any subset of the fields stated, all values of the fields that have numbers of the stated digits',
     'Which fields are stated, blank or missing is a combination tests sample; a field compared with another field shows only for particular values.',
     ['arki/matcher/origin.cc', 'arki/matcher/product.cc', 'arki/matcher/level.cc', 'arki/matcher/timerange.cc', 'arki/matcher/run.cc', 'arki/matcher/task.cc', 'arki/matcher/area.cc', 'arki/matcher/proddef.cc'],
     [('parsing of optional fields', 'arki/matcher/utils.cc'), ('matchItem and match_buffer of each style', 'arki/matcher')],
     'All items; expressions with fields of a fixed number of digits, every subset of fields. Excluded: bounding box expressions (GEOS), VM2 areas (not in this build), GRIB2 level numbers over 255 in expressions, overflowing step values.')
prop('C10', 'Queries combine by conjunction, alternatives, union, override and split',
     'Data match a query exactly when, for every type of metadata the query has an expression for, the data have an item of that type and at least one of the alternatives of the expression matches it; a query with no expressions matches everything. The union (merge) of two queries matches everything that either matches; overriding a query with another (update) takes the expressions of the second for the types it has and those of the first for the others; splitting a query by types gives two queries whose conjunction is the original. The operands are unchanged, and copies give the same answers.',
     ['inputs'], 'every combination of types asked for and present, any answers of the alternatives',
     'The merge walks over two sorted maps go wrong only for some combinations of types present on one side, both or none.',
     ['arki/matcher.cc', 'arki/matcher/utils.cc', 'arki/types/itemset.cc'],
     [('OR and AND evaluation', 'arki/matcher/utils.cc'), ('merge, update and split', 'arki/matcher/utils.cc'), ('Matcher wrapper', 'arki/matcher.cc')],
     'The alternatives are stubs with an arbitrary answer, so the contracts hold for any expression. Loops unrolled: up to three types, up to three alternatives each. Not covered: parsing of the query text and aliases.')
prop('C11', 'Reference time expressions are exact and their time intervals lose no data',
     'A reference time restriction (<=, <, >=, > or = with a date given to the year, month, day, hour, minute or second; the same with a time of day; every N hours, minutes or seconds from a time of day) matches exactly the times it says; several restrictions together match the times all of them match, in the item and in its encoded form. Turning a query, with any alternatives, into a time interval, or checking it against an interval, never leaves out a time that matches the query; an interval is only ever shrunk, and a query that does not restrict the reference time leaves it alone. Steps that are not positive are refused.',
     ['inputs'], 'every valid time of years 1..9999, every date or time of day in an expression, every interval of dates',
     'Year, month and day boundaries and the joining of alternative intervals go wrong only for particular dates.',
     ['arki/matcher/reftime/parser.cc', 'arki/matcher/reftime.cc', 'arki/matcher/utils.cc', 'arki/matcher.cc'],
     [('restrictions from fuzzy dates', 'arki/matcher/reftime/parser.cc'), ('conjunction of restrictions', 'arki/matcher/reftime.cc'), ('span of alternatives', 'arki/matcher/utils.cc')],
     'All dates and times. Checking times of the day against an interval is for intervals of whole days, as segments have. Steps of nine lengths; up to three restrictions and three alternatives. Not covered: the text parser, SQL and text forms.')
prop('C12', 'Summary statistics of some data are the union of those of its parts',
     'The statistics kept for a group of data (how many, their total size, the first and last reference time) stay exact when a datum or other statistics are merged into them: counts and sizes add up, the period becomes the smallest that has both, merging nothing changes nothing, and a datum without reference time is refused leaving the statistics as they were. The time interval of the statistics holds exactly the times of the period; encoding them and reading them back gives the same statistics; comparing them is a total order that is zero exactly for equal statistics.',
     ['inputs', 'histories'], 'every pair of statistics (counts to 2^48, sizes to 2^60, periods in years 0..9999), hence every sequence of merges',
     'Tests merge a few samples; the order of the operands, empty operands and large counts matter.',
     ['arki/summary/stats.cc', 'arki/summary/stats.h'],
     [('merging of statistics and of data', 'arki/summary/stats.cc'), ('encoding', 'arki/summary/stats.cc'), ('comparison', 'arki/summary/stats.cc')],
     'All statistics. Encoding: counts up to 2^32-1, which is what the format holds. Not covered: JSON and text forms, grouping of data by their items.')
prop('C13', 'A metadata record has what was last set in it, in canonical order',
     'Setting an item in a metadata record (or in a set of items) replaces the one of its type and touches nothing else; removing it leaves the others; asking for a type gives the item last set. Items are kept and encoded in order of type, then the notes in the order they were added, then at most one source, whatever the order they were set in; merging takes all the items of the other record; copies are equal and independent; two records are equal exactly when they have the same items, and the differences reported are exactly the items that differ. Reading back an encoded record gives an equal record.',
     ['histories', 'inputs'], 'every record (any number of items of any type and value, notes and source or not), every operation on it, hence every sequence of operations',
     'Where an item is inserted, replaced or removed depends on all that is there already; tests build a few records.',
     ['arki/metadata.cc', 'arki/metadata.h', 'arki/types/itemset.cc'],
     [('ordered insertion and removal', 'arki/metadata.cc'), ('notes and source at the end', 'arki/metadata.cc'), ('sets of items', 'arki/types/itemset.cc')],
     'The items are stand-ins with any type and any value. Quick: up to 5 items; thorough: up to all 16 types, so every size of record. Pairs of records: up to 7 items in all. Reading back: records with items of three real types, up to two notes, inline source.')
prop('C90', 'Appending data to a segment is all or nothing',
     'When data are appended to a segment and the operation fails or is interrupted at any point, the segment and its index afterwards hold either all the data of the batch or none of it.',
     ['crash_points', 'fault_sequences'], 'every failure and crash point of an import', 'Tests do not crash between system calls.',
     ['arki/segment/data/fd.cc', 'arki/segment/data/dir.cc', 'arki/dataset/segmented.cc', 'arki/core/transaction.cc'],
     [('append transactions', 'arki/segment/data/fd.cc')],
     na='The property is about the state of the file system after a crash in the middle of a sequence of system calls. Contracts on functions state what holds when they return; stating this one needs a model of the kernel\'s durability, which would be a model and not the code.')
prop('C91', 'Concurrent readers, writers and maintenance of a dataset do not corrupt it',
     'Whatever the interleaving of importing, querying, checking and repacking the same dataset from several processes, readers see complete data, and no data are lost.',
     ['schedules'], 'every interleaving of processes', 'Tests run a few schedules.',
     ['arki/core/lock.cc', 'arki/dataset/lock.cc', 'arki/dataset/segmented.cc'], [('fcntl range locks', 'arki/core/lock.cc')],
     na='The processes synchronise through fcntl locks held by the kernel; the verifier reasons on one thread of one process and has no contract for other processes.')
prop('C92', 'Checking and repacking a dataset preserve its data',
     'Checking with fixes, repacking, archiving and compressing segments leave every datum of the dataset readable and unchanged, and the index consistent with the segments.',
     ['histories'], 'every dataset content and state', 'Tests build a few datasets.',
     ['arki/dataset/maintenance.cc', 'arki/dataset/segmented.cc', 'arki/segment/'], [('checker', 'arki/dataset/segmented.cc')],
     na='The operations work through SQLite, zip, tar and the file system: the state that the property is about lives in libraries and the kernel, and contracts for them would be assumptions as large as the property.')
prop('C93', 'A query on a dataset gives exactly the data that match',
     'Querying an indexed dataset gives each datum that matches the query exactly once, in reference time order, whichever way it is indexed.',
     ['inputs'], 'every dataset and query', 'Tests query sample datasets.',
     ['arki/segment/iseg/', 'arki/dataset/iseg/', 'arki/dataset/simple/'], [('translation of queries to SQL', 'arki/segment/iseg/index.cc')],
     na='The selection is made by SQLite from generated SQL text; the meaning of the text is given by SQLite, which is out of reach of the verifier. The parts that are C++ (matching, intervals, pruning by time) are C09, C10, C11 and C04.')
prop('C94', 'Data of the supported formats are described faithfully',
     'The metadata extracted from GRIB, BUFR, ODIM, NetCDF and JPEG data describe the data they were extracted from.',
     ['inputs'], 'every well formed datum', 'Tests scan samples.',
     ['arki/data/', 'python/arkimet/scan/'], [('scanners', 'arki/data')],
     na='Extraction is done by Python scripts and by ecCodes, wreport, HDF5 and NetCDF libraries; there is no C++ of arkimet to put under contract.')
prop('C95', 'Bounding box queries select the data whose area meets the box',
     'An area query by bounding box or geometry matches exactly the areas whose footprint has the stated relation with it.',
     ['inputs'], 'every area and geometry', 'Tests try a few areas.',
     ['arki/matcher/area.cc', 'arki/bbox.cc'], [('geometry predicates', 'arki/matcher/area.cc')],
     na='Footprints are computed by Lua scripts and compared by the GEOS library in floating point, both outside the code that can be verified here.')
