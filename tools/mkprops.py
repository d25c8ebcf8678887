#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [dict(name=n, where=w) for n, w in mech]}
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a['observe_at'] = observe or []
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

IO = 'bloscpack/file_io.py'; AB = 'bloscpack/abstract_io.py'; ME = 'bloscpack/memory_io.py'
NP = 'bloscpack/numpy_io.py'; AP = 'bloscpack/append.py'; HD = 'bloscpack/headers.py'
AR = 'bloscpack/args.py'; CL = 'bloscpack/cli.py'; CK = 'bloscpack/checksums.py'
MC = 'bloscpack/metacodecs.py'; SE = 'bloscpack/serializers.py'; LG = 'bloscpack/log.py'
PR = 'bloscpack/pretty.py'; AO = 'bloscpack/abstract_objects.py'; DF = 'bloscpack/defaults.py'
CO = 'bloscpack/constants.py'

p('C01', 'Packing then unpacking bytes or files is lossless through every route',
  'For every byte string and every accepted combination of chunk size, Blosc settings, checksum, offsets, append reservation and metadata, packing followed by unpacking returns exactly the original bytes and an equal metadata object. '
  'This holds for each pairing of the packing routes (file to file, bytes to file, bytes to bytes, file-pointer and in-memory sources and sinks, deprecated aliases) with the unpacking routes, and for any number of Blosc threads.',
  ['inputs', 'configurations'],
  'all byte strings (including empty, one byte, and sizes on either side of every chunk boundary) x all valid argument combinations x all pack/unpack entry-point pairs x 1..8 Blosc threads',
  'The tests round-trip one float array at four chunk sizes with default arguments; one of the file-pointer comparisons never rewinds and compares nothing.',
  [IO, AB, ME, AR], [('read-compress-write and read-decompress-write loops', AB + ':pack/unpack'),
   ('chunk split', AR + ':calculate_nchunks'), ('plain/compressed sources and sinks', IO + ', ' + ME)],
  observe=['return values and output files of the public pack_*/unpack_* functions'])

p('C02', 'Packing then unpacking a NumPy array preserves values, dtype, shape, order',
  'For every NumPy array without object fields and with an item size of 1 to 255 bytes, and any chunk size that is a multiple of the item size or at least the array size, packing and unpacking by file, bytes, file pointer or memory returns an array with the same shape, the same dtype (byte order, field names, offsets and item size included), identical bytes in every element, and Fortran order kept for Fortran-ordered input, regardless of strides or contiguity of the input. '
  'The input array is not changed and no memory outside it is read.',
  ['inputs', 'configurations'],
  'all dtypes (numeric, bool, complex, datetime, string, void, structured, nested, padded, titled, big-endian) x shapes including 0-d and empty x C/F/strided/reversed/broadcast/read-only layouts x chunk sizes x arguments x four routes',
  'The NumPy round-trip helpers in the tests return a comparison function and never call it, so no array value, dtype, shape or order is compared anywhere in the suite.',
  [NP, AB, AR], [('array description in the metadata section', NP + ':_ndarray_meta'), ('contiguity normalisation and pointer walk', NP + ':PlainNumpySource'),
   ('allocation and pointer walk on restore', NP + ':PlainNumpySink')],
  state=[('dtype/shape/order metadata', 'how the array is described in the file', NP + ':_ndarray_meta')],
  observe=['pack_ndarray*, unpack_ndarray* results', 'guard pages around source arrays'])

p('C03', 'Every packed file has exactly the documented layout and settings',
  'Every file or byte string produced by packing follows the format description: header fields, metadata section, offsets section and chunks lie exactly where the README says, sizes and chunk counts add up to the input length, each offset is the exact position of its chunk and unused entries are -1, and each checksum is the selected algorithm over the compressed chunk. '
  'The header and every chunk record the settings the caller asked for (checksum, offsets, metadata flag, typesize, codec, shuffle, append reservation, metadata reservation), and defaults apply where nothing was asked.',
  ['inputs', 'configurations'],
  'all inputs x all valid argument combinations x all packing entry points, judged by an independent parser written from the README',
  'Tests look at the first one or two offsets and header fields of one or two files; everything is read back with the code that wrote it, so symmetric errors cancel out.',
  [IO, HD, AB, AR, CK, DF, CO], [('header encoding', HD + ':BloscpackHeader.encode, MetadataHeader.encode'), ('metadata section writer', IO + ':_write_metadata'),
   ('offsets written at the end', IO + ':CompressedFPSink.finalize'), ('append reservation', AR + ':_handle_max_apps')],
  state=[('offset_storage', 'positions of chunks', IO + ':CompressedFPSink')],
  observe=['bytes of packed output'])

p('C04', 'Files that follow the format are readable whoever wrote them',
  'Any file that follows the documented format (written by another implementation, by an earlier release, or by appending with different settings) unpacks to the content it encodes, including mixed codecs, typesizes and chunk sizes, unknown (-1) chunk size, last-chunk size or offsets, arbitrary reserved metadata space, and the older NumPy dtype notations. '
  'A file whose format version differs or whose number of chunks is unknown is refused with an exception rather than decoded to something else.',
  ['inputs', 'configurations', 'histories'],
  'all spec-conforming files, generated by an independent writer, plus a committed corpus of files produced by the pinned release',
  'The suite only ever reads files it has just written with the same code; no stored file from another writer or release is read.',
  [IO, HD, NP, SE, MC], [('header decoding and version gate', IO + ':_read_bloscpack_header'), ('metadata reader', IO + ':_read_metadata'),
   ('offset reader', IO + ':_read_offsets'), ('legacy dtype handling', NP + ':PlainNumpySink, _conv')],
  observe=['results of unpack_* on independently written files'])

p('C05', 'With a checksum enabled, chunk corruption is always reported',
  'If a file was packed with any checksum other than None and the bytes of any chunk or of any stored chunk checksum are altered afterwards, unpacking it (to a file, to bytes, from a file pointer, from memory, or as an array) raises an error and never returns normally, wherever in the file the damage is and whichever bytes are hit.',
  ['inputs', 'fault_sequences'],
  'all files x 8 checksum algorithms x every damaged position (chunk header, payload, digest; first, middle and last chunk) x single- and multi-byte damage x all unpacking routes',
  'One test flips one byte in the first chunk of one adler32 file.',
  [AB, IO, ME, CK], [('digest comparison in the unpack loop', AB + ':unpack'), ('chunk and digest reader', IO + ':_read_compressed_chunk_fp'),
   ('memory source pairs chunks with digests', ME + ':CompressedMemorySource'), ('checksum table', CK)],
  observe=['outcome of unpack_* on damaged files'])

p('C06', 'Metadata is stored losslessly and its corruption is reported',
  'Any JSON-representable object (including empty, false and null-containing values) given as metadata is returned equal by every reader, whatever metadata codec, level, checksum and reserved space were chosen, and it never alters the data read back; metadata that does not fit its reservation is refused. '
  'Altering any byte of stored metadata or of its checksum, when a metadata checksum is in use, makes every reader fail, while altering unused reserved space changes nothing.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all JSON values x metadata codec/level/checksum/reservation x every damaged position in the metadata section',
  'Tests store two small dictionaries with default settings and never damage a metadata section.',
  [IO, SE, MC, AR], [('metadata writer', IO + ':_write_metadata'), ('metadata reader and digest check', IO + ':_read_metadata'), ('JSON serializer', SE), ('zlib codec', MC)],
  observe=['metadata returned by unpack_*', 'outcome on damaged metadata'])

p('C07', 'Truncated or foreign input is refused, never silently decoded',
  'Every strict prefix of a packed file, at any cut position and for any settings (checksum None included), makes every unpacking reader raise an ordinary exception instead of returning a result; a reader of the beginning (header, metadata, offsets) raises whenever the cut falls inside what it reads. '
  'The same holds for input that does not start with the magic marker, has another format version, undefined option bits in the file header, unknown checksum, codec or serializer codes, or sizes and counts outside the documented ranges (including a last chunk larger than the chunk size and a total number of chunks beyond 2**63-1).',
  ['inputs', 'crash_points', 'fault_sequences'],
  'all packed files x all cut positions x all unpacking routes; all headers violating one of these constraints',
  'No test truncates a file; only one wrong format version is tried.',
  [IO, HD, AB, NP], [('length and magic checks', HD + ':BloscpackHeader.decode, MetadataHeader.decode'), ('range checks', HD + ':check_range'),
   ('digest required when a checksum is in force', AB + ':unpack'), ('Blosc header read', IO + ':_read_compressed_chunk_fp')],
  observe=['outcome of unpack_*, append and info readers on cut files'])

p('C08', 'Appending equals concatenation over any history of appends',
  'After any sequence of appends to a file with offsets, with any Blosc settings and sizes (including zero bytes and exact chunk multiples), unpacking returns the original content followed by every appended piece in order, and metadata is unchanged. '
  'After each append the file again follows the documented format: chunk count, last-chunk size, offsets and checksums are right, chunk count plus remaining reservation is constant, and an append is refused exactly when it needs more new chunks than the reservation has left.',
  ['histories', 'inputs', 'configurations'],
  'all initial files x all finite append histories (sizes around the free space in the last chunk and chunk multiples, mixed codecs/typesizes/shuffle/levels) through append, append_fp and the command line',
  'The tests append at most three or four times with a handful of fixed sizes and check the result of most only by chunk counts; offsets after appending are marked TODO.',
  [AP, IO, AR], [('last chunk refill and chunk loop', AP + ':append_fp'), ('capacity check', AP + ':append_fp'), ('offset rewrite', AP + ' via ' + IO + ':_write_offsets')],
  state=[('nchunks, max_app_chunks, last_chunk', 'capacity accounting in the header', HD), ('offsets', 'chunk positions', IO)],
  observe=['file bytes after every append', 'unpack results'])

p('C09', 'A refused append or metadata update leaves the file byte-identical',
  'When an append or a metadata update is refused (not enough reserved chunks, no offsets, damaged last chunk or metadata, invalid Blosc settings, metadata too large for its reservation, unchanged metadata, checksum of another size, unknown codec or serializer) the target file keeps exactly the bytes it had before the call. '
  'In particular a last chunk that fails its checksum is reported and is never re-written with a fresh, valid checksum.',
  ['histories', 'fault_sequences', 'inputs'],
  'all refusal reasons x all files x positions in an append history',
  'Tests check that the exception is raised, never that the file is untouched; appending to a damaged file is not tested.',
  [AP, IO, CL], [('checks before the first write', AP + ':append_fp'), ('argument validation before rewrite', AP + ':_recreate_metadata'), ('space check before writing', IO + ':_write_metadata')],
  observe=['file bytes before and after a raising call'])

p('C10', 'Metadata updates replace only the metadata, over any history',
  'After any sequence of metadata updates and appends, readers return the latest metadata and the exact data, the reserved metadata space and section size stay constant, and no byte outside the metadata section changes because of an update. '
  'An update succeeds exactly when the new metadata, compressed or not, fits the reservation and the new checksum has the same length as the old one.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of updates (growing, shrinking, incompressible, switching codec/level/checksum) interleaved with appends',
  'One test rewrites one dictionary in a stand-alone metadata section that has no data behind it.',
  [AP, IO], [('in-place rewrite', AP + ':_rewrite_metadata_fp'), ('settings carried over from the old header', AP + ':_recreate_metadata'), ('preallocation padding', IO + ':_write_metadata')],
  state=[('max_meta_size', 'reserved bytes', HD + ':MetadataHeader')],
  observe=['file bytes and readers after each update'])

p('C11', 'Interrupted or failing packing is recognisable and never reported as success',
  'If packing stops before all chunks are written, at any write, every offset already in the file is -1 and no reader decodes the partial file successfully; offsets are filled in only after all chunk data, and without offsets the output is written strictly sequentially. '
  'Any read or write error of the underlying files during packing or unpacking reaches the caller as an exception.',
  ['crash_points', 'fault_sequences', 'configurations'],
  'every write operation (and torn part of it) of every packing run as crash or error point, plus full device and file-size-limit failures on real files',
  'No test interrupts packing or injects an I/O error.',
  [IO, AB], [('offsets initialised to -1, filled last', IO + ':CompressedFPSink.init_offsets/finalize'), ('loop order', AB + ':pack')],
  observe=['recorded write trace at the file boundary', 'exceptions'])

p('C12', 'An interrupted append cannot damage metadata or earlier chunks',
  'Whatever write an append stops at, the metadata section and all chunks before the last original one keep their exact bytes and positions, and the header is still valid. '
  'For a file with a checksum, if such a file can be unpacked at all the result starts with the complete original content and is a prefix of the fully appended content.',
  ['crash_points', 'fault_sequences'],
  'every write operation, and torn prefixes of it, of every append as the crash point',
  'No test interrupts an append.',
  [AP, IO], [('seek to the last chunk before writing', AP + ':append_fp'), ('header and offsets updated after the chunk data', AP + ':append_fp')],
  observe=['file image after each recorded write'])

p('C13', 'Restoring arrays is memory-safe whatever the file claims',
  'Unpacking an array from a file whose metadata does not match its chunks (too small, too large, wrong dtype or shape, object dtype, appended data, missing or foreign metadata) never writes outside the array it allocates, never returns memory that did not come from the file, never yields object arrays and never crashes the interpreter: it raises an exception. '
  'Files without NumPy metadata are reported as not containing an array.',
  ['inputs', 'fault_sequences'],
  'all array files with inconsistent or hostile metadata or appended/removed chunks, under a guard-page allocator and pointer-range monitor',
  'The tests only try one file without metadata; no test has metadata and data disagree, and an overrun need not be visible to a test.',
  [NP], [('allocation from metadata', NP + ':PlainNumpySink.__init__'), ('raw pointer writes', NP + ':PlainNumpySink.put'), ('array type checks', NP)],
  observe=['guard-page faults, writes through decompress_ptr, returned arrays'])

p('C14', 'Reading a file has no side effects and executes nothing from it',
  'Unpacking, inspecting or restoring an array from any file, however crafted, only reads that file and writes the requested output: it evaluates no code from the file, imports nothing it names, starts no process, opens no network connection and touches no other file, and the input file keeps its bytes.',
  ['inputs'],
  'all files including crafted metadata and dtype strings, observed through interpreter audit events',
  'No test observes side effects or uses crafted metadata.',
  [NP, IO, SE], [('literal-only parsing of the dtype description', NP + ':PlainNumpySink'), ('JSON-only metadata', SE)],
  observe=['sys.audit events during reads'])

p('C15', 'The command line gives the same results as the library',
  'For any file and any options, blpk compress followed by decompress restores the file, compress writes a file with exactly the requested settings, append adds the new file at the end and replaces metadata when given, and default output names add or strip the .blp extension; long subcommands, short aliases and option spellings behave alike and a completed command exits 0. '
  'Input files are never modified.',
  ['inputs', 'configurations', 'histories'],
  'all option combinations of the four subcommands and sequences of them on files of all sizes',
  'The cram scripts run about twenty fixed commands and rarely compare file content.',
  [CL, 'blpk'], [('option parsing', CL + ':create_parser'), ('argument extraction', CL + ':process_*_args'), ('dispatch', CL + ':main')],
  observe=['exit status, stdout and files of blpk commands'])

p('C16', 'The command line never overwrites unasked and fails loudly',
  'Without --force an existing output file is left untouched and the command exits non-zero; with or without it a missing input, wrong extension, bad option value, damaged, truncated, foreign or wrong-version input, and refused append all end in a non-zero exit and never in success. A command refused because of its arguments touches no file. '
  'The documented failures (missing files, existing output, extension, chunk size, thread count, checksum mismatch, format version) are reported on standard output as "blpk: error: ...".',
  ['inputs', 'fault_sequences', 'configurations'],
  'all failure causes x subcommands x options x existing files',
  'The cram scripts cover a few refusals and never a damaged input.',
  [CL, LG], [('existence checks', CL + ':check_files'), ('error reporting', LG + ':error'), ('exception mapping', CL + ':main')],
  observe=['exit status, stdout, file bytes'])

p('C17', 'Inspection reports what is really in the file',
  'For any valid file, blpk info and the header, metadata and offsets readers report exactly the header fields, metadata, metadata header, first offsets and first-chunk Blosc header and flags stored in the file, also after appends and metadata updates, and reading them changes nothing.',
  ['inputs', 'histories', 'configurations'],
  'all files reachable by packing, appending and metadata updates with any settings',
  'One cram script compares info output for one file.',
  [CL, HD, IO, PR], [('info dispatch', CL + ':main'), ('decoders', HD + ':decode_blosc_header/decode_blosc_flags'), ('formatting', AO + ':pformat')],
  observe=['info output versus independent parse of the file'])

p('C18', 'Independent operations running concurrently do not affect each other',
  'Packing, unpacking, appending and array operations run at the same time from different threads on different files or buffers, with different settings, each give the same outcome as when run alone, including the settings recorded and the errors raised.',
  ['schedules', 'configurations'],
  'thread interleavings of up to 8 concurrent operations with mixed settings, at bytecode and I/O granularity',
  'No test uses threads.',
  [AB, IO, AR, DF, CK], [('no shared mutable state between operations', AB + ', ' + IO + ', ' + AP)],
  observe=['per-operation results under forced switching'])

p('C19', 'Operations depend only on their inputs, not on earlier calls',
  'Argument objects, metadata objects and data passed to any operation are left as they were, and repeating an operation with the same or re-used arguments, in the same process after any history of other successful or failed operations, gives the same outcome as in a fresh process with fresh arguments. No operation leaves a setting of the process changed: working directory, umask, environment, signals, warning filters, locale, random states, garbage collection, threads, NumPy settings, or the number of threads and other settings of Blosc.',
  ['histories', 'configurations'],
  'all sequences of operations sharing argument objects, including failing ones in between',
  'Tests build fresh arguments for nearly every call and never compare an argument after use.',
  [AR, IO, AP, NP], [('argument objects', AR), ('opportunistic metadata compression', IO + ':_write_metadata'), ('typesize override', NP + ':pack_ndarray'), ('filling in of unset Blosc settings', AP + ':append_fp')],
  observe=['argument snapshots before/after', 'outcome comparison with a fresh run'])

p('C20', 'Memory use is bounded by the chunk size, not the file size',
  'Packing, unpacking and appending files needs working memory proportional to the chunk size (plus a few bytes per chunk for offsets), however large the file is; data is read from the source at most one chunk at a time and written as it is produced.',
  ['inputs', 'configurations'],
  'files of many chunks with growing chunk counts, through file and file-pointer routes',
  'No test measures memory or read sizes.',
  [IO, AB, AP], [('chunked reading', IO + ':PlainFPSource'), ('chunk loop', AB + ':pack/unpack'), ('append loop', AP + ':append_fp')],
  observe=['traced peak allocations', 'sizes of reads at the file boundary'])

p('C21', 'Verbosity never changes results',
  'At every log level (normal, verbose, debug) each operation succeeds or fails in the same way and produces the same files, values and exit status; at the normal level the library prints nothing, and every line printed at any level carries the program prefix. Selecting a level takes effect: more detailed levels print at least what the less detailed ones print.',
  ['configurations', 'inputs'],
  'all operations x all inputs x three log levels, in the library and on the command line',
  'Tests run almost everything at the normal level, so code only reached when logging is never executed.',
  [LG, AB, IO, PR, AO], [('level gate', LG + ':verbose'), ('guarded debug code in the loops', AB + ':pack/unpack'), ('size formatting', PR)],
  observe=['outcomes and captured output per level'])

p('C22', 'Chunking arithmetic and limits are exact for every size',
  'For every input size and requested chunk size (number or size string), either the request is refused as out of range or the chunking covers the input exactly: full chunks of the requested size, a last chunk between one byte and the chunk size, a single chunk if the input is smaller. '
  'Size strings mean the documented multiples of 1024, and the append reservation is the requested value or callable result, never negative, never present without offsets, and clipped so that the total number of chunks stays representable.',
  ['inputs', 'configurations'],
  'all sizes up to and beyond 2**63 with chunk sizes 1..2**31, strings with all suffixes, all reservation integers and callables',
  'Tests compare a few dozen hand-picked values.',
  [AR, PR, HD], [('chunk split', AR + ':calculate_nchunks'), ('reservation', AR + ':_handle_max_apps'), ('size strings', PR + ':reverse_pretty')],
  observe=['results of the chunking functions and recorded headers'])

p('C23', 'Header encoding and decoding are exact inverses and validate limits',
  'Every valid combination of header values encodes to exactly the documented little-endian bytes and decodes to the same values, for the file header and the metadata header, and any 32 bytes either decode to values that encode back to the same bytes or are rejected. '
  'Constructing a header is refused when a field is outside its documented range or of the wrong type, when the last chunk is larger than the chunk size, and when chunks and reservation together exceed what the format can represent. '
  'The header of a Blosc chunk decodes to its documented fields and flags.',
  ['inputs'],
  'all header field values including the extremes of every field, and all 32-byte strings',
  'Tests encode and decode one field at a time with a few values, using the same tables on both sides.',
  [HD, CK, MC], [('encode/decode', HD + ':BloscpackHeader, MetadataHeader'), ('range checks', HD + ':check_range')],
  observe=['encode/decode results against an independent struct codec'])

p('C24', 'Operations release resources and touch only the files they are given',
  'Whether they succeed or fail, packing, unpacking, appending and array operations leave no file descriptor open, create, delete or modify no file other than the requested output, and leave every input file byte-identical, with its time stamp, opened only for reading.',
  ['inputs', 'fault_sequences', 'histories'],
  'all operations x success and failure causes, repeated many times in one process',
  'No test looks at descriptors or at other files in the directory.',
  [IO, NP, AP, CL], [('context-managed files', IO + ', ' + AP), ('file opened for arrays', NP + ':unpack_ndarray_from_file')],
  observe=['open descriptors and directory snapshots before/after each operation'])

p('C25', 'The pack and unpack drivers follow the source and sink protocol exactly',
  'The drivers work with any source and sink derived from the abstract classes, one\'s own as well as the library\'s, in any mixture. '
  'Packing configures the source once (chunk size, last chunk, number of chunks) before reading from it, takes each chunk once and in order, compresses it with the function the source provides and the full Blosc settings, and drives the sink as: configure with the settings and a header that describes this run, header, metadata (if any) with the metadata settings, offsets, then each chunk with its number counting from zero, then finalize exactly once. '
  'Unpacking gives the sink each compressed chunk once and in order, and only after its digest was found to be right. '
  'A failure anywhere in a source, sink or compression function stops the operation there: nothing further is called, finalize included, and the same failure reaches the caller. The sinks and sources of the library itself keep every chunk given to them, or refuse it. What is not a source or sink is refused before anything is called.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all numbers and sizes of chunks x settings x own and library sources and sinks x a failure at every call of the protocol x damaged digests',
  'The tests only combine the library\'s own sources and sinks, which tolerate being called out of order or after a failure.',
  [AB, NP, ME, IO], [('driver loops', AB + ':pack/unpack'), ('protocol classes', AB + ':PlainSource, CompressedSource, PlainSink, CompressedSink'),
   ('array drivers', NP + ':pack_ndarray, unpack_ndarray')],
  observe=['sequence of calls arriving at recording sources and sinks'])

p('C26', 'A setting that cannot be honoured is refused, never ignored or replaced',
  'A setting whose value is outside what is documented (Blosc typesize, level, shuffle and codec; checksum; append reservation and its callable\'s result; metadata serializer, checksum, codec, level and size; chunk size in numbers or size strings), metadata that JSON cannot represent, data of the wrong kind, and arrays that cannot be restored make packing, array, append and metadata-update operations raise an exception. '
  'Such a value is never clipped, wrapped around, replaced by a default or silently ignored, whatever the other settings are; what a refused packing left behind does not unpack; a file to be appended to or updated is as it was; and valid settings work as before after a refusal.',
  ['inputs', 'configurations', 'histories'],
  'all settings x values outside their documented range or type x entry points x valid values of the other settings',
  'The tests try a handful of invalid chunk sizes and header values, directly at the constructors and not through the operations.',
  [AR, HD, CK, MC, SE, IO, NP, AP], [('argument objects', AR), ('chunk size and reservation', AR + ':calculate_nchunks, _handle_max_apps'), ('range checks', HD + ':check_range'),
   ('lookup by name', CK + ':check_valid_checksum, ' + MC + ', ' + SE), ('array checks', NP + ':pack_ndarray')],
  observe=['outcome of each entry point', 'what is left in the output'])

p('C27', 'What a file claims costs no more than what it holds',
  'Reading a file, whatever numbers its headers claim (chunks, reserved entries, chunk sizes, metadata sizes, Blosc buffer sizes, array shapes), touches memory and takes processor time in proportion to the bytes the file really has and the data really decoded from them, not to the numbers claimed. '
  'A file of a few kilobytes that claims more is refused (or, where the claim has no consequence, read) without touching tens of megabytes and without seconds of work, in the library and on the command line, however often it is repeated.',
  ['inputs', 'fault_sequences'],
  'all small files whose headers claim large numbers, in any field x all readers, blpk info and decompress',
  'No test reads a file whose headers claim more than there is, and none looks at what reading costs.',
  [IO, HD, AB, NP, ME, CL], [('offset reader', IO + ':_read_offsets'), ('length checks', IO), ('chunk reader', IO + ':_read_compressed_chunk_fp'), ('array allocation', NP + ':PlainNumpySink')],
  observe=['resident memory and processor time of a forked reader'])

p('C28', 'Any file object will do, and is used only as such',
  'Operations on file objects given by the caller work with any of them, be it a disk file, pipe, socket, archive member, memory file or an object of one\'s own: packing and appending need of their input nothing but read with a size, unpacking needs of its output nothing but write, and packed files nothing but read, write, seek and tell. '
  'An object given is never closed. Input is taken from where the object stands and no further than announced; a packed file is read from where the object stands exactly to its end, so that packed files can be embedded among other data and follow each other. '
  'The result is that of a plain file with the same bytes, also if reads deliver fewer bytes than asked for; input that ends before the announced size, or that has nothing to give for the moment, never loses data silently: the operation raises an exception, or its result is valid and holds all the bytes there were.',
  ['inputs', 'fault_sequences', 'schedules'],
  'all kinds of file objects x how many bytes each read delivers x position and surroundings in the stream x sizes and settings x packing, unpacking, appending, updating, array operations',
  'Tests only use disk files and memory files of which every read is complete, one packed file in each, from the beginning to the end.',
  [IO, AP, AB, NP], [('reading input', IO + ':PlainFPSource'), ('append', AP + ':append_fp'), ('metadata update', AP + ':_rewrite_metadata_fp'),
   ('packed files', IO + ':CompressedFPSource, CompressedFPSink'), ('output', IO + ':PlainFPSink')],
  observe=['methods called on the file object, position and state afterwards, bytes left in the stream', 'result compared with that of a plain file'])

p('C29', 'The surroundings of the process make no difference',
  'Whatever the locale and the encodings of the standard streams, the interpreter options (-O, -OO, -W error, -X dev, -bb, -I), hash seed, memory allocator and contents of fresh memory, the umask, the working directory and the files in it, open or closed standard streams, environment variables other than those of Blosc itself, and the state of the embedding program (garbage collection, NumPy error and print options, tracing, signals, threads, forks, warning filters), '
  'every library operation has the same outcome (the same results, files and bytes, or the same exception), and every blpk command has the same exit status, the same files and says the same. Metadata files given to blpk are read as UTF-8, and new files get the permissions that the umask leaves.',
  ['configurations', 'inputs', 'schedules'],
  'all operations and commands x surroundings of the process',
  'The tests run in one process with one locale, without interpreter options, and look at nothing that depends on them.',
  [CL, IO, LG, NP, AP, AR, HD], [('metadata files and commands', CL), ('output', LG), ('files', IO + ':pack_file_to_file, unpack_file_from_file'), ('checks', HD + ':check_range'),
   ('arrays', NP)],
  observe=['outcome of each operation, resulting files with modes, exit status and output', 'compared between a plain process and one with other surroundings'])

p('C30', 'An interrupted metadata update damages nothing else and is noticed',
  'If updating the metadata of a file stops anywhere (after any write, in the middle of one, or with an error of the file), every byte outside the metadata section and the size reserved for the section are what they were, so that chunks, offsets and header survive. '
  'With a metadata checksum, every reader then returns the old metadata or the new one, with the data exactly as before, or refuses the file by raising an exception; it never returns a mixture, or other data. '
  'Errors of the file reach the caller, and an update that succeeds has done all its writes.',
  ['crash_points', 'fault_sequences', 'histories'],
  'all files with metadata, with any history x new values and settings x a stop at every write, at every byte of it, or with an error at every call',
  'The tests update metadata of intact files on disks that work.',
  [AP, IO, HD], [('metadata update', AP + ':_rewrite_metadata_fp, rewrite_metadata'), ('section writer', IO + ':_write_metadata'), ('section reader', IO + ':_read_metadata')],
  observe=['file after each write, partial write or injected error', 'outcome of every reader on it'])

p('C31', 'The work done is in proportion to what is asked',
  'Packing reads its input once and compresses each chunk once, and unpacking reads the packed file once and decompresses each chunk once; appending reads and writes only the beginning of the file, its last chunk and what is appended, whatever the size of the file; updating metadata touches only the metadata section; opening, inspecting and reading the beginning of a file do not read its chunks; '
  'and what is refused (a foreign file, an append beyond the reservation, a damaged chunk) is refused without doing the remaining work. '
  'Time and executed steps grow no faster than in proportion to the number of chunks and bytes.',
  ['inputs', 'configurations', 'histories'],
  'all sizes, numbers of chunks and settings x operations and commands',
  'The tests use small files and look at results, not at what was done to get them.',
  [AB, IO, AP, NP, ME, CL], [('driver loops', AB + ':pack/unpack'), ('append', AP + ':append_fp'), ('metadata update', AP + ':_rewrite_metadata_fp'),
   ('readers of the beginning', IO + ':_read_beginning, CompressedFPSource'), ('arrays', NP)],
  observe=['bytes read and written through the file objects and by the process', 'chunks compressed and decompressed', 'lines executed and processor time for n and 4n chunks'])

p('C32', 'What names refer to is taken for what it is, and nothing is lost through it',
  'Operations that take file names work alike for every name an operating system accepts, however it is spelled (text, bytes, path objects, relative, odd characters, long) and whether it leads there directly or through links, and change only the file they are to write; links stay links. '
  'An input that has content but no size in advance (a pipe, a file of the system), or that changes while it is read, is packed with all of its content or refused, never as if it was empty or complete; outputs that are pipes receive everything, outputs that cannot be written are reported. '
  'Input and output being the same file, under whatever names, never destroys it: the operation is refused and the file intact, or done and complete.',
  ['inputs', 'fault_sequences', 'schedules'],
  'all operations and commands on names x spellings, links, kinds of files, changes at any point of the operation',
  'The tests use fresh regular files with plain names, and never the same for both.',
  [IO, AP, NP, CL], [('files by name', IO + ':pack_file_to_file, unpack_file_from_file, pack_bytes_to_file, unpack_bytes_from_file'), ('append by name', AP + ':append'),
   ('arrays', NP + ':pack_ndarray_to_file, unpack_ndarray_from_file'), ('commands', CL + ':check_files, process_compression_args, process_decompression_args')],
  observe=['result or exception', 'contents of everything in the directory before and after', 'what arrives in a pipe', 'exit status'])

p('C33', 'What is said while working, and in errors, is true',
  'Whatever the package says is true, at every verbosity: sizes, ratios (uncompressed to compressed), numbers and sizes of chunks, which chunk is the last, offsets, checksums, settings, headers, names, reservations and metadata sizes that are logged are those of the input, the output and the request; errors state the values that were expected and found and the range or name that was violated; "done" follows success only. '
  'Rounded sizes are within rounding of the exact ones. At the normal level operations say nothing. '
  'Settings and header objects show exactly their values in every representation, their copies are equal and independent, and names they do not have are refused without effect. '
  'What --help and --version say is so: defaults, values, ranges, aliases, short names, flags and versions are those in force.',
  ['inputs', 'configurations'],
  'all operations, commands, errors and settings objects x sizes, settings, verbosity',
  'The tests compare a few lines of a few commands, with ratios and checksums replaced by patterns, and no line of the library.',
  ['bloscpack/log.py', 'bloscpack/pretty.py', 'bloscpack/abstract_objects.py', AB, IO, AP, 'bloscpack/args.py', 'bloscpack/headers.py', CL],
  [('levels', 'bloscpack/log.py'), ('sizes', 'bloscpack/pretty.py'), ('objects', 'bloscpack/abstract_objects.py:MutableMappingObject'),
   ('drivers', AB + ':pack, unpack'), ('files', IO), ('append', AP + ':append, append_fp'), ('chunking', 'bloscpack/args.py:calculate_nchunks, _handle_max_apps'), ('errors', 'bloscpack/headers.py')],
  observe=['every line printed', 'message of every exception', 'input, output and both images', 'representations of objects'])
p('C34', 'An operation interrupted anywhere ends there and leaves nothing behind',
  'Whatever statement of the package an operation or command is interrupted at (a key, a signal handler that raises, a time limit, missing memory), the exception reaches the caller, a command ends with a non-zero exit status and does not say that it is done. '
  'No file stays open, no setting of the process and no argument stays changed, no input or other file is touched, and the same operation with the same arguments works afterwards as if nothing had happened. '
  'What was being written is complete or not decodable; an interrupted append or metadata update leaves the rest of the file as an interrupted write does.',
  ['inputs', 'interruption points'],
  'all operations and commands x every statement x kinds of exceptions',
  'The tests interrupt nothing; there are hundreds of statements to be interrupted at, for every kind of operation.',
  [IO, AP, AB, NP, CL, 'bloscpack/memory_io.py', 'bloscpack/log.py'],
  [('files', IO + ':pack_file_to_file, unpack_file_from_file'), ('drivers', AB + ':pack, unpack'), ('append', AP + ':append, append_fp, _rewrite_metadata_fp'), ('command', CL + ':main')],
  observe=['exception that comes out', 'open descriptors', 'settings of the process', 'arguments', 'files left', 'outcome of a repetition'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
