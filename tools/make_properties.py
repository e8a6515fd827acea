"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


B = "src/eventio/base.py"
H = "src/eventio/header.pyx"
V = "src/eventio/var_int.pyx"
T = "src/eventio/tools.py"
IO = "src/eventio/iact/objects.py"
II = "src/eventio/iact/__init__.py"
SO = "src/eventio/simtel/objects.py"
SF = "src/eventio/simtel/simtelfile.py"
SP = "src/eventio/simtel/parsing.pyx"

prop("C01", "Top-level framing is decoded exactly",
     "For every well-formed little-endian EventIO file, iterating the file yields exactly one object per top-level block in file order, and each object reports the block's type, version, signed id, user flag, extension flag, container flag, content size and absolute content address exactly as written, including blocks whose length needs the extension field; reserved header bits leak into no other field. "
     "The bytes read from an object are exactly the content of its block, whatever was or was not read from earlier objects. "
     "Iteration ends exactly at the end of the file.",
     ["inputs"], "all sequences of top-level blocks: any type 0..65535, version 0..4095, id in the int32 range, flag combination, content size (0 bytes to beyond 2^30), and any amount of reading between steps",
     "tests look at the eight blocks of one file; none has an extension field, a user flag, a negative id, an empty payload or an unknown type",
     [B, H, "src/eventio/constants.py"],
     [("EventIOFile iteration and header bookkeeping", B + ":EventIOFile._read_next_object"), ("bit-field decoding of the 12 byte header", H + ":parse_header_bytes"), ("length extension", B + ":parse_extension_field")],
     [("_next_header_pos", "offset of the next top-level block", B)], ["EventIOFile iteration", "object.header", "object.read"])

prop("C02", "Nested blocks are traversed as the tree that was written",
     "For every container block holding any tree of nested blocks, iterating it yields exactly its direct children in order with correct header fields, absolute addresses and contents, at every depth, and stops at the container's own end. "
     "Every traversal helper (depth-first walk with levels, search by type, search by type path, first-n search, top-level collection) returns exactly the objects a walk over the written tree would give, in file order. "
     "Iterating a block that is not a pure container is refused with ValueError.",
     ["inputs"], "all trees of blocks: arbitrary depth, fan-out, empty containers, extended child headers, unknown and known types at any position",
     "tests only walk existing files and mostly check that no exception is raised",
     [B, "src/eventio/search_utils.py"],
     [("sub-object iteration", B + ":EventIOObject.__next__"), ("traversal helpers", "src/eventio/search_utils.py")],
     [("_next_header_pos", "offset of the next child inside a container", B)], ["iteration of objects", "eventio.search_utils functions"])

prop("C03", "An object is a bounded, seekable view of its own bytes",
     "For every history of read, seek and tell calls on an object, the returned bytes and positions equal those of an in-memory file holding exactly that object's content, with offsets relative to the end counted backwards and positions never before its start, whatever integer type positions and lengths have. "
     "No call ever returns bytes that lie outside the object's content, even after seeking past its end. "
     "Interleaving operations on different objects of the same file does not change what any of them returns.",
     ["histories", "inputs"], "all sequences of read(n)/read()/seek/tell over any number of live objects of one seekable file",
     "tests do one seek and one tell on a single object",
     [B],
     [("bounded read and relative seek", B + ":EventIOObject.read, EventIOObject.seek")],
     [("_pos", "position within the object's content", B)], ["object.read/seek/tell"])

prop("C04", "Compression is transparent",
     "The same EventIO byte stream stored uncompressed, gzip compressed (read through the external decompressor, or in-process by choice or because that program is missing) or zstd compressed, in any number of gzip members, zstd frames or block sizes, yields identical objects, contents, parsed values and events for any forward access pattern. "
     "A single sequential pass never needs to move backwards in the stream, and access that would have to do so in a stream that cannot either gives the same result or is refused with an exception. Neither the name of the file nor how it is written (relative, bytes, path object) has any influence.",
     ["inputs", "configurations"], "all byte streams, all container encodings of them, and all forward-only histories of iterating, peeking, partial reading and forward seeking",
     "tests only compare the list of object types for one tiny file, and open one zstd file",
     [B, "src/eventio/file_types.py"],
     [("gzip pipe wrapper", B + ":PipeWrapper"), ("zstd stream reader", B + ":EventIOFile.__init__")],
     [("pos", "number of bytes consumed from the pipe", B + ":PipeWrapper")], ["EventIOFile(path, zcat=...)", "SimTelFile", "IACTFile"])

prop("C05", "A file is accepted exactly if it is an EventIO file",
     "A file is recognised as EventIO if and only if its content, after removing gzip or zstd compression if present, starts with the EventIO sync marker in either byte order; gzip and zstd are recognised exactly by their magic bytes, independent of the file name. "
     "Opening a file that is not EventIO is refused with ValueError, and blocks in the unsupported big-endian byte order or with a wrong sync marker are refused instead of being decoded.",
     ["inputs"], "all file contents including empty and shorter-than-marker files, near-miss markers, and misleading file names",
     "tests try one fixed example per format",
     ["src/eventio/file_types.py", B],
     [("magic byte tests", "src/eventio/file_types.py"), ("sync marker check", B + ":check_sync_bytes")], (), ["is_gzip/is_zstd/is_eventio", "EventIOFile constructor", "iteration"])

prop("C06", "Looking ahead never changes what is read",
     "For every interleaving of looking ahead at the next object and advancing, the sequence of objects obtained by advancing equals that of plain iteration. "
     "Looking ahead repeatedly without advancing gives the same object that the next advance returns, and gives None at the end of the file and when the rest of the file is truncated. "
     "Reading from, parsing or descending into the object seen by looking ahead does not change which object comes next.",
     ["histories", "inputs"], "all sequences of peek, next, content reads and (for shower files) event iteration over any file, complete or truncated",
     "tests exercise only strict peek-next alternation on one complete file",
     [B, II],
     [("one-object look-ahead buffer", B + ":EventIOFile.peek")],
     [("next", "object read ahead but not handed out yet", B), ("peek_error", "remembered truncation", B)], ["EventIOFile.peek", "next(file)"])

prop("C07", "Parsing does not depend on when, how often or in which order it happens",
     "On a seekable file, parsing an object gives the same result immediately after it was obtained, after any number of other objects were obtained, read or parsed, or when it is repeated, in any order. "
     "Several readers open at the same time, on the same or different files and in the same or different threads, never influence each other, and values returned earlier are never modified by later calls.",
     ["histories", "schedules"], "all orders and repetitions of obtaining, partially reading and parsing objects of every known type, with any number of interleaved readers",
     "tests parse each object once, directly after obtaining it, with a single reader",
     [B, SO, IO, "src/eventio/histograms.py"],
     [("positioning before decoding", SO + ", " + IO + ": parse methods"), ("cached layouts", "src/eventio/simtel/runheader_dtypes.py, src/eventio/simtel/pixelset.py")],
     [("file position", "one position shared by all objects of a file", B)], ["object.parse"])

prop("C08", "A truncated file never yields wrong data",
     "For every well-formed file cut at any byte, low-level iteration yields exactly the objects whose header survived and then raises EOFError, or ends if nothing of a further header is left, and parsing or reading an object whose content is incomplete either raises EOFError or returns exactly what the complete file gives, and the search helpers find exactly the surviving objects. "
     "Iterating simulated events of a file cut after its header section never raises, and delivers exactly the events of the complete file up to the cut, where only the last one may lack its incomplete blocks; opening a simulation or shower (IACT) file cut inside its header section raises EOFError, and iterating a shower file cut later delivers every completed event and then raises EOFError.",
     ["inputs", "crash_points"], "all files and all cut positions, in the compressed or uncompressed stream",
     "the tests use two truncated files at one fixed cut position each (both missing here)",
     [B, SO, SF, II],
     [("short read detection", B + ":check_size_or_raise, EventIOObject.read"), ("truncation handling in event loop", SF + ":_read_next_event")],
     (), ["iteration", "object.parse", "SimTelFile", "IACTFile"])

prop("C09", "Arbitrary bytes never crash, over-read or hang the reader",
     "For any file content, including corrupted length, count, flag and version fields, opening, walking and parsing every reachable object either succeeds or raises an ordinary Python exception in bounded time; a walk never visits the same header as part of several blocks of one level. "
     "The interpreter never crashes and no decoder reads or writes memory outside the bytes it was given, so the outcome depends only on those bytes, and an integer whose encoding is cut short raises instead of giving a value.",
     ["inputs", "fault_sequences"], "all byte strings; in particular all corruptions of well-formed blocks of every known type and version, and all argument combinations of the compiled decoders",
     "tests only contain well-formed blocks; the compiled decoders use raw pointer reads that no test stresses",
     [V, SP, H, SO, IO],
     [("bounds checks around raw reads", V + ", " + SP)], (), ["object.parse", "EventIOFile iteration", "compiled decoders under AddressSanitizer"])

prop("C10", "Variable-length integers decode to the encoded value",
     "Every signed and unsigned integer in the 64 bit range, encoded with any of the format's one to nine byte encodings, decodes to exactly that integer and consumes exactly its encoded length. "
     "Decoding from a stream, from a buffer at any offset, as an array, as a list of arrays, or as differences of 32 bit samples all agree with decoding the integers one by one.",
     ["inputs"], "all integers of the full range, all encodings including non-minimal ones, all array shapes and offsets",
     "tests check eight hand-picked unsigned values read from a stream; signed, array and differential decoders are only touched through files",
     [V, T],
     [("scalar decoding", V + ":parse_varint, varint"), ("array decoding", V + ":varint_array, unsigned_varint_array"), ("differential decoding", V + ":unsigned_varint_arrays_differential"), ("stream decoding", T + ":read_varint")],
     (), ["eventio.tools", "eventio.var_int"])

prop("C11", "Unsupported block versions are refused",
     "For every block type with a limited set of supported format versions, parsing a block with any other version raises NotImplementedError and never returns values decoded with the wrong layout. "
     "Every supported version is accepted, and blocks of known but unimplemented types are refused with NotImplementedError while pure containers are refused with ValueError.",
     ["inputs"], "all version numbers 0..4095 for every block type that distinguishes versions, and all unimplemented or unknown types",
     "tests exercise the three assertion helpers on mock objects only",
     ["src/eventio/version_handling.py", SO, IO, "src/eventio/histograms.py", SP],
     [("version assertions", "src/eventio/version_handling.py"), ("generic parse", B + ":EventIOObject.parse")], (), ["object.parse"])

prop("C12", "Photon bunches decode completely and identically in chunks",
     "Every photon bunch block, in the 32 bit or the compact 16 bit encoding, decodes to the written bunches in order, with the compact scaling and clipping applied, and the records of emitting particles are separated from photons without losing, duplicating or reordering any record. "
     "Reading in chunks of any size yields chunks of at most that size whose concatenation equals reading everything at once. "
     "Blocks of particles at observation level decode to the written particles.",
     ["inputs"], "all bunch counts (including zero), contents, emitter patterns, encodings, array/telescope ids and chunk sizes",
     "tests use three chunk sizes on one file and check a few columns of existing bunches",
     [IO],
     [("bunch decoding", IO + ":Photons.parse, parse_chunked, parse_compact, parse_emitter")], (), ["Photons.parse", "Photons attributes"])

prop("C13", "Photo-electron blocks decode to the written photo-electrons",
     "Every photo-electron block of every supported version decodes to the written list of photo-electrons: the per-pixel counts, and for each photo-electron its pixel, its time and (if stored) its amplitude, in file order. "
     "Stored photon counts per pixel are returned exactly, optional columns are present exactly when they were written, and pixels without entries have count zero.",
     ["inputs"], "all pixel counts, sparse pixel patterns, per-pixel multiplicities, flag combinations and versions 1 to 3",
     "tests check sums and averages on one file of version 2 only",
     [IO, V],
     [("block decoding", V + ":parse_1208"), ("header decoding", IO + ":PhotoElectrons.parse")], (), ["PhotoElectrons.parse"])

prop("C14", "CORSIKA run and event blocks decode to the written values",
     "For every CORSIKA block (run header and end, event header and end, input card, telescope positions, array offsets with and without weights, longitudinal profile, atmospheric profile with and without layer parameters) the decoded values are exactly the written ones, in the written order and assigned to the right names. "
     "Blocks whose embedded size field is inconsistent are refused.",
     ["inputs"], "all block contents, counts and supported versions",
     "tests compare a handful of values of existing files",
     [IO],
     [("block decoders", IO)], (), ["parse of iact objects"])

prop("C15", "Shower (IACT) files are assembled into the right events",
     "For every shower file, iterating yields one event per shower and re-use, in order, each carrying that shower's headers, end block, longitudinal profile and observation-level particles, and that re-use's impact position, weight, photon bunches, emitters and photon counts per telescope, in normal and in split mode. "
     "Run-level information (run header, input card, telescope positions, atmosphere) is available right after opening and the run end after iterating. "
     "Iterating an uncompressed file again yields the same events, and numbers shown in the printed form of an event are its own.",
     ["inputs", "histories"], "all numbers of showers, re-uses and telescopes, optional blocks in any combination, both storage modes, weights or not, and repeated or partial iteration",
     "tests look at four files with at most five re-uses and check counts mostly",
     [II],
     [("event assembly", II + ":IACTFile.__iter__"), ("run-level blocks", II + ":IACTFile.__init__")],
     [("_first_event_byte", "where event data starts, for restarting", II)], ["IACTFile iteration and attributes"])

prop("C16", "Run and telescope description blocks decode to the written values",
     "For every run header, Monte Carlo run header and telescope description block (camera geometry, camera organisation, pixel settings, disabled pixels, software settings, pointing correction, drive settings) in every supported version, each decoded quantity equals the written one, per-pixel and per-gain values keep their order and shape, and quantities that a version does not store take their documented neutral value under the same name as in the versions that store them.",
     ["inputs"], "all field values, pixel/gain/drawer/sector counts, optional parts and supported versions",
     "tests see only the versions that occur in the sample files (e.g. camera settings 4 to 6 of 0 to 6) and compare a few values",
     [SO, SP, "src/eventio/simtel/pixelset.py", "src/eventio/simtel/runheader_dtypes.py", V],
     [("block decoders", SO), ("sector lists", SP + ":read_sector_information_v1, " + V + ":read_sector_information_v2")], (), ["parse of simtel objects 2000-2008"])

prop("C17", "Waveforms and charge sums decode to the written samples",
     "For every ADC sample or ADC sum block, with or without zero suppression, for any number of gains, pixels and samples, each stored sample or sum is returned at its gain, pixel and sample position, and suppressed positions are zero. "
     "Auxiliary digital and analog traces decode to the written traces. "
     "Storage modes that are not supported are refused with NotImplementedError instead of being decoded wrongly.",
     ["inputs"], "all sample values, shapes, suppression patterns (single pixels, ranges, 16 pixel groups, reduced width and single gain pixels) and modes",
     "the tests of zero suppression need files that are not available and are skipped; other tests check shapes",
     [SO, V],
     [("sample decoding", SO + ":ADCSamples, ADCSums"), ("differential decoding", V)], (), ["ADCSamples.parse", "ADCSums.parse", "Auxiliary*Traces.parse"])

prop("C18", "Event-level blocks decode to the written values",
     "For every trigger information, tracking position, telescope event header, image parameter, stereo reconstruction, pixel timing, pixel list and pixel trigger time block, in every supported version and with every combination of optional parts, each decoded quantity equals the written one, optional quantities are present exactly when written, and telescope ids and flags packed into block ids are unpacked correctly. "
     "Trigger type bits stored at the wrong position by affected simulation versions are moved to their right position and no other bit changes.",
     ["inputs"], "all field values, list lengths, flag combinations and supported versions",
     "tests compare a few values of existing blocks; versions 0 and 1 of several blocks do not occur in any sample file",
     [SO, V],
     [("block decoders", SO + ": 2009, 2011, 2014, 2015, 2016, 2027, 2032, 21xx"), ("pixel timing", V + ":simtel_pixel_timing_parse_list_type_1/2")], (), ["parse of the event-level simtel objects"])

prop("C19", "Monte Carlo truth blocks decode to the written values",
     "For every simulated shower, simulated event and photo-electron sum block in every supported version, including longitudinal profiles and extra parameters of any length, each decoded quantity equals the written one. "
     "Photo-electron sum blocks that contain per-pixel data are refused.",
     ["inputs"], "all field values, profile counts and lengths, extra parameter counts and supported versions",
     "tests see only one version of each block, without extra parameters",
     [SO, SP],
     [("block decoders", SO + ": MCShower, MCExtraParams, MCPhotoelectronSum, " + SP + ":parse_mc_event")], (), ["MCShower.parse", "MCEvent.parse", "MCPhotoelectronSum.parse"])

prop("C20", "Monitoring and calibration blocks decode to the written values",
     "For every camera monitoring, laser calibration and pixel monitoring block in every supported version and with every combination of contained parts, each part that was written is decoded to the written values with the right shape, and parts that were not written are absent.",
     ["inputs"], "all field values, dimensions, part/flag combinations and versions",
     "tests check one combination of parts from sample files",
     [SO],
     [("block decoders", SO + ": CameraMonitoring, LaserCalibration, PixelMonitoring")], (), ["parse of 2022, 2023, 2033"])

prop("C21", "Histograms decode to the written histograms",
     "For every histogram block, with one- and two-dimensional, integer and floating point histograms in any order, with any title and with or without entries, each histogram's axes, statistics and bin contents equal the written ones and two-dimensional contents are indexed by (y, x).",
     ["inputs"], "all sequences of histograms: type, title length and characters, bin counts, statistics and contents, both versions",
     "tests compare titles for one (missing) file",
     ["src/eventio/histograms.py"],
     [("block decoder", "src/eventio/histograms.py:Histograms.parse")], (), ["Histograms.parse"])

prop("C22", "History and metadata are returned completely and in order",
     "For every file, all history entries (command lines and configuration lines with their time stamps) and all global and per-telescope metadata entries are returned exactly as written, in order, by the blocks themselves, by the event reader and, for the section before the first event, by the command line reports, for any local time zone.",
     ["inputs"], "all history sequences, strings (any bytes, any storable length) and metadata dictionaries for any set of telescope ids",
     "tests check counts for one file and two text snippets",
     [SO, SF, "src/eventio/scripts/print_simtel_history.py", "src/eventio/scripts/print_simtel_metaparams.py"],
     [("block decoders", SO + ": HistoryCommandLine, HistoryConfig, HistoryMeta"), ("collection", SF + ":_parse_next_object"), ("reports", "src/eventio/scripts")], (), ["parse of 71, 72, 75", "SimTelFile.history/global_meta/telescope_meta", "eventio_print_simtel_history", "eventio_print_simtel_metaparams"])

prop("C23", "Telescope ids survive their encoding in block types and ids",
     "For every telescope id from 0 to 999, a telescope event or tracking position block whose type encodes that id is recognised as such and reports exactly that id, no two ids and no other block type share a type number, and blocks that pack a telescope id into their block id report exactly the packed id. "
     "A tracking position whose type and block id disagree about the telescope is refused.",
     ["inputs"], "all telescope ids 0..999 for types, all ids representable in each packed block id combined with all flag bits",
     "tests check nine ids",
     [SO, "src/eventio/simtel/__init__.py", IO],
     [("type arithmetic", SO + ":TelescopeEvent, TrackingPosition"), ("class table", "src/eventio/simtel/__init__.py")], (), ["class and telescope_id of objects obtained from a file"])

prop("C24", "Simulation files are assembled into the right events",
     "For every simulation file, iterating yields exactly one event per simulated event and per calibration event, in file order, each carrying its own event id, shower and event truth, trigger information, telescope data, tracking, reconstruction, photo-electron sums, photons and photo-electrons, and nothing that belongs to another event. "
     "Particles at observation level belong to all events of their shower only, calibration events are marked as such with negative ids that cannot collide with shower events, and the last event is delivered whether or not final histograms follow.",
     ["inputs", "histories"], "all files: any number of showers, re-uses, triggered and untriggered events, calibration events with or without true photo-electrons, telescopes and optional blocks",
     "tests check counts and ids on few files; no test checks that content is attributed to the right event",
     [SF],
     [("event assembly", SF + ":SimTelFile._parse_next_object, parse_array_event, parse_telescope_event, parse_telescope_data")],
     [("current_event, current_mc_shower, current_obslev_particles, _current_calib_pe", "data collected for the event being assembled", SF)], ["SimTelFile iteration"])

prop("C25", "Event selection options only select",
     "For every simulation file and every combination of selection options, the events delivered are exactly those of the unrestricted iteration that satisfy the selection, in the same order and with the same content: untriggered events are dropped if requested, calibration events are dropped if requested, and a telescope restriction removes exactly the recorded data (telescope events, tracking, monitoring) of other telescopes, whatever collection names them, while ids, truth and trigger information stay. "
     "A telescope restriction together with dropping untriggered events removes exactly the events in which no selected telescope has data.",
     ["inputs", "configurations"], "all files times all option combinations and telescope subsets (including disjoint ones)",
     "tests try one telescope subset on one (missing) file and count events",
     [SF],
     [("skipping", SF + ":_check_skip"), ("telescope restriction", SF + ":parse_array_event")], (), ["SimTelFile(..., skip_non_triggered, skip_calibration, allowed_telescopes)"])

prop("C26", "Events carry the monitoring and calibration data valid at their time",
     "Every event with telescope data carries, for exactly the telescopes with data, the camera monitoring, laser calibration and pixel monitoring values known when the event was read: later blocks overwrite earlier values of the same telescope key by key, and never those of other telescopes. "
     "Data attached to an event already delivered is never changed by reading further.",
     ["histories", "inputs"], "all interleavings of (partial) monitoring updates for any telescopes with events, and continued iteration after keeping events",
     "tests check that the keys exist in one file",
     [SF],
     [("last known values", SF + ":_add_monitoring")],
     [("camera_monitorings, laser_calibrations, pixel_monitorings", "last known values per telescope", SF)], ["events of SimTelFile", "SimTelFile attributes"])

prop("C27", "The file header is complete before the first event",
     "Opening a simulation file collects the run header, all Monte Carlo run headers, input cards, atmospheric profiles, and the complete description blocks of every telescope, each filed under its own telescope, whatever the order of the description blocks, without consuming or losing any event; the header section ends with the last description block. "
     "Blocks that occur between or after events update the same collections, histograms at the end are available after iteration, and unknown blocks cause only a warning.",
     ["inputs"], "all header layouts: telescope numbers and ids, block orders, repeated and optional blocks, unknown blocks anywhere",
     "tests check the number of telescopes in one file",
     [SF],
     [("header collection", SF + ":SimTelFile.__init__"), ("block dispatch", SF + ":_parse_next_object")],
     [("telescope_descriptions, mc_run_headers, corsika_inputcards, atmospheric_profiles, histograms", "file-level data", SF)], ["SimTelFile attributes"])

prop("C28", "Cutting a file keeps the largest possible whole prefix",
     "For every complete file and size limit, the cut tool writes exactly the longest prefix of the uncompressed stream that consists of whole top-level blocks and does not exceed the limit, independent of the input's and output's compression, also when the output replaces the input; otherwise the input stays as it was. "
     "Size limits with binary unit suffixes mean what they say and anything else is refused.",
     ["inputs", "configurations"], "all files, all limits including those exactly at a block boundary, all input and output compressions, all size strings",
     "the only test cuts one (missing) file once and checks an upper bound",
     ["src/eventio/scripts/cut_eventio_file.py"],
     [("cut position", "src/eventio/scripts/cut_eventio_file.py:main"), ("size parsing", "src/eventio/scripts/cut_eventio_file.py:parse_size")], (), ["eventio_cut_file"])

prop("C29", "Structure reports account for every block",
     "For every file, the object report lists, per type, version and nesting level, exactly the number of blocks in the file, in text and in JSON form, with telescope-specific types folded into their generic type; in truncated files every block whose header survived counts. "
     "The structure listing shows every block in file order at its nesting level or counts it in a summary line: printed lines plus counted blocks equal the number of blocks in the file.",
     ["inputs", "configurations"], "all files and all report options",
     "tests only check that the tools exit without error",
     ["src/eventio/scripts/print_object_information.py", "src/eventio/scripts/print_structure.py"],
     [("counting", "src/eventio/scripts/print_object_information.py:count_versions"), ("listing", "src/eventio/scripts/print_structure.py:print_structure")], (), ["eventio_print_object_information", "eventio_print_structure"])

prop("C30", "Readers release their resources",
     "After a reader is closed, its context is left (normally or by an exception), it is garbage collected, or its construction fails, no file handle and no helper process started for it remains, whatever was read before and for every compression. "
     "Closing is idempotent, closing one reader leaves others usable, and delivered values stay valid after closing.",
     ["histories", "fault_sequences"], "all histories of opening, reading, failing, closing and dropping any number of readers over all compressions",
     "tests close readers but never check what remains",
     [B, SF, II],
     [("finalizer", B + ":EventIOFile._cleanup, close")],
     [("_finalize", "cleanup callback", B)], ["open file descriptors and child processes of the own process"])

prop("C31", "Primitive readers consume exactly the value they return",
     "For every sequence of values in the primitive encodings of EventIO (16 and 32 bit integers, floats and doubles in little-endian order, variable-length integers, short and long strings, times, records and arrays of any type and length including none), the reading functions return exactly the written values and leave the stream directly behind each of them, on any file-like object and on any block. "
     "A number, record or array that is cut short is refused with an exception.",
     ["inputs"], "all sequences of values, starting offsets and kinds of streams",
     "tests read five numbers and one string each from one buffer",
     [T],
     [("reading functions", T)], (), ["eventio.tools.read_*"])

prop("C32", "Every block is represented by its type's class, nothing is guessed",
     "Every block, at top level or nested and whatever was read before, yields an object of the class documented for its type number, and any other type number yields a generic object that still gives its header, bytes and nested blocks and can always be printed. "
     "Parsing a block that only contains blocks is refused with ValueError and parsing one without a decoder with NotImplementedError; iterating a block of data is refused with ValueError and applying a class to a block of another type with WrongType.",
     ["inputs"], "all type numbers, versions, ids and contents, in any order and nesting",
     "tests check the classes of the blocks of a few files",
     [B, "src/eventio/simtel/__init__.py", "src/eventio/iact/__init__.py", "src/eventio/exceptions.py"],
     [("class table", B + ":KNOWN_OBJECTS"), ("type check", B + ":EventIOObject.__init__, __iter__, parse")], (), ["type(object)", "str(object)", "object.parse", "iter(object)"])

prop("C33", "Histogram plots show the histograms of the file",
     "For every file, eventio_plot_histograms makes exactly one plot for each histogram of each top-level histogram block, in the order of the file, titled with the title of the histogram, with exactly its bins and contents, and with every filled bin inside of the range shown, for empty histograms as well. "
     "With an output base the n-th plot is saved as BASE_NNN.FORMAT with the requested resolution, and otherwise the plots are shown one at a time.",
     ["inputs", "configurations"], "all files with histograms of all kinds that have finite axes and contents, in all storage forms, and all options",
     "the only test of the tool needs a file that is missing here and checks that ten output files exist",
     ["src/eventio/scripts/plot_hists.py", "src/eventio/histograms.py", "src/eventio/search_utils.py"],
     [("plotting", "src/eventio/scripts/plot_hists.py:main"), ("search", "src/eventio/search_utils.py:yield_toplevel_of_type")], (), ["eventio_plot_histograms"])

prop("C34", "Inconsistent event structure is refused, never misassembled",
     "A shower (IACT) file whose blocks deviate from the documented structure is refused with WrongType, ValueError or EOFError at the deviation, after all complete events before it, and never gives an event assembled from blocks of different showers or lacking telescopes; unknown blocks between the array offsets and the first telescope data may be skipped. "
     "In a simulation file, an array event that does not start with its trigger information, a telescope event that does not start with its header, a calibration event that does not contain an array event (WrongType) and telescope data without tracking position (NoTrackingPositions) are refused, unexpected blocks in calibration photo-electrons are skipped with a warning, and iterating further gives exactly the remaining events, unaffected by the refused block.",
     ["inputs", "histories"], "all files obtained from well-formed ones by removing, repeating, moving and adding blocks, and iteration after each refusal",
     "tests only read well-formed and cut files",
     ["src/eventio/iact/__init__.py", "src/eventio/simtel/simtelfile.py", "src/eventio/exceptions.py"],
     [("structure of shower files", "src/eventio/iact/__init__.py:IACTFile.__iter__"), ("structure of array events", "src/eventio/simtel/simtelfile.py:parse_array_event, parse_telescope_event"), ("type check", "src/eventio/exceptions.py:check_type")], (), ["IACTFile", "SimTelFile"])

prop("C35", "Reports and cut files are complete, or the tool says so",
     "For every file, the structure, object, history and metadata reports and the cut tool end successfully only if their whole output was written; if it cannot be written, at whatever byte the space ends, they end with an error. "
     "A report whose reader goes away after any number of bytes, as with head or less, has given exactly the first bytes of the full report, and ends quietly and successfully; the output is the same wherever it goes.",
     ["inputs", "fault_sequences"], "all files, tools and options, all positions at which the output ends, with and without buffering",
     "tests only compare the first lines of complete reports",
     ["src/eventio/scripts/__init__.py", "src/eventio/scripts/print_structure.py", "src/eventio/scripts/print_object_information.py", "src/eventio/scripts/print_simtel_history.py", "src/eventio/scripts/print_simtel_metaparams.py", "src/eventio/scripts/cut_eventio_file.py"],
     [("end of the output", "src/eventio/scripts/__init__.py:ignore_broken_pipe"), ("writing", "src/eventio/scripts/cut_eventio_file.py:main")], (), ["command line tools: output, messages, exit status"])

prop("C36", "Reading is a stream whose cost grows with what is read",
     "For every file, one pass over its blocks, events or showers in any container format needs an amount of work and of bytes read proportional to what it passes, and neither the pass nor the open reader keeps memory for blocks, events or showers it has left behind, so that files of any length can be read. "
     "Results are delivered before the file is read further than the following event, and going over blocks of an uncompressed file without using them reads their headers and not their contents.",
     ["inputs", "configurations"], "all files grown by repeating any of their parts, times every way to go through them and every container format",
     "tests only read small files to the end",
     [B, SF, "src/eventio/search_utils.py", "src/eventio/iact/__init__.py"],
     [("one block after the other", B + ":EventIOFile.__next__, PipeWrapper"), ("one event after the other", SF + ":_read_next_event"), ("generators", "src/eventio/search_utils.py")], (), ["iteration of EventIOFile, SimTelFile, IACTFile and objects", "peek", "search helpers", "structure reports"])

prop("C37", "Values, errors and readers work with worker processes and threads",
     "Everything delivered for any file (parsed values, events, attributes of the file) is self-contained data: it stays unchanged when the file is closed, overwritten or removed, can be printed, and survives copying and pickling with identical types and values, and so do errors with their type and message, so that files can be read by pools of worker processes or threads. "
     "A forked process that ends, or closes, drops or opens again the readers it inherited, does not disturb the readers of its parent, and threads that each read their own files get exactly what they would get alone.",
     ["inputs", "histories", "schedules"], "all files, valid or damaged, times all ways to copy a value, all moments at which processes are forked during reading, and all schedules of threads with their own readers",
     "tests never copy or pickle a value and never use several processes",
     [SF, II, B, "src/eventio/exceptions.py"],
     [("collected values", SF + ":SimTelFile.__init__, parse_telescope_data"), ("errors", "src/eventio/exceptions.py"), ("release of inherited readers", B + ":EventIOFile._cleanup")], (), ["parse results", "events", "file attributes", "exceptions"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
