# executed by spec.py: prop(id, title, statement, over, quantifier text, why tests cannot, files, mechanism, ...)
prop('C06', 'A failing step makes the library call that ran it report a failure',
     'Whenever an internal step of compression or decompression reports an error, the library call that ran it reports a failure, '
     'in that call or, where the error arises on another thread or in a callback, in the next call that looks. No error is turned '
     'into success, into a request for more input or output, or forgotten.',
     ['inputs', 'fault_sequences'],
     'for every input and option setting and every point at which an internal step can fail',
     'Tests reach a handful of the error returns and mostly check the happy path; the property ranges over every call site and every path behind it.',
     ['src/codec/mod.rs', 'src/codec/decoder.rs', 'src/divans_compressor.rs', 'src/divans_decompressor.rs', 'src/brotli_ir_gen.rs', 'src/ir_optimize/mod.rs', 'src/parallel_decompressor.rs', 'src/ffi/mod.rs'],
     [('result enums DivansResult / DivansOutputResult / CommandResult and their conversions', 'src/interface.rs, src/codec/interface.rs'),
      ('sticky stream error', 'src/threading.rs, src/multithreading.rs')],
     technique='path-sensitive typestate over MIR (error-propagation dataflow)',
     note='Every call in the library whose result can carry an error is followed along every path to the function end; a path that ends without reporting is a violation. '
          'Interprocedural by induction over functions: each function reports what its callees report. Named exceptions are listed in the rule.')
prop('C07', 'The Read/Write adapters lose nothing between codec and inner stream',
     'The std::io adapters lose nothing between the codec and the inner stream: an error of the inner stream comes back from the call that hit it or from the next one, '
     'interrupted reads are retried, and every byte the codec produced is written before success is returned. '
     'Flush succeeds only once the codec has finished and the inner writer has been flushed, and compressed input that ends early is an error of the decompressing reader.',
     ['inputs', 'fault_sequences'],
     'for every data stream, buffer size and sequence of short, interrupted or failing inner reads and writes',
     'Tests use in-memory readers and writers that never fail, never return short counts and never end early.',
     ['src/reader.rs', 'src/writer.rs'],
     [('GenReader::read', 'src/reader.rs'), ('GenWriter::write / flush', 'src/writer.rs'), ('Processor::process / close', 'src/reader.rs, src/writer.rs')],
     technique='path-sensitive typestate over MIR of the io::Read / io::Write implementations',
     note='Eight typestate rules over every io::Read / io::Write implementation of the crate, all paths.')
prop('C19', 'The divans command exits 0 only if everything succeeded',
     'The divans command ends with status zero only if everything it did succeeded: a failed read, write or final flush, malformed text input, a codec failure, '
     'or compressed input that ends early gives a nonzero status. Interrupted reads and writes are retried rather than ending the run.',
     ['inputs', 'fault_sequences'],
     'for every command line, input file and sequence of failing, short or interrupted reads and writes',
     'The test suite calls inner functions with in-memory buffers; the command\'s own file handling and exit status are never exercised with failures.',
     ['src/bin/divans.rs', 'src/bin/util.rs'],
     [('compress / decompress / recode drivers', 'src/bin/divans.rs'), ('main exit status', 'src/bin/divans.rs')],
     technique='path-sensitive typestate over MIR of the command (error, retry, flush, end-of-input rules)',
     note='Every call of the command that can fail is followed to the function end and through main to the exit status.')
prop('C09', 'No thread of a parallel decompression waits forever for its partner',
     'In a multithreaded decompression a thread that waits does so only after finding, under the lock of the shared queue, that what it needs is missing, with itself counted as a waiter, and looks again after every wakeup. '
     'Whoever changes what the other thread may be waiting for wakes it before giving up control. Locks are always taken in one order and never twice by one thread.',
     ['schedules', 'inputs'],
     'for every interleaving of the main thread and the worker, every wakeup (spurious ones included) and every input',
     'A lost wakeup or a lock-order inversion needs one particular interleaving; the tests sample a few schedules.',
     ['src/multithreading.rs', 'src/threading.rs', 'src/parallel_decompressor.rs'],
     [('MultiWorker / BufferedMultiWorker push, pull and wait loops', 'src/multithreading.rs'), ('SerialWorker queue state and readiness predicates', 'src/threading.rs')],
     technique='lock-section typestate and lock-order graph over MIR',
     note='All locked sections of the queue, all paths; wait conditions are computed from the code, so a new wait or a new queue field is covered without a list.')
prop('C10', 'A failed or abandoned parallel decompression ends its worker',
     'However a multithreaded decompression stops (a corrupt stream, an error of either side, free or drop at any point), both threads come to an end: the worker tells the main thread of its failure, and stops when the main thread has given up. '
     'No wait begins or goes on once the stream has failed, a recorded failure is never taken back, and freeing or dropping the decompressor tells the worker to stop before waiting for it.',
     ['schedules', 'inputs', 'fault_sequences'],
     'for every point of the stream at which either side fails or the caller frees or drops the decompressor, and every interleaving',
     'Tests decompress whole valid streams; abandoning a stream midway and the many places a worker can fail at are not sampled.',
     ['src/multithreading.rs', 'src/threading.rs', 'src/parallel_decompressor.rs', 'src/divans_decompressor.rs'],
     [('worker thread closure', 'src/parallel_decompressor.rs'), ('broadcast_err', 'src/threading.rs, src/multithreading.rs'), ('free / free_ref / Drop', 'src/parallel_decompressor.rs')],
     technique='typestate over MIR (wait entry, broadcast, worker loop, free, drop glue)',
     note='Six typestate rules over all waits, broadcasts, worker closures, and lock sites of the lock a running worker holds.')
prop('C12', 'The C interface checks its pointers and returns the codec\'s own status',
     'Every exported C function that returns a status returns the code of exactly what the codec reported in that call, and DIVANS_FAILURE when an argument it needs is NULL. '
     'No pointer from C is dereferenced or turned into a slice while it may be NULL, slices have the length passed with their pointer, memory asked of the caller\'s allocator is as large as what is put into it, and every buffer and offset reaches the codec in its own role. '
     'Constants, prototypes and layouts of the C header agree with the library.',
     ['inputs', 'histories'],
     'for every sequence of calls of the exported functions with any NULL or empty arguments, and every result of the codec',
     'The Rust tests never call the exported functions; a wrong code or a missing check on one branch needs one particular call.',
     ['src/ffi/mod.rs', 'src/ffi/compressor.rs', 'src/ffi/interface.rs', 'c/divans/ffi.h'],
     [('divans_encode / divans_encode_flush / divans_decode / divans_set_option', 'src/ffi/mod.rs'), ('CompressorState', 'src/ffi/compressor.rs'), ('return codes and options', 'src/ffi/interface.rs, c/divans/ffi.h')],
     technique='path-sensitive typestate over MIR of the exported functions; comparison of header and symbols',
     note='All paths of all exported functions with a status or a state as result; the header is parsed and compared item by item.')
prop('C13', 'Only the C interface touches raw memory',
     'Everything outside the C interface is safe Rust: no unsafe block, function or trait impl, no raw-pointer operation and no mutable static, so no input to a safe caller can corrupt memory. '
     'Exported functions that take raw pointers cannot be called from safe code.',
     ['inputs', 'schedules'],
     'for every input, option setting and schedule of the threads',
     'An unchecked access goes unnoticed by tests that stay in bounds; absence of unsafe code is a statement about all of the source.',
     ['src/lib.rs', 'src/codec', 'src/probability', 'src/ans.rs', 'src/threading.rs', 'src/multithreading.rs', 'src/ffi/mod.rs'],
     [('C interface module', 'src/ffi'), ('documented feature "safe": no unsafe code', 'Cargo.toml')],
     technique='inventory of unsafe code over the type-checked program',
     note='Every body, impl and static of the library in its default configuration.')
prop('C14', 'Results depend only on the calls made and their arguments',
     'The library keeps no state between streams and asks nothing of its surroundings: no clock, randomness, environment, hash seed, thread identity or address influences what compression or decompression returns, and no static changes. '
     'The same calls with the same arguments give the same bytes in every process.',
     ['inputs', 'histories', 'schedules'],
     'for every sequence of calls, on any thread, after any other streams',
     'A dependence on time, addresses or earlier streams shows up only between runs, which a test inside one run does not compare.',
     ['src/lib.rs', 'src/codec', 'src/divans_compressor.rs', 'src/brotli_ir_gen.rs', 'src/multithreading.rs'],
     [('codec state lives in the stream object', 'src/codec/mod.rs'), ('statics', 'src/codec/specializations.rs, src/probability')],
     technique='effect analysis over MIR (denied sources, address-to-number casts, statics)',
     note='Every call site, cast and static of the library. Memory contents come from initialised allocations because there is no unsafe code (C13).')
prop('C17', 'Every option takes effect exactly as given',
     'Each option of the C interface sets its own setting, from the value given, before coding starts; a value outside the documented range or an option set too late is refused and changes nothing. '
     'The compressor uses each setting under its own name (window clamped to 10..24 and written as such to the header, Brotli parameters, adaptation speeds, prior depth, strides, mixing), and what the decoder must know of it is coded into the stream. '
     'Readers, writers, the C interface and the command hand options on unchanged, and skip_crc and multithread reach the decoder un-negated and not mixed up.',
     ['inputs', 'histories'],
     'for every option, every value of it and every combination of options, at every entry point',
     'The compressed stream decodes whatever the options were, so tests that round-trip pass when an option is dropped, swapped with its neighbour or off by a digit.',
     ['src/ffi/compressor.rs', 'src/ffi/mod.rs', 'src/divans_compressor.rs', 'src/brotli_ir_gen.rs', 'src/divans_decompressor.rs', 'src/reader.rs', 'src/writer.rs', 'src/bin/divans.rs'],
     [('CompressorState::set_option', 'src/ffi/compressor.rs'), ('DivansCompressorFactory::new', 'src/divans_compressor.rs, src/brotli_ir_gen.rs'), ('HeaderParser', 'src/divans_decompressor.rs'), ('command line flags', 'src/bin/divans.rs')],
     technique='backward value slices and path-sensitive store analysis over MIR',
     note='Every option, every named setting of the codec, every constructor that takes options, every flag of the command.')
prop('C01', 'Encoder and decoder keep the same model: it depends on coded data only',
     'Everything the codec predicts and decodes with (priors, adaptation, book keeping, ring buffer, state, and which nibble is coded next with which probability) is a function of the nibbles coded so far and of fixed constants. '
     'The command being encoded, the encoder\'s settings and the side the codec runs on reach it only through a coded nibble, and the initial model is the same on both sides.',
     ['inputs', 'histories'],
     'for every sequence of commands, every option setting and every history of the model',
     'A model that peeks at the command still round-trips wherever the peeked value equals the coded one, so sampled files pass; only values that differ make the decoder drift.',
     ['src/codec/mod.rs', 'src/codec/literal.rs', 'src/codec/copy.rs', 'src/codec/dict.rs', 'src/codec/context_map.rs', 'src/codec/block_type.rs', 'src/codec/interface.rs', 'src/divans_to_raw/mod.rs', 'src/cmd_to_divans/mod.rs'],
     [('coding state machines encode_or_decode*', 'src/codec'), ('get_or_put_nibble as the only channel', 'src/interface.rs'), ('CrossCommandState::new', 'src/codec/interface.rs')],
     technique='interprocedural information flow (explicit and implicit) over MIR',
     note='All coding steps with everything they call, every store that outlives them, every coded nibble; all paths that do not end in a failure.')

prop('C04', 'Every byte consumed or produced is counted exactly once',
     'A call that takes a byte buffer with a cursor reads or writes only the run that starts at the cursor, in order and without gaps, and leaves the cursor (or returns a count) exactly at the end of that run. '
     'The same holds for the buffers kept between calls: ring buffers, stream buffers, header and trailer are filled and drained at their stored index, which moves by the bytes moved. '
     'So how the caller slices input and output never loses, repeats or invents a byte.',
     ['inputs', 'schedules', 'histories'],
     'for every input, every way of slicing the input and output buffers, and every point at which a call runs out of room',
     'An index that is off only when a copy ends inside a particular region (after a wrap, with one byte of room, with a half sent chunk) needs one exact combination of total size and slicing.',
     ['src/mux.rs', 'src/cmd_to_raw/mod.rs', 'src/raw_to_cmd/mod.rs', 'src/codec/mod.rs', 'src/codec/decoder.rs', 'src/divans_compressor.rs', 'src/divans_decompressor.rs', 'src/arithmetic_coder.rs', 'src/ans.rs', 'src/brotli_ir_gen.rs'],
     [('functions with a buffer and a cursor', 'src'), ('DivansRecodeState ring buffer', 'src/cmd_to_raw/mod.rs'), ('Mux stream buffers', 'src/mux.rs'), ('RawToCmdState ring buffer', 'src/raw_to_cmd/mod.rs')],
     technique='symbolic value flow (linear forms, path sensitive, loops cut at their heads) with callee contracts over MIR',
     note='Every library function with a byte buffer and cursor or a returned count (103 obligations), 13 stored cursors, the multiplexer; lengths are assumed not to wrap; contents of the bytes are not judged.')
prop('C16', 'What the encoder codes is what the decoder reads back',
     'Every field of a command that the decoder rebuilds from coded nibbles equals the field of the command that the encoder coded, for every value the field can have: short forms, escapes to long forms, length and digits, halves of a byte, places among recent values. '
     'The code for each kind of command is read as that kind, a command that has been read is handed on as what it is, and a chunk of a stream is read with the length it was announced with.',
     ['inputs', 'histories'],
     'for every command with every value of every field, after every history of recent values',
     'Rare branches (a copy of over 2^18 bytes, a block type over 12, a distance code that equals a recent distance less 3) carry their own arithmetic; samples reach few of them.',
     ['src/codec/copy.rs', 'src/codec/dict.rs', 'src/codec/literal.rs', 'src/codec/block_type.rs', 'src/codec/context_map.rs', 'src/codec/mod.rs', 'src/codec/interface.rs', 'src/mux.rs'],
     [('*State::encode_or_decode', 'src/codec'), ('command_type_to_nibble / update_command_state_from_nibble', 'src/codec/mod.rs'), ('distance_mnemonic_code', 'src/codec/interface.rs'), ('get_code / deserialize', 'src/mux.rs')],
     technique='symbolic value flow through the shared coding functions, the coded term substituted for the value read',
     note='All coding states of 6 coding functions (780 paths), 9 command codes, 35 ways a command is handed on, 68 chunk announcements; the entropy coder is assumed to give back the coded nibble, literal bytes are not followed.')

prop('C02', 'A call that runs out of room or input can be resumed without loss',
     'When coding stops because output space or buffered input ran out, everything done so far is recorded in the codec state, and the next call continues exactly there: no nibble or byte is coded twice or skipped, no adaptation or bookkeeping is repeated, and no command is dropped or repeated. '
     'Each nibble is coded only after its coder was drained or filled, a shortage is passed on as that shortage, and a command counts as done only when it is completely coded. '
     'Commands already assembled from the input when the compressor runs out of output space are kept and coded first by the next call.',
     ['inputs', 'schedules', 'histories'],
     'for every input and every way of slicing it into calls, whatever point of whatever command a call stops at',
     'The stopping point depends on how many bytes the entropy coder happened to emit: a position that is off only when a shortage falls between two particular nibbles needs one exact combination of content and buffer size.',
     ['src/codec/copy.rs', 'src/codec/dict.rs', 'src/codec/literal.rs', 'src/codec/block_type.rs', 'src/codec/context_map.rs', 'src/codec/mod.rs', 'src/codec/decoder.rs', 'src/divans_compressor.rs'],
     [('*State::encode_or_decode', 'src/codec'), ('code_nibble_array', 'src/codec/literal.rs'), ('encode_or_decode_one_command', 'src/codec/mod.rs'), ('freeze_dry / flush_freeze_dried_cmds', 'src/divans_compressor.rs')],
     technique='path-sensitive resumption typestate over MIR, with symbolic comparison of stored positions',
     note='All 13 resumable functions, 32 coded nibbles, 34 points of suspension; the entropy coders\' own room for one nibble is assumed.')
prop('C03', 'Success means the whole stream was read, written out and verified',
     'A decompressor reports success only after the end of the stream was decoded, all output was handed out, all eight trailer bytes were read, and each equals what it must be: '
     'the CRC-32C of every byte of the stream before the trailer, header included, then the magic bytes; a mismatch is a failure, and only with skip_crc may the four CRC bytes (never the magic) differ. '
     'The compressor puts every byte it produces, header included, into the same checksum exactly once, so a truncated or damaged stream is not taken for a whole one.',
     ['inputs', 'histories', 'fault_sequences'],
     'for every stream, every truncation or damage of it, and every way of slicing it into calls',
     'Tests flip a few bytes of sample streams; a byte that a particular call pattern leaves out of the checksum, or a trailer byte that is never compared, goes unnoticed.',
     ['src/codec/decoder.rs', 'src/codec/mod.rs', 'src/divans_compressor.rs', 'src/divans_decompressor.rs', 'src/parallel_decompressor.rs'],
     [('trailer check', 'src/codec/decoder.rs'), ('checksum of input', 'src/codec/decoder.rs'), ('checksum of output and trailer', 'src/codec/mod.rs'), ('write_header', 'src/divans_compressor.rs')],
     technique='path-sensitive typestate over MIR and symbolic value flow of the checksummed runs',
     note='Every success return of the decoder, every caller above it, every checksum update, every trailer layout.')

prop('C20', 'Two threads decode a stream exactly as one thread would',
     'Whether a stream is decoded by one thread or with a worker thread, every command read takes effect exactly once, in the order of the stream, and as the command it is: nothing that passes between the threads (input data, prediction mode maps, commands, batches of commands, the end of the stream, used buffers) is lost, repeated, reordered or altered. '
     'A thread waits for the other only when it has nothing it could do, and goes on only when it has. '
     'On the main thread each kind of command has the effect it has when one thread does all the work, and the end of the stream is acted upon only after the last command.',
     ['inputs', 'schedules', 'histories'],
     'for every stream, every slicing into calls and every interleaving of the two threads',
     'How many commands wait in the queue at which moment depends on the scheduler; an item put in the wrong place shows only when two of them wait, or a batch is cut by a prediction mode.',
     ['src/threading.rs', 'src/multithreading.rs', 'src/parallel_decompressor.rs', 'src/codec/decoder.rs', 'src/codec/mod.rs'],
     [('SerialWorker', 'src/threading.rs'), ('MultiWorker / BufferedMultiWorker', 'src/multithreading.rs'), ('decode_process_output', 'src/codec/decoder.rs'), ('fork / join', 'src/codec/mod.rs')],
     technique='symbolic per-path comparison of queue operations and command effects with their reference behaviour',
     note='20 wrapper functions, 6 waits, every queue operation and every kind of command on the main thread; literal bytes and the command interpreter are C16 and C04.')

prop('C08', 'Finishing a stream writes everything the compressor still holds, once',
     'Flushing a compressor writes, in this order and once each, everything it still holds: input not yet made into commands, commands kept from an earlier call, the end-of-stream marker, what both entropy coders hold, the multiplexer\'s buffers and its end marker, and the eight trailer bytes; a call that runs out of room is continued by the next one exactly where it stopped. '
     'Success is reported only when all of it has been written, and again on every later flush, which writes nothing. '
     'From the moment the end marker is coded, no further command or input is accepted.',
     ['inputs', 'histories'],
     'for every input, every point at which the output buffer is full, and every number of flush calls',
     'A step done too early or twice shows only when the output buffer is full at that step, or when a coder still holds bytes there.',
     ['src/codec/mod.rs', 'src/codec/interface.rs', 'src/mux.rs', 'src/ans.rs', 'src/divans_compressor.rs', 'src/brotli_ir_gen.rs'],
     [('DivansCodec::internal_flush', 'src/codec/mod.rs'), ('Mux::serialize_close', 'src/mux.rs'), ('Compressor::flush', 'src/divans_compressor.rs'), ('internal_encode_stream', 'src/brotli_ir_gen.rs')],
     technique='typestate: least fixpoint over the steps of the shutdown machine, extracted symbolically path by path',
     note='Every path through one turn of the shutdown is a step; what has been done in each state is the least that all ways to it have done. 9 states, 54 steps, plus the functions above and below it.')

prop('C15', 'Compressed data without meaning is refused before it is used',
     'A value read from compressed data that the format gives no meaning is answered with a failure before anything is done with it: a header of another format or with a window outside 10..24, a command code, mode, adaptation speed, dictionary word or transform that does not exist, a copy with distance 0, a length of more bits than its type. '
     'No value read from a stream is used to shift or to index a table before it is known to be in range.',
     ['inputs', 'histories'],
     'for every compressed stream, well formed or not, after every history of commands',
     'The values come out of an adaptive entropy coder: tests that damage streams hit a particular field with a particular value only by chance.',
     ['src/codec/copy.rs', 'src/codec/dict.rs', 'src/codec/literal.rs', 'src/codec/block_type.rs', 'src/codec/context_map.rs', 'src/codec/mod.rs', 'src/codec/interface.rs', 'src/cmd_to_raw/mod.rs', 'src/divans_decompressor.rs'],
     [('*State::encode_or_decode', 'src/codec'), ('get_distance_from_mnemonic_code', 'src/codec/interface.rs'), ('parse_dictionary', 'src/cmd_to_raw/mod.rs'), ('HeaderParser::parse_header', 'src/divans_decompressor.rs')],
     technique='interval analysis over the MIR of the coding state machines, with path conditions and inferred state invariants',
     note='Every shift and table index by a value from the stream, and every place that accepts a code, over every path of every state. Indices bounded by run-time lengths kept elsewhere are counted, not judged.')
# ---- not decided by this family
prop('N01', 'Decompressing what was compressed gives back the input',
     'For every input, option setting and slicing into calls, decompressing the compressed stream gives exactly the input.',
     ['inputs', 'histories'], 'for every input and every option setting',
     'A round trip holds or fails per input; samples reach few model states.',
     ['src'], [('whole codec', 'src')],
     na='The end-to-end equation needs the arithmetic of the entropy coder, of the Brotli command generator and of the command interpreter over all inputs, values no static argument in reach bounds. Its static parts are decided as C01, C02, C03, C04, C16 and C20.')
prop('N02', 'The entropy coders are exact inverses for every probability sequence',
     'For every sequence of nibbles and distributions, the ANS decoder (and the arithmetic decoder) returns the nibbles the encoder was given.',
     ['inputs', 'histories'], 'for every sequence of symbols and valid distributions',
     'The state is 64 bits wide and the equation depends on divisions and renormalisation at each step.',
     ['src/ans.rs', 'src/arithmetic_coder.rs'], [('ANSEncoder / ANSDecoder', 'src/ans.rs')],
     na='Exact inversion is integer arithmetic with division over runtime state; needs proof or solving, not dataflow.')
prop('N03', 'Adaptive distributions stay valid',
     'After every update of a CDF each symbol keeps a nonzero frequency, the cumulative values stay monotone and the total stays within the coder\'s precision.',
     ['inputs', 'histories'], 'for every sequence of updates with every speed',
     'An invalid distribution needs a long, skewed run of updates.',
     ['src/probability'], [('blend / average', 'src/probability')],
     na='Relational numeric invariants of 16 interdependent fixed-point values under shifts and renormalisation; interval analysis is too weak for them.')
prop('N04', 'Coding makes progress and ends',
     'Every call with room and input left makes progress, and finitely many calls complete any stream.',
     ['inputs', 'schedules', 'histories'], 'for every input and slicing into calls',
     'A stall needs a particular alignment of buffers.',
     ['src/codec', 'src/cmd_to_raw', 'src/raw_to_cmd'], [('resumable state machines', 'src/codec')],
     na='A ranking argument over resumable state machines with runtime lengths; the static parts (no state is left without its work, a shortage is passed on only when there is one) are in C02 and C04.')
prop('N05', 'The stream is not larger than documented and coding speed is bounded',
     'Compressed size and running time stay within fixed factors of the input for every input.',
     ['inputs'], 'for every input', 'Samples say nothing about worst cases.',
     ['src'], [('whole codec', 'src')],
     na='Size and time are quantities of runs; no static bound in reach.')
