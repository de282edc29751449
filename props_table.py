T_FEW = 'The unit tests drive a handful of fixed sequences and values; '
prop('C01', 'Linked lists are faithful ordered sequences under every operation',
 'A linked list behaves as an ordered sequence: every insertion, removal, replacement, lookup and clearing leaves exactly the elements a plain sequence would hold, in the same order, reports the position or outcome of what it did, and leaves the list unchanged when it reports failure. Values that occur more than once are all visible to search and removal. All memory is returned when the list goes away.',
 [I, H], 'every sequence of operations and every element value, on lists of any composition', T_FEW + 'they never combine duplicates, removals by value at the head and positional inserts exhaustively.',
 ['src/LightLinkedList.h'], [('LinkedList<T>', 'src/LightLinkedList.h')])
prop('C02', 'Priority queues serve highest priority first, FIFO among equals',
 'A priority queue always yields its elements in order of non-increasing priority, and elements of equal priority in the order they were inserted, however insertions, removals, lookups and priority queries are interleaved. Removal by value removes every occurrence and nothing else, counts and per-priority counts are exact, and an insert-if-absent never stores a duplicate and reports where the element stands.',
 [I, H], 'every interleaving of operations, every element and every 32-bit priority', T_FEW + 'ties, extreme priorities and duplicate removal are sampled once each.',
 ['src/PriorityQueue.h'], [('PriorityQueue<T>', 'src/PriorityQueue.h')])
prop('C03', 'Ring buffers are bounded FIFOs: nothing lost, duplicated or reordered',
 'A ring buffer of a given capacity returns exactly the accepted elements in order of acceptance across any number of wrap-arounds; it refuses, without side effect, what does not fit, and its count, vacancy, capacity, peek, containment and bulk transfer answers always agree with that sequence.',
 [I, H], 'every capacity, rotation, fill level, element value and sequence of operations', T_FEW + 'wrap-around positions crossed with partial bulk operations are not covered.',
 ['src/RingBuffer.h'], [('RingBuffer<T>', 'src/RingBuffer.h')])
prop('C04', 'Element pools hand out each element once, and take back only their own',
 'A pool never hands the same element to two holders, never exceeds its configured overdraw limit, accepts back only what it handed out, and frees what it allocated beyond its capacity. Its counts of available, taken and overdrawn elements always agree with what is outstanding.',
 [I, H], 'every capacity, overdraw limit and sequence of takes, gives and foreign gives', T_FEW + 'they exercise one take/give pattern.',
 ['src/ElementPool.h'], [('ElementPool<T>', 'src/ElementPool.h')])
prop('C05', 'String builders: content is the exact concatenation, however fragmented',
 'However a string builder was assembled from fragments, and however whole fragments, limits or positions are moved or copied between builders, its content is exactly the bytes a flat string would hold: nothing lost, duplicated or reordered, and a donor keeps exactly what was not moved. Out-of-range offsets, positions and lengths never read or write outside the content. All memory is returned.',
 [I, H], 'every fragmentation, content, and every 32-bit offset, limit and length', T_FEW + 'fragment boundaries crossed with limits and offsets are not enumerated, and hostile offsets are not tried.',
 ['src/StringBuilder.cpp', 'src/StringBuilder.h'], [('fragment list maintenance', 'StringBuilder::concat*, concatHandoff*, cull, chunk, drop_position, copyToBuffer, _collapse')])
prop('C06', 'String search, replace, split, join and conversion match the flat text',
 'Searching, replacing, splitting, joining, case conversion, trimming and numeric interpretation give the answer the same operation gives on the flat text, independent of how the string is fragmented: first occurrence at or after the start, left-to-right non-overlapping replacement, tokens between delimiters. Formatted and integer appends add exactly the text that denotes the value.',
 [I], 'every content, needle, replacement, delimiter, start offset and fragmentation', T_FEW + 'needles spanning fragments, self-overlapping needles and non-ASCII bytes are barely sampled.',
 ['src/StringBuilder.cpp'], [('scanners over fragments', 'StringBuilder::locate, replace, split, implode, position_as_int, position_as_uint64, strcasestr')])
prop('C19', 'UUIDs are well-formed, and text and binary forms agree both ways',
 'A generated UUID is version 4 and RFC 4122 variant, whatever the random source returns. The printed form is the canonical 8-4-4-4-12 lower-case hex text of its bytes, never longer than the given buffer; parsing that text gives the same identifier back, parsing ignores anything that is not a hex digit and never reads or writes past 16 bytes, and comparison is zero exactly for equal identifiers.',
 [I], 'every identifier, every random source output, every text', T_FEW + 'round trips are tried for a few random values, and malformed text not at all.',
 ['src/Identity/IdentityUUID.cpp', 'src/uuid.cpp', 'src/uuid.h'], [('UUID generation and text codec', 'uuid_gen, uuid_to_str, uuid_to_sb, uuid_from_str, uuid_compare')])
prop('C27', 'Timeouts expire exactly once their period elapsed, across counter wrap',
 'A periodic timeout is expired exactly when its period has elapsed since the reset, also when the 32-bit clock wraps in between; the remaining time is the period less the time elapsed and never more than what was left when asked, zero once expired; a triggered timeout is expired at once; resetting starts a full period. Time-since and time-until helpers are exact across the wrap.',
 [I, S], 'every start time, period, elapsed time, and clock movement while the functions run', T_FEW + 'they run on the real clock and cannot reach the wrap of the counter.',
 ['src/TimerTools/TimerTools.h', 'src/AbstractPlatform.cpp'], [('PeriodicTimeout', 'src/TimerTools/TimerTools.h'), ('wrap_accounted_delta and friends', 'src/CppPotpourri.h')])
prop('C28', 'Stopwatches report exact durations and statistics across counter wrap',
 'A stopwatch counts a measurement for each stop that follows a start, with a duration equal to the time between them, also across the wrap of the clock; last, shortest, longest, mean, total and number of executions are exactly those of the measurements made since the last reset; a stop without a start is refused and changes nothing. A watch packed to CBOR unpacks to one with the same tag and statistics, and no record makes it crash.',
 [I, H], 'every sequence of start, stop, add and reset and every clock reading', T_FEW + 'durations on a live clock are only checked to be plausible.',
 ['src/TimerTools/StopWatch.cpp', 'src/TimerTools/TimerTools.h'], [('StopWatch', 'markStart, markStop, addRuntime, reset'), ('packing', 'C3PTypeConstraint<StopWatch*>')])
prop('C31', 'Enum definition lists answer by value and by name exactly as declared',
 'An enum list answers validity, name, context and definition of a value exactly as declared, for any combination of definitions and flags; lookup by name is case-insensitive, reports whether it was found, and falls back to the declared catch-all; exported names are all valid ones in order.',
 [I, C], 'every list, value and name', T_FEW + 'lists with several catch-alls, invalid entries and near-miss names are not enumerated.',
 ['src/EnumWrapper.h'], [('EnumDefList<T>', 'src/EnumWrapper.h')])
prop('C34', 'Integer, flag, reference-count, date and PRNG helpers compute exactly',
 'Maximum, minimum, difference, saturation, swap and wrap-around displacement give the mathematical answer for every operand of every width; flag containers set, clear, flip and test exactly the given bits; reference counts never wrap or go below zero; a date and time maps to its epoch second, and a field out of range is refused; the PRNG writes exactly the requested bytes and repeats for equal seeds; a random number of any width is exactly the bytes drawn for it; digest art is always a full frame.',
 [I], 'every operand, flag pattern, count, date from 1970 to 2099 and seed', T_FEW + 'extreme operands, leap years and request lengths are sampled.',
 ['src/CppPotpourri.h', 'src/CppPotpourri.cpp', 'src/FlagContainer.h'], [('strict_*, delta_assume_wrap, C3PRefCounter, C3P_pRNG, stringToTimestamp, randomArt', 'src/CppPotpourri.*'), ('FlagContainer*', 'src/FlagContainer.h')])
prop('C39', 'The logger delivers every accepted message once, in order',
 'A message is accepted exactly if its severity is within the verbosity; text of accepted messages reaches the sink or the retained log exactly once and in order, whatever part of it the sink takes at each push; a refused message stays with its owner; fetching the log relinquishes it. Each line is headed by the time, severity and tag its options ask for, tags aligned to the longest so far, and truncated beyond the limit.',
 [I, H, F], 'every severity, verbosity, message sequence and sink behaviour', T_FEW + 'their sink accepts everything.',
 ['src/C3PLogger.h'], [('C3PLogger', 'print, fetchLog, sink claims')])
prop('C07', 'Typed value conversions are exact or refused, never silently wrong',
 'Converting a stored number, boolean or vector to another type, in either direction, either gives exactly the value the source denotes in the destination type (C conversion rules where the library declares a loss acceptable) or is refused and leaves the destination alone. Conversions declared free of risk always succeed and are exact; no conversion reads or writes beyond the operands. Numeric types are told apart by sign and wholeness.',
 [I], 'every pair of types and every value of the source', T_FEW + 'each conversion is tried with one or two values, rarely at the limits of a type.',
 ['src/C3PValue/C3PType.cpp', 'src/C3PValue/C3PType.h', 'src/C3PValue/C3PValue.cpp'], [('C3PTypeConstraint<T>::set_from, get_as, conversionRisk', 'src/C3PValue/C3PType.cpp')])
prop('C08', 'Value containers hold what they were given, own what they should',
 'A value container returns exactly the value it was constructed with or last set to, of the type it reports, through every accessor and iteration; a set that fails leaves it as it was; pointer and length of binary values stay together; chained values keep order, count and index; dropping, unlinking and destroying containers returns exactly the memory they own and touches nothing else.',
 [I, H], 'every value, and every composition of containers', T_FEW + 'ownership flags crossed with types, and failed sets, are not tried.',
 ['src/C3PValue/C3PValue.cpp', 'src/C3PValue/C3PValue.h', 'src/C3PValue/C3PType.cpp'], [('C3PValue', 'constructors, set, get_as, link, unlink, drop, valueWithIdx')])
prop('C11', 'CBOR decoding is total and exact: values per RFC 8949, or an error',
 'Any byte sequence given to a CBOR decoder yields the values RFC 8949 assigns to it, in order, or is refused or held back as incomplete: never a read beyond the input, a crash, invented or lost data. Decoded text, binary, keys and vectors equal the bytes on the wire, 64-bit integers keep every bit and sign, and everything decoded can be released without leak.',
 [I], 'every byte sequence, and every fragmentation of it', T_FEW + 'they decode what the library itself encoded, and no hostile input.',
 ['src/cbor-cpp/cbor.cpp', 'src/cbor-cpp/cbor.h', 'src/C3PValue/C3PValue.cpp', 'src/C3PValue/KeyValuePair.cpp'], [('cbor::decoder', 'src/cbor-cpp/cbor.cpp'), ('C3PValueDecoder', 'src/C3PValue/C3PValue.cpp'), ('CBORArgListener', 'src/C3PValue/KeyValuePair.cpp')])
prop('C22', 'Images: a pixel reads back as set, others do not change, nothing overflows',
 'Setting a pixel stores its color, reduced to the depth of the format, at that pixel and changes no other, for every format, orientation and flip; pixels outside the image are refused and read as zero; fill sets every pixel. A buffer that an image borrows is never freed, resized or overrun by it. A serialized image deserializes to the same image, and no input makes deserialization read or write out of bounds. Color formats convert by keeping the most significant bits.',
 [I, C], 'every coordinate, color, content, format, orientation, and every input to deserialization', T_FEW + 'they use one format and image sizes that are multiples of 8.',
 ['src/Image/Image.cpp', 'src/Image/Image.h'], [('Image', 'setPixel, getPixel, getPixelAsFormat, fill, serialize, deserialize, setBuffer*, setSize, reallocate, wipe')])
prop('C23', 'Drawing touches exactly the pixels of the shape, clipped to the image',
 'Lines join their ends without gaps along the nearest pixels; rectangles, triangles, circles and rounded rectangles cover the pixels inside of their ideal shape and none outside, also where the shape crosses the edges of the image; text advances the cursor, wraps and stays within the bounds the library reports for it, and draws the glyphs of a font as its bitmaps say; scaling copies the corresponding pixels and writes nothing outside of the target area. Every call returns.',
 [I], 'every placement, size and text', T_FEW + 'drawing is only exercised to see that it runs.',
 ['src/Image/Image.cpp', 'src/Image/ImageUtils/ImageScalers.cpp'], [('drawing primitives', 'drawLine, drawFast*Line, *Rect, *RoundRect, *Triangle, *Circle, drawChar, writeString, getTextBounds'), ('ImageScaler', 'src/Image/ImageUtils/ImageScalers.cpp')])
prop('C09', 'Key-value lists resolve every key to the pair stored for it',
 'Looking up a key in a key-value list finds the first pair with exactly that key, whatever mixture of borrowed, copied, empty and absent keys the list holds, and nothing for a key that is absent; keys, values, order, count and nesting survive insertion, rekeying, printing and packing to CBOR, which decodes to the same pairs. Everything owned by the list is returned with it.',
 [I, H], 'every list of pairs, every key and value, and every lookup', T_FEW + 'keys that are prefixes of each other, keyless pairs and duplicates are not crossed with ownership of the key.',
 ['src/C3PValue/KeyValuePair.cpp', 'src/C3PValue/KeyValuePair.h'], [('KeyValuePair', 'valueWithKey, retrieveByKey, append, setKey, serialize')])
prop('C10', 'Values encode to well-formed CBOR that decodes to the same value',
 'Every value that the library serializes becomes exactly one well-formed RFC 8949 item of shortest-form head whose meaning is that value, in both integer signs and every width, and which the library decodes to an equal value of an adequate type. What cannot be encoded is refused without output. A static output buffer is never overrun, and reports when it did not suffice.',
 [I], 'every value of every type and every output capacity', T_FEW + 'the boundaries between encodings of different width and the least integers are not tried.',
 ['src/cbor-cpp/cbor.cpp', 'src/C3PValue/C3PValue.cpp', 'src/C3PValue/C3PType.cpp'], [('cbor::encoder', 'src/cbor-cpp/cbor.cpp'), ('C3PTypeConstraint<T>::serialize', 'src/C3PValue/C3PType.cpp')])
prop('C20', 'Identities survive storage, and hostile records are refused',
 'An identity written to a buffer or a string and loaded again has the same format, flags, name and identifier; a destination that is too small is refused and not written past its end; any byte sequence offered as an identity either loads into one that says what the record says, or is refused, and never causes a read beyond the record.',
 [I], 'every name, identifier and destination size, and every input record', T_FEW + 'they store and load one identity.',
 ['src/Identity/Identity.cpp', 'src/Identity/IdentityUUID.cpp', 'src/Identity/Identity.h'], [('Identity', 'toBuffer, serialize, fromBuffer, handle lookup')])
prop('C24', 'Time series keep the last samples in order, with exact statistics',
 'A time series of a given window holds exactly the last samples fed, in order, however they were fed, whenever it was purged, marked clean or given another window; reading by position, by age or by range gives those samples or refuses; the extremes, mean, RMS, deviation, median, and derived figures are those of exactly the samples in the window. A packed series unpacks to an equal series, and hostile packed data is refused without harm.',
 [I, H], 'every sequence of feeding and reconfiguration, every sample value and every packed input', T_FEW + 'window wrap crossed with bulk filling, purging and rereading is not tried, and packed input is well-formed.',
 ['src/TimeSeries/TimeSeries.cpp', 'src/TimeSeries/TimeSeries.h'], [('TimeSeries<T>', 'feedSeries, setWindow, purge, value, copyValueRange, minValue, maxValue, mean, rms, stdev, median, snr, serialize, deserialize')])
prop('C25', 'Sensor filters give the value their strategy defines over the window',
 'A filter fed with samples reports, for its strategy, exactly the last sample, the median or the moving average of the samples in its window, and nothing stale after it was purged, resized, refilled or given another strategy; its statistics are those of exactly the samples in the window; a vector filter does the same for each axis. Memory that the filter borrows is neither freed nor overrun.',
 [I, H], 'every sequence of feeding and reconfiguration and every sample value', T_FEW + 'changes of window and strategy between samples are not tried.',
 ['src/TimeSeries/SensorFilter.h'], [('SensorFilter<T>, SensorFilter3<T>', 'feedFilter, windowSize, setStrategy, purge, value, minValue, maxValue, rms, stdev, median')])
prop('C14', 'Base64 encodes and decodes per RFC 4648, and takes only what fits',
 'The encoder passes on exactly the RFC 4648 text of the chunk it takes, padded, and the decoder exactly the bytes that such a text stands for; decoding what was encoded gives the content back. A text that is not Base64, or whose result would not fit the end of the pipe, is refused and left as it was; nothing that was taken is lost.',
 [I, F], 'every content, every text, every chunk length and every room at the end', T_FEW + 'three contents are encoded into an end with ample room, and no malformed text is decoded.',
 ['src/Pipes/BufferAccepter/Base64/C3P_B64.cpp', 'src/Pipes/BufferAccepter/Base64/C3P_B64.h'], [('Base64Encoder, Base64Decoder', 'pushBuffer, bufferAvailable, _encode, _decode, _b64_str_integrity')])
prop('C16', 'A typed pipe delivers every value once, whole and in order, however split',
 'Values pushed into a typed pipe arrive at the callback of its other end equal to what was pushed, once each and in order, however the bytes between are cut into buffers: as soon as the bytes of a value are complete it is delivered and exactly those bytes are taken; an incomplete value stays with the caller. A value that does not fit the pipe is pushed not at all.',
 [I, F], 'every sequence of values, every fragmentation, and every room at the end', T_FEW + 'buffers are split at random, with one sequence of values.',
 ['src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp', 'src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h'], [('C3PTypePipeSource, C3PTypePipeSink', 'pushValue, _private_push, pushBuffer')])
prop('C17', 'Buffer pipes take from the front, lose nothing, and report what they took',
 'A buffer sink, a fork and a line codec take as much from the front of a pushed buffer as their ends can hold, report nothing, part or all taken exactly as it happened, and leave the rest unchanged with the caller. Both hands of a fork receive the whole stream once and in order, also when they take different lengths at each push. No end gets more than it announced room for. The test source and sink that exercise codecs count each push and its answer once, send and log the stream in order, keep what was not taken, and notice an answer that does not match what was taken, and only that.',
 [I, F, H], 'every stream and fragmentation, every announcement and partial claim of the ends', T_FEW + 'their ends always take all that they announce.',
 ['src/Pipes/BufferAccepter/BufferAccepter.cpp', 'src/Pipes/BufferAccepter/BufferAccepter.h', 'src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp', 'src/Pipes/BufferAccepter/TestFixtures/CoDecTestFixtures.cpp'], [('BufAcceptTestSource, BufAcceptTestSink', 'pushBuffer, poll, efferantViolatesContract, callCountsBalance'), ('BufferAccepterFork, StringBuilderSink', 'pushBuffer, bufferAvailable'), ('LineEndingCoDec', 'pushBuffer without replacement')])
prop('C26', 'Schedules run when due, as often as declared, never early or twice',
 'A schedule runs at the first service after the scheduler was advanced past its due time, never before that time, once per coming due, and in the order of coming due; the next due time is one period after the execution. It runs as often as its recurrence says and is then disabled; a disabled schedule does not run. Postponing and resetting move the due time as said. All of this also when the clock wraps.',
 [I, S, C], 'every period, every clock, and every sequence of time, advancing, servicing, postponing and disabling', T_FEW + 'periods are short, the clock does not wrap, and services are not interleaved with postponing and disabling.',
 ['src/TimerTools/C3PScheduler.cpp', 'src/TimerTools/C3PScheduler.h'], [('C3PScheduler', 'addSchedule, advanceScheduler, serviceSchedules'), ('C3PSchedule', '_ready_to_run, execute, delay, willRunAgain')])
prop('C29', 'Requested steps run once each, after all they depend on have passed',
 'A request for steps covers everything they depend on; each is dispatched once, and only after all of its dependencies have passed; what runs is polled once per poll until it tells that it passed or failed; the request is reported fulfilled exactly when all of it has passed, and a reset step can be requested again. The state of each step and set of steps is reported as it is.',
 [H, S], 'every dependency graph, every set of requests, and every sequence of results', T_FEW + 'they use one list of steps that always pass.',
 ['src/AsyncSequencer.cpp', 'src/AsyncSequencer.h'], [('AsyncSequencer', 'request_steps, poll, steps_passed, steps_running, all_steps_runnable, reset_steps, request_fulfilled')])
prop('C30', 'State machines traverse the planned route in order, through valid states',
 'A state machine enters the states of its route in the order in which they were planned, one per transition, only when it is due to move and the hook for the state permits; routes through states that do not exist are refused and leave the route as it was; appending, prepending, truncating and clearing affect just the rest of the route. Slowdown and lockout delay transitions as declared, also when the clock wraps.',
 [H, C], 'every sequence of planning and polling, every state number, period and clock', T_FEW + 'lockout periods and full routes are not tried.',
 ['src/FiniteStateMachine.h'], [('StateMachine<T>', 'setState, setRoute, appendRoute, prependRoute, poll, lockout')])
prop('C33', 'The console executes each complete line once, with its own arguments',
 'Each terminated line of input runs exactly the command that it names (by name in any case, or by its exact shortcut) with exactly its arguments, once and in order, if it has as many as the command requires, whatever the terminator and however the input is cut; unterminated input is kept until its line is complete, backspace erases, and oversized input is dropped. History holds the last lines up to its depth, options are what they were last set to, and output is delivered or held once.',
 [I, F, H], 'every line, command name, terminator and fragmentation', T_FEW + 'a handful of commands is entered, always in complete lines.',
 ['src/Console/C3PConsole.cpp', 'src/Console/C3PConsole.h'], [('ParsingConsole', 'pushBuffer, _process_buffer, _exec_line, _append_to_history, console_handler_conf'), ('C3PConsole', '_cmd_def_lookup, defineCommand')])
prop('C35', 'Bus jobs run in order, call back once each, and return what they used',
 'Each I/O job accepted by a bus adapter is carried out in order (of priority where there is one), one at a time, and called back exactly once to whom asked for it, with what became of it and as it was asked for, whether it completed, failed, failed to begin or was purged; operations and buffers are then returned to their owner or pool exactly once, clean of the prior job. A device that is destroyed is not called. Chip select is driven around each SPI transfer.',
 [H, S, F], 'every sequence of requests, polls, hardware outcomes, purges and removals', 'No unit test covers the bus adapters.',
 ['src/BusQueue/BusQueue.h', 'src/BusQueue/I2CAdapter.cpp', 'src/BusQueue/I2CDevice.cpp', 'src/BusQueue/I2CBusOp.cpp', 'src/BusQueue/SPIAdapter.cpp', 'src/BusQueue/SPIBusOp.cpp'], [('BusAdapter<T>', 'new_op, purge_*, _reclaim_queue_item'), ('I2CAdapter, I2CDevice', 'queue_io_job, _bus_poll, readX, writeX, ping'), ('SPIAdapter, SPIBusOp', 'queue_io_job, advance_work_queue, begin, markComplete, wipe')])
prop('C36', 'Vector and quaternion algebra is that of the mathematics',
 'Sums, differences, scaling, dot and cross products of vectors are exact by component; length, normalization, projection, reflection and angle are those of the mathematics to within rounding for every component type, never NaN for finite vectors; a quaternion set from a direction is a rotation of the vertical into it.',
 [I], 'every component within the bounds', T_FEW + 'narrow component types, null, parallel and opposed vectors are not tried.',
 ['src/Vector3.h', 'src/Quaternion.cpp', 'src/Quaternion.h'], [('Vector3<T>', 'operators, length, normalize, project, reflect, angle'), ('Quaternion', 'set, normalize, setDown')])
prop('C40', 'A UART adapter carries each byte once and in order, within its rings',
 'What an adapter takes for transmission it takes from the front and reports exactly; the bytes taken leave in order, once each; what it cannot take stays with the caller. What was received is read, or passed on to the attached accepter as far as that has room, in order, once each. A reset leaves nothing of the old data.',
 [I, F, H], 'every content, room, fragmentation, and sequence of transfers', 'No unit test covers the UART adapter.',
 ['src/BusQueue/UARTAdapter.cpp', 'src/BusQueue/UARTAdapter.h'], [('UARTAdapter', 'pushBuffer, bufferAvailable, write, read, _handle_rx_push, poll, reset')])
prop('C12', 'Messages of a link survive framing, fragmentation and hostile input',
 'Every header that can be built declares the length and ID of its message in as few bytes as they need, is valid exactly if its code is known and it has an ID if and only if it is part of a dialog, and is read back as written. Any bytes are accepted as a header exactly if they are one (checksum, a length not less than the header). Payloads arrive as they were sent, however the transport cuts them, and what follows is left alone; a message can be sent again and answered once, under its own ID. No input corrupts memory or leaks.',
 [I, F], 'every header field, payload value, fragmentation and hostile input', T_FEW + 'messages whose length needs more than one byte are not tried, and messages arrive whole.',
 ['src/M2MLink/M2MMsgHdr.cpp', 'src/M2MLink/M2MMsg.cpp', 'src/M2MLink/M2MLink.h'], [('M2MMsgHdr', 'M2MMsgHdr(), set_payload_length, serialize, isValid'), ('M2MMsg', 'attempt_header_parse, unserialize, accumulate, serialize, setPayload, getPayload, reply')])
prop('C13', 'A link attains sync, delivers messages and answers, and survives its transport',
 'Two links joined by a transport establish a session, whatever is lost, delayed or inserted on the way. A live link delivers messages in the order sent, each once (or, if it wants an answer, again until it is answered or has failed the fourth time, which is counted), and each answer to its question. No more is queued than was agreed. Messages of up to the agreed size are received; fewer than three invalid messages in a row cost only themselves. Services see only messages for their slot, logs are written only if allowed, and a link that requires authentication is not live without it. Hanging up delivers what is queued, or is immediate; the link can then be used again.',
 [H, S, F], 'every value, loss, noise, refusal and hostile message', T_FEW + 'the transport of the tests neither loses, delays nor inserts anything.',
 ['src/M2MLink/M2MLink.cpp', 'src/M2MLink/M2MMsg.cpp', 'src/M2MLink/M2MService.cpp', 'src/FiniteStateMachine.h'], [('M2MLink', 'poll, send, hangup, reset, _process_input_buffer, _process_for_sync, _churn_inbound, _churn_outbound, _fsm_poll, _fsm_set_position')])
prop('C21', 'Stored records and configurations are read back as saved, or refused',
 'A record is saved as a descriptor (tag, version, type, format, name, length, hash) and its payload, whatever the buffer holds already, and is then clean; it is dirty exactly when its payload differs. Loading it, from memory or a fragmented buffer and with anything behind it, restores the payload; a record that is cut short, has another tag, type or version, or an altered payload is refused and changes nothing. A configuration keeps each key in its type, refuses values that do not fit and keys it does not know, and is restored by key, whichever keys either side knows.',
 [I, H, F], 'every tag, name, payload, alteration and hostile descriptor', T_FEW + 'the tests of ConfRecord leave round-trips as a TODO, and no test covers SimpleDataRecord.',
 ['src/Storage/SimpleDataRecord.cpp', 'src/Storage/Storage.h', 'src/Storage/RecordTypes/ConfRecord.cpp', 'src/Storage/RecordTypes/ConfRecord.h', 'src/EnumWrapper.h'], [('SimpleDataRecord', 'save, load, isDirty, wasLoaded, printDebug'), ('ConfRecord', 'setConf, getConf, serialize, deserialize, allocated')])
prop('C18', 'Position sentences are believed only if intact, and read as they say',
 'However a stream of NMEA sentences is torn into buffers and fragments, each sentence is parsed once, on its own; a sentence is accepted exactly if it is of a known kind, its fields are well formed, and its checksum, if it has one, fits: any single altered byte is caught. Time and date are read as UTC; coordinates, altitude, speed, bearing, dilution and satellites are as in the sentences, and a missing value changes nothing. Memory held for incomplete lines is bounded.',
 [I, S, H], 'every tearing of the stream, every altered byte, every date and time, every fractional field', 'There are no unit tests for it.',
 ['src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp', 'src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h'], [('GPSWrapper', 'pushBuffer, _attempt_parse, _check, _scan, _parse_*, _gettime, haversineDistance')])
prop('C38', 'Vector pipes hand on each vector once, unaltered, and report what came of it',
 'A sink takes exactly the vectors of its sense, holds the last with its error, its number and its time, tells whether it is fresh, and tells its callback of each. A fork gives each vector to both sides, left first, whatever becomes of it, and reports how many took it. A filter sends each result on once, with an error only if there is one, keeps as fresh what was not taken, and relays other senses. No stage alters what was pushed, and stages return what the next one returned.',
 [I, S], 'every sequence of vectors, senses, errors and results of the stages', 'There are no unit tests for it.',
 ['src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp', 'src/Pipes/TripleAxisPipe/TripleAxisPipe.h'], [('TripleAxisTerminus', 'pushVector, getDataWithErr, reset'), ('TripleAxisFork', 'pushVector'), ('TripleAxisSingleFilter', 'pushVector'), ('TripleAxisConvention', 'pushVector')])
prop('C37', 'Elements of a user interface get the events at their place, and draw there',
 'An event is delivered once, to the element at its place: hovering, selection, identification and dragging to the innermost, anything else to the first that claims it; never outside of an element, nor if it is muted or (for touches) inactive. Elements carry what is in them along, keep their content inside margins and borders, and draw within their bounds, when needed and unless muted. Buttons toggle on release or follow the touch; sliders go where they are touched, stay in range and report changes; exactly the last selected tab is selected.',
 [I, S, H], 'every place, event, flag and sequence within the bounds', 'There are no unit tests for it.',
 ['src/Image/GfxUI.h', 'src/Image/GfxUI/GfxUI.cpp', 'src/Image/GfxUI/GfxUIKit.h', 'src/Image/GfxUI/GfxUIButton.cpp', 'src/Image/GfxUI/GfxUISlider.cpp', 'src/Image/GfxUI/GfxUITabBar.cpp', 'src/Image/GfxUI/GfxUIGroup.cpp', 'src/Image/ImageUtils/ImageUtils.cpp'], [('GfxUILayout', 'includesPoint, internal*'), ('GfxUIElement', 'notify, render, reposition, _remove_all_children'), ('GfxUIButton, GfxUISlider, GfxUIZoomSlider, GfxUITabBar, GfxUITabbedContentPane', '_notify, _render, value, addTab'), ('UIGfxWrapper', 'drawProgressBar*, drawZoomBar*')])

prop('C41', 'Units, line ends, pins and platform state are rendered and driven as named',
 'Every SI unit, metric prefix and line end has its own name and symbol, and a unit string is rendered part by part: units by name or symbol, orders of magnitude as prefixes, exponents as numbers, with the arguments of other marks left out, and nothing beyond its end is read. The gpio command sets or reads the pin that was named, in the mode or value that was named, and refuses what does not exist. Platform flags and state change without disturbing one another, and formatted log messages are logged as formatted.',
 [I], 'every code, argument, pin, flag and state', 'The unit tests render three unit strings.',
 ['src/EnumeratedTypeCodes.cpp', 'src/EnumeratedTypeCodes.h', 'src/AbstractPlatform.cpp', 'src/AbstractPlatform.h'], [('SIUnitToStr, metricPrefixStr, lineTerminator*', 'src/EnumeratedTypeCodes.cpp'), ('callback_gpio_value, c3p_log, platform_init, AbstractPlatform', 'src/AbstractPlatform.cpp')])
