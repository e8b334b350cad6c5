PROPS = []


def P(**k):
    PROPS.append(k)


AI = 'abstract interpretation of the extracted control-flow graphs (octagon-like domain, ghost counters)'
AINOTE = ('Sound for the interpreted C++ subset up to the stated assumptions (no aliasing between distinct parameters and members, '
          'opaque callees do not write to private members of the layer under analysis); loops by widening, calls by inlining.')

P(id='P01', title='A layer ends a frame downwards exactly when its caller ends the message',
  statement='For every sequence of encode calls, the escaping, terminal, CRC-8, CRC-16, buffering, printing, idle-check, segmentation, compression and debug-ARQ '
            'layers pass the end-of-message flag to the layer below exactly once per message, on the last chunk, and never before the caller ended the message. '
            'No data of that message is passed down after the flag; only the segmentation layer may end intermediate segments, and its last segment always ends.',
  over=['inputs', 'histories'], qtext='all payload lengths and contents, any chunking over encode calls, any lower MTU, any state left by earlier calls',
  why='The tests encode a dozen fixed strings; a missing or double end-of-frame shows only for particular chunk lengths (empty chunk, exactly full buffer, trailing escape) and states.',
  files=['src/protocol.cpp', 'src/compress.cpp', 'include/libstored/protocol.h', 'include/libstored/compress.h'],
  mech=[('encode(buffer, len, last) of each layer', 'src/protocol.cpp'), ('CompressLayer::encode', 'src/compress.cpp')],
  observe=['calls of encode() of the layer below'], technique=AI, note=AINOTE)

P(id='P02', title='Encoders pass every payload byte down once and in order',
  statement='For any message and any chunking of it, the escaping, terminal, CRC-8, CRC-16, buffering, printing, idle-check and segmentation layers hand the bytes of the '
            'caller\'s buffer to the layer below in order, without gap, repetition or overrun, where an escaped byte is replaced by exactly one two-byte escape sequence. '
            'Bytes that a layer holds back are sent before any later bytes, and none are held after the message ended.',
  over=['inputs', 'histories'], qtext='all payload lengths and contents, any chunking, any held-back amount',
  why='Slicing errors appear only for specific relations between chunk length, buffer fill and mtu that fixed test strings do not hit.',
  files=['src/protocol.cpp', 'include/libstored/protocol.h'],
  state=[('held-back buffer', 'bytes accepted but not yet passed down', 'BufferLayer in include/libstored/protocol.h')],
  mech=[('encode(buffer, len, last) of each layer', 'src/protocol.cpp')],
  observe=['(pointer, length) pairs passed to encode() of the layer below'], technique=AI, note=AINOTE)

P(id='P03', title='Layers stay within the MTU of the layer below',
  statement='Starting from a clean state, a message no larger than the MTU that the escaping, terminal, CRC-8, CRC-16 or debug-ARQ layer reports, leaves that layer as at most '
            'the MTU of the layer below (of 16 bytes or more) once its worst-case overhead is added. '
            'Segments made by the segmentation layer, marker included, never exceed either its configured MTU or that of the layer below (of 2 or more), whatever the chunking.',
  over=['inputs', 'configurations'], qtext='all lower MTUs from the stated minimum, all payloads up to the reported MTU, any chunking for segmentation',
  why='The overhead depends on the data (escapes) and on the lower MTU; off-by-one limits only show at exact boundary sizes that the tests do not enumerate.',
  files=['src/protocol.cpp', 'include/libstored/protocol.h'],
  state=[('open segment length', 'bytes already sent in the segment being built', 'SegmentationLayer')],
  mech=[('mtu() of each layer', 'src/protocol.cpp'), ('SegmentationLayer::encode', 'src/protocol.cpp')],
  observe=['lengths passed to encode() of the layer below'], technique=AI, note=AINOTE)

P(id='P04', title='Protocol layers never touch memory outside the data they were given',
  statement='Whatever bytes a received frame holds, decoding it never makes a layer (protocol layers, compression, ZeroMQ, debugger and synchronizer streams) read outside that frame '
            'or write outside its own buffers, nor pass a range beyond that frame to the layer above. '
            'Likewise, encode() reads only the bytes it was given, whatever the length, chunking and state.',
  over=['inputs', 'histories'], qtext='all frame contents and lengths including empty and one byte frames, all states left by earlier frames',
  why='Truncated or malicious frames reach every length combination; tests feed well-formed frames only.',
  files=['src/protocol.cpp', 'src/compress.cpp', 'src/zmq.cpp', 'include/libstored/protocol.h'],
  mech=[('decode(buffer, len&) and encode(buffer, len, last) of every layer', 'src/protocol.cpp')],
  observe=['memory accesses', 'ranges passed to decode()/encode() of the adjacent layer'],
  technique='abstract interpretation with a region/offset memory model; every access is an obligation', note=AINOTE)

P(id='P05', title='CRC layers deliver exactly the frames whose checksum matches',
  statement='The CRC-8 and CRC-16 layers pass a frame without its trailer to the layer above exactly once if the CRC over all bytes before the trailer equals that trailer, and drop it otherwise. '
            'When encoding, the CRC covers every payload byte once and in order over all chunks, is appended most significant byte first at the end of the message, and starts afresh for the next one. '
            'The checksum is the documented CRC polynomial and initial value, the same in the C++ layers and the Python client.',
  over=['inputs', 'histories'], qtext='all frames of any length and content, all chunkings, all 256 table entries and all CRC register values',
  why='Tests check a few frames and a few flipped bits; a CRC computed over a wrong range or a frame accepted in a corner case goes unnoticed.',
  files=['src/protocol.cpp', 'include/libstored/protocol.h', 'python/libstored/protocol.py'],
  state=[('running CRC', 'checksum of the bytes of the open message', 'Crc8Layer, Crc16Layer')],
  mech=[('Crc8Layer, Crc16Layer: encode, decode, compute', 'src/protocol.cpp'), ('Crc8Layer, Crc16Layer', 'python/libstored/protocol.py')],
  observe=['bytes passed down', 'frames passed up'],
  technique='abstract interpretation with a ghost checksum chain; evaluation of the step over GF(2) against the polynomial; syntax-tree check of the Python client', note=AINOTE)

P(id='P06', title='ARQ sequence numbers round-trip and succeed each other',
  statement='Every sequence number that the debug-ARQ layer uses is recovered unchanged from its variable-length header, and decoding consumes exactly the header bytes that encoding wrote. '
            'The successor of a sequence number is one higher, and wraps to 1 (never to the reserved 0) after the highest number, for both ARQ layers.',
  over=['inputs'], qtext='all sequence numbers 1..2^27-1 of the debug ARQ layer and 1..63 of the ARQ layer',
  why='2^27 values with length boundaries at 6, 13 and 20 bits; tests see the first few only.',
  files=['src/protocol.cpp', 'include/libstored/protocol.h'],
  state=[('sequence number', 'number of the next frame to send or to expect', 'ArqLayer, DebugArqLayer')],
  mech=[('encodeSeq, decodeSeq, nextSeq', 'src/protocol.cpp')], observe=['header bytes'],
  technique='symbolic-linear abstract interpretation of encoder followed by decoder, identity proven per length class', note=AINOTE)

P(id='P07', title='Resetting a layer restores its initial communication state',
  statement='After reset() of the ARQ, debug-ARQ, CRC-8, CRC-16, segmentation, terminal, buffer and compression layers, everything that encoding or decoding had changed in the communication state '
            '(partial messages, held-back bytes, sequence numbers, escape state) is back to its value after construction. '
            'reset() also resets the layer below exactly once.',
  over=['histories'], qtext='all histories of encode and decode calls before the reset',
  why='A forgotten field shows only if a reset happens in the middle of a message and communication then continues.',
  files=['src/protocol.cpp', 'src/compress.cpp', 'include/libstored/protocol.h', 'include/libstored/compress.h'],
  state=[('layer state', 'fields written by encode()/decode()', 'protocol.h, compress.h')],
  mech=[('reset() of each layer', 'src/protocol.cpp')], observe=['behaviour after reset()'],
  technique='effect analysis (fields written by encode/decode) and abstract interpretation of constructors and reset()', note=AINOTE)

P(id='P08', title='Compressed messages are complete and independent of each other',
  statement='The compression layer feeds every byte of a message to the encoder once and in order, and passes on all encoder output; at the end of the message the encoder is finished and drained before the frame is ended. '
            'The decoder likewise consumes the whole frame and delivers all its output in one frame. '
            'Encoder and decoder start every message from their initial state, so that no message depends on an earlier one.',
  over=['inputs', 'histories'], qtext='all message lengths, contents and chunkings, any number of messages',
  why='Depends on how much the coder consumes and yields per call, on messages larger than its buffers, and on the message history; tests compress one short string.',
  files=['src/compress.cpp', 'include/libstored/compress.h'],
  state=[('coder state', 'idle, encoding', 'CompressLayer')],
  mech=[('CompressLayer::encode, CompressLayer::decode', 'src/compress.cpp')], observe=['frames passed down and up'],
  technique='typestate and slice coverage by abstract interpretation against the heatshrink contracts', note=AINOTE)

P(id='P09', title='Every debugger request gets exactly one well-formed response',
  statement='Every non-empty request to the debugger, whatever its bytes, is answered by exactly one response: the response is ended on every path, and nothing follows that end. '
            'A status (ack or nack) is never appended to data that is already part of the same response, unless it is the response of another command of the same macro. '
            'The responses of all commands of a macro are merged in one response.',
  over=['inputs', 'histories'], qtext='all request contents and lengths, all macros and aliases, all debugger states',
  why='A forgotten or doubled response on an unusual argument desynchronises client and server; tests send well-formed requests mostly.',
  files=['src/debugger.cpp', 'include/libstored/debugger.h'],
  state=[('response under construction', 'bytes and status already sent for the request', 'Debugger')],
  mech=[('Debugger::process, Debugger::runMacro, Debugger::decode', 'src/debugger.cpp')],
  observe=['frames passed to the layer below'],
  technique='typestate of the response (open, status, data, ended) by abstract interpretation over all command paths', note=AINOTE)

P(id='P10', title='Debugger capabilities match the commands that are implemented',
  statement='For every combination of the debugger configuration options, the capabilities list that the debugger returns holds exactly the commands that it handles: '
            'an unlisted command is always refused with a nack, and a listed command can be answered otherwise.',
  over=['configurations', 'inputs'], qtext='every on/off setting of every debugger option, and all 256 command bytes',
  why='Every option guards both the list and the handler, in different places; tests are built with one configuration only.',
  files=['src/debugger.cpp', 'include/libstored/debugger.h', 'include/libstored/config.h'],
  state=[('configuration', 'constants of DefaultConfig/Config', 'config.h')],
  mech=[('Debugger::capabilities, Debugger::process', 'src/debugger.cpp')],
  observe=['response to ? and to every command'],
  technique='abstract interpretation with the configuration constants as parameters', note=AINOTE)

P(id='P11', title='Synchronizer messages never reach outside the message or the store',
  statement='Whatever message a synchronizer receives, it reads only within that message, and writes only within the store it is for: an update is applied only when its key and length lie within the store and its data within the message. '
            'The bookkeeping of changes is only indexed within its bounds, and holds only ranges within the store. '
            'Stores of any size below 4 GiB get a key representation that can address every byte, and the buffer in which updates are composed holds an update of all variables of every registered store.',
  over=['inputs', 'histories', 'configurations'], qtext='all messages, journals, and store sizes',
  why='Remote peers control keys and lengths; wrap-arounds and truncated messages hit single values that tests do not send.',
  files=['src/synchronizer.cpp', 'include/libstored/synchronizer.h'],
  state=[('store buffer and journal', 'ranges changed', 'StoreJournal'), ('received message', 'pointer and remaining length', 'SyncConnection::decode')],
  mech=[('StoreJournal::decodeUpdates, decodeBuffer, keyToBuffer, KeyCodec; SyncConnection::decode', 'src/synchronizer.cpp')],
  observe=['bytes read from the message', 'bytes written in the store', 'journal entries'],
  technique='abstract interpretation with symbolic sizes, per key codec, and compositional contracts for the journal', note=AINOTE)

P(id='P12', title='Each side of a synchronized connection keeps its own and the peer\'s ids apart',
  statement='A message that a synchronizer connection receives is applied only to the store that was registered under the id that the message addresses, and ignored when that id is unknown; a Welcome is only applied to a store that was requested as a copy of the peer. '
            'Ids that this side hands out are nonzero and not in use on that connection, ids of the peer are only used in messages to that peer, and every message sent carries the id(s) of the right side. '
            'The id tables of a connection stay consistent in both directions, and a new Hello of the peer replaces the earlier registration of that store.',
  over=['histories', 'inputs'], qtext='all sequences of Hello, Welcome, Update and Bye in both directions, all ids, any number of stores and connections',
  why='Both sides count ids from the same start, so mixing them up works in every test with one or two stores; wrap-around, reconnects and unknown ids are not tested.',
  files=['src/synchronizer.cpp', 'include/libstored/synchronizer.h'],
  state=[('ids of a connection', 'own id to store, store to own and peer id', 'SyncConnection::m_store, m_idIn')],
  mech=[('SyncConnection::decode, source, drop, process, nextId', 'src/synchronizer.cpp')],
  observe=['messages sent', 'stores changed by a received message'],
  technique='provenance (taint) of ids by abstract interpretation of all public entry points of a connection', note=AINOTE)

P(id='P13', title='A synchronizer sends every change on to all other parties, and echoes none back',
  statement='A connection sends the changes of a store since the last exchange with that peer, and remembers the journal position at which it did so. '
            'When an update is received, local changes are sent first, the update is recorded for all other connections that synchronize the store, and it is not sent back to the peer it came from. '
            'Updates that have been composed are always sent.',
  over=['histories', 'schedules'], qtext='all topologies of connections, all interleavings of local changes and received updates',
  why='Loss or echo only shows with three or more parties, and with local changes that race with received ones.',
  files=['src/synchronizer.cpp', 'include/libstored/synchronizer.h'],
  state=[('position in the journal', 'what this peer knows already', 'SyncConnection::StoreInfo::seq')],
  mech=[('SyncConnection::process, decode; StoreJournal::encodeUpdates, decodeUpdates', 'src/synchronizer.cpp')],
  observe=['Update messages per connection'],
  technique='dataflow of journal positions and typestate of composed updates by abstract interpretation', note=AINOTE)

P(id='P14', title='The journal of changes keeps finding every recorded change',
  statement='All operations on the journal split the sorted list of changes in the same way, so that an entry that was inserted is found again, and appears exactly once in a scan. '
            'The highest sequence number kept per subtree is never below that of any entry in it, so that scans for changes since a given moment skip nothing, and an entry is reported if and only if it changed since that moment. '
            'Every change is recorded under the current sequence number, and a new one is started before a next change may be recorded after a scan.',
  over=['histories'], qtext='all sequences of inserts, updates and scans, and any number of entries',
  why='The tree is implicit in recursion bounds; one off in one walker hides entries only for specific counts and positions.',
  files=['src/synchronizer.cpp', 'include/libstored/synchronizer.h'],
  state=[('journal', 'sorted changes with highest sequence number per subtree', 'StoreJournal::m_changes'), ('sequence numbers', 'current, and partially used', 'StoreJournal::m_seq, m_partialSeq')],
  mech=[('StoreJournal::changed, update, regenerate, hasChanged, iterateChanged, bumpSeq', 'src/synchronizer.cpp')],
  observe=['hasChanged(), iterateChanged(), updates encoded'],
  technique='abstract interpretation of every tree walker with symbolic range; pivots and recursion ranges compared', note=AINOTE)

P(id='P15', title='The ARQ layer delivers each message once, in order, and acknowledges it',
  statement='A message that is received is passed up at most once, only when it carries the sequence number that is expected next, and every message that is received in sequence (or again) is acknowledged. '
            'A message that is sent stays queued, unchanged and in the order it was sent, until an acknowledgement for its sequence number is received; consecutive messages get consecutive sequence numbers. '
            'Only a reset reorders or renumbers the queue, and then all messages that are still queued, with their flags.',
  over=['histories', 'fault_sequences'], qtext='all sequences of messages sent and received, including lost, repeated and corrupted ones, resets, and layers that call back',
  why='Loss, duplication and reset at arbitrary moments combine to more histories than can be tried; most errors need a wrap-around of the sequence number or a reset at a specific moment.',
  files=['src/protocol.cpp', 'include/libstored/protocol.h'],
  state=[('queue of messages to be acknowledged', 'first in, first out', 'ArqLayer::m_encodeQueue'), ('sequence numbers', 'next to send, next to receive', 'ArqLayer::m_sendSeq, m_recvSeq')],
  mech=[('ArqLayer::encode, decode, transmit, pushEncodeQueue, popEncodeQueue, reset', 'src/protocol.cpp')],
  observe=['messages passed up and down', 'acknowledgements sent'],
  technique='abstract interpretation with ghost state for the queue, sequence numbers modulo 64 and pending acknowledgements', note=AINOTE)

P(id='P16', title='Setting a variable stores the value between hooks that tell whether it changed',
  statement='Every access to the value of a variable happens between an entry hook and one matching exit hook of its store, which are told the same type, address and size. '
            'A write reports a change if it changed the value, and does not write only if the whole value equals what is stored. '
            'The whole value is stored in, and read from, the byte order of the store; strings are copied within their size.',
  over=['inputs', 'configurations'], qtext='all types, values, sizes, and alignments, for both byte orders of the store',
  why='Equality shortcuts, byte swaps and string ends go wrong for specific values, types or store configurations only.',
  files=['include/libstored/types.h', 'src/util.cpp', 'include/libstored/util.h'],
  state=[('value of a variable', 'bytes in the store', 'buffer of the store')],
  mech=[('Variable, StoreVariable, Variant get and set', 'include/libstored/types.h'), ('swap_endian, memcpy_swap, memcmp_swap, strncpy, strncmp', 'include/libstored/util.h')],
  observe=['hooks called', 'bytes stored'],
  technique='abstract interpretation with byte provenance and hook typestate, per type and store configuration', note=AINOTE)

P(id='P17', title='A change of a variable is announced once to journal, signals and changed hook',
  statement='When an exit hook reports a local change of a variable, the journal of a synchronizable store gets its key and size, the functions connected to that variable are called, and its changed hook is called, each exactly once; without a change, none of them is. '
            'Every update of a variable that is received is announced to the changed hook after it is applied, and the synchronizer reads a store only between its read hooks. '
            'Calling a signal calls every function that is connected to the key exactly once, and disconnecting removes precisely the functions with the given key and token.',
  over=['histories', 'configurations'], qtext='all variables, chains of store wrappers, overridden hooks, connected functions, and received updates',
  why='Each layer of a store forwards hooks to the next; a lost, doubled or misdirected one only shows for a specific combination of wrappers, variable and overridden hook.',
  files=['include/libstored/store.h.tmpl', 'include/libstored/synchronizer.h', 'include/libstored/signal.h', 'src/synchronizer.cpp'],
  state=[('connections of a signal', 'functions per key and token', 'Signal::m_connections'), ('list of updates', 'applied, still to be announced', 'StoreJournal::decodeUpdates')],
  mech=[('hookExitX, __hookExitX, __hookChanged of all wrappers', 'include/libstored/store.h.tmpl'), ('Signal::connect, disconnect, call', 'include/libstored/signal.h'), ('StoreJournal::decodeUpdates, encodeUpdate, TypedStoreCallback', 'include/libstored/synchronizer.h')],
  observe=['hooks and connected functions called, journal entries'],
  technique='abstract interpretation of the hook chains with event ghost state, per variable and store wrapper', note=AINOTE)

P(id='P18', title='A FIFO returns the items that were pushed, in order and exactly once',
  statement='Items that are pushed into a FIFO are popped unmodified, in the same order and once, also when the bounded buffer wraps around or the unbounded one is moved. '
            'The producer writes only free slots and publishes exactly the items it wrote, after it wrote them; the consumer releases exactly the items it popped and never changes what the producer owns. '
            'Views on the buffer and iterators give precisely the items that were available.',
  over=['inputs', 'schedules', 'histories'], qtext='all positions of the pointers, numbers of items, capacities below and around the range of the pointer type, and interleavings of one producer and one consumer',
  why='Errors show at wrap-around, at the limits of the type of the pointers, or for an interleaving with the other context only.',
  files=['include/libstored/fifo.h'],
  state=[('read and write pointer', 'within the buffer; the slots between them are in use', 'Fifo::m_rp, m_wp')],
  mech=[('Fifo, Buffer, BufferView, PopIterator', 'include/libstored/fifo.h')],
  observe=['items popped, their order', 'memory orders of the pointers'],
  technique='abstract interpretation with ghost positions of items and memory-order checks, per instantiation', note=AINOTE)

P(id='P19', title='A message FIFO returns messages unmodified and refuses only those without space',
  statement='A message that is pushed in one or more parts into a message FIFO is returned once, in order, as one piece with the same bytes; data that is being written never overlaps a message that is not popped yet, and dropping an incomplete message affects no other. '
            'A message is accepted if and only if it fits in the reported space, and a refused one leaves the queue unchanged. '
            'The FIFO loopback retries a refused push only while the overflow handler asks so, passes each message up exactly once, and reports an MTU that fits.',
  over=['inputs', 'schedules', 'histories'], qtext='all states of the buffer, lengths of messages and parts, and interleavings of one producer and one consumer',
  why='The regions in use wrap around and move; only specific lengths at specific positions make them overlap.',
  files=['include/libstored/fifo.h'],
  state=[('buffer pointers', 'start of unread data, end of complete messages, end of the partial message', 'MessageFifo::m_rp, m_wp, m_wp_partial'), ('queue of messages', 'position and length of each', 'MessageFifo::m_msg')],
  mech=[('MessageFifo, FifoLoopback1, FifoLoopback', 'include/libstored/fifo.h')],
  observe=['messages popped', 'return values of push, append, space, full'],
  technique='abstract interpretation with the regions in use as relations between the pointers, per instantiation', note=AINOTE)

P(id='P20', title='Accessing a function object invokes its callback once with the whole value',
  statement='Reading or writing a function object invokes the callback that the application implements for that object exactly once, with the matching direction and the whole value, whatever kind of handle is used and whatever the alignment of the buffer of the caller. '
            'The caller gets exactly what the callback gave, together with its length. '
            'An id without a function invokes nothing.',
  over=['inputs', 'programs'], qtext='all functions of a store, types of values, kinds of handles, directions, buffers and lengths, on hosts with and without unaligned access',
  why='Directions, alignment, and the kinds of handles multiply; tests run on a host that allows unaligned access and sample a few types.',
  files=['include/libstored/types.h', 'include/libstored/store.h.tmpl'],
  state=[('function id', 'from 1 up to the number of functions', 'Function::m_f, Variant::m_f')],
  mech=[('Function, Variant, StoreFunction, StoreVariantF', 'include/libstored/types.h'), ('callback()', 'include/libstored/store.h.tmpl')],
  observe=['callbacks of the application', 'values and lengths returned'],
  technique='abstract interpretation with the typestate of the callback, per kind of handle and type, and per id of the dispatcher', note=AINOTE)

P(id='P21', title='A handle bound to a store denotes the object it was created for',
  statement='Binding an unbound variable, function or variant to a store, and converting between typed and untyped handles, gives a handle to precisely the same object: its memory or function id, key, type, length, and store; also for the last objects that fit the type that holds the offset or id. '
            'An invalid handle stays invalid, and two handles are equal if and only if they denote the same object of the same store. '
            'A member of a store denotes the object at its own place.',
  over=['inputs', 'configurations'], qtext='all offsets, ids and lengths, in stores around the sizes at which another integer type is required, for chains of conversions',
  why='Only specific sizes of a store truncate an offset or id; a test store has one size.',
  files=['include/libstored/types.h', 'include/libstored/store.h.tmpl'],
  state=[('offset or id', 'in the smallest type that holds it', 'FreeVariable::m_offset, FreeFunction::m_f, Variant<void>::m_offset')],
  mech=[('FreeVariable, FreeFunction, Variant', 'include/libstored/types.h'), ('_variable, _variantv, _variantf, bufferToKey', 'include/libstored/store.h.tmpl')],
  observe=['pointers, keys, ids, types, lengths of handles'],
  technique='abstract interpretation of all compositions of the public handle types, with symbolic offsets and ids', note=AINOTE)

P(id='P22', title='Decoders restore what the escaping, terminal and segmentation layers sent',
  statement='Whatever the bytes of a message, the escaping layer sends only bytes that need no escape and pairs that its decoder maps back to the original byte, where a carriage return that was inserted on the way is dropped. '
            'The terminal layer extracts every message between its start and end sequence exactly once and complete, however the input is cut into chunks and whatever surrounds it, and forwards all other bytes in order; '
            'the segmentation layer ends every segment with the right marker and delivers the concatenated segments once, at the end of the message.',
  over=['inputs', 'histories'], qtext='all messages and surrounding data, any chunking of the input of the terminal layer, all segment lengths, all states left by earlier calls',
  why='Restoring fails for specific bytes next to each other, at the border of chunks, or as the last byte; tests decode a dozen strings.',
  files=['src/protocol.cpp', 'include/libstored/protocol.h', 'python/libstored/protocol.py'],
  state=[('state of the decoder', 'within a message, after an ESC', 'TerminalLayer::m_decodeState, m_buffer'), ('segments up to now', 'concatenated', 'SegmentationLayer::m_decode')],
  mech=[('encode() and decode() of AsciiEscapeLayer, TerminalLayer, SegmentationLayer', 'src/protocol.cpp')],
  observe=['bytes passed to the adjacent layer, non-debug bytes forwarded'],
  technique='abstract interpretation of the decoders in lock step with the automaton of the framing, one class of bytes at a time', note=AINOTE)

P(id='P23', title='File, pipe and ZeroMQ layers lose no data and no descriptor, and wait as asked',
  statement='Writing a message to a file or pipe passes all its bytes to the operating system, in order and once, waiting for room as long as needed, and reports success if and only if all were taken; data that is read is delivered once, and reading reports success if and only if it delivered. '
            'Waiting with a negative timeout waits indefinitely and with another timeout does not, leaves nothing registered in the poller, and reports what it returns; every descriptor that is owned is closed exactly once or still in use. '
            'Every part of a message is sent once over ZeroMQ and marked whether more follow, and the parts that are received are concatenated in a buffer that is large enough, delivered once, and released.',
  over=['inputs', 'fault_sequences'], qtext='all data lengths and timeouts, every outcome of the calls to the operating system and ZeroMQ (errors, partial writes, end of file) at every point',
  why='Loss depends on a short write, an error or a timeout at one specific call; tests use descriptors that are always ready.',
  files=['src/protocol.cpp', 'src/zmq.cpp', 'include/libstored/protocol.h', 'include/libstored/zmq.h'],
  state=[('descriptors', 'owned or closed', 'FileLayer::m_fd_r, m_fd_w'), ('received parts', 'kept up to the last part', 'ZmqLayer::m_buffer, m_bufferSize, m_bufferCapacity'), ('last error', 'result of the last operation', 'PolledLayer::m_lastError')],
  mech=[('FileLayer::encode(), recv(), close_(), PolledFileLayer::block(), NamedPipeLayer::reopen()', 'src/protocol.cpp'), ('ZmqLayer::encode(), recv1(), block()', 'src/zmq.cpp')],
  observe=['write(), read(), close(), poll() and zmq_*() calls, lastError()'],
  technique='abstract interpretation of the layers against a model of every outcome of the system calls', note=AINOTE)

P(id='P24', title='A poller polls what is registered and reports every event for the right object',
  statement='What is added to a poller is polled until it is removed: the objects, what is polled for them, and their number stay in step whichever is removed, also when adding fails. '
            'Every poll() looks at all of them with the timeout that is given, reports precisely the objects that have one of the requested events, each with those events, and otherwise returns nothing and the error. '
            'A descriptor or socket that is added to a poller without an object of its own gets one with the same events and user data, found again by that descriptor, replaced when modified, and deleted when removed.',
  over=['histories', 'inputs'], qtext='all lists of any length, the position that is removed, all combinations of requested and reported events, results and errors of the operating system',
  why='Mixed-up entries show only after removal from the middle, or when specific objects and events are ready together; tests poll one or two.',
  files=['include/libstored/poller.h', 'src/poller.cpp'],
  state=[('registered objects', 'in step with what is polled', 'InheritablePoller::m_pollables, m_items'), ('events to report', 'those of the last poll', 'InheritablePoller::m_lastEvents')],
  mech=[('InheritablePoller::add(), remove(), clear(), poll(), event()', 'include/libstored/poller.h'), ('doPoll() and init() of ZmqPoller, PollPoller, LoopPoller', 'src/poller.cpp'), ('Poller::add(), modify(), remove()', 'include/libstored/poller.h')],
  observe=['result of poll(), revents of the objects, errno'],
  technique='abstract interpretation of the pollers with ghost positions in their lists, one class of events at a time', note=AINOTE)

P(id='P25', title='Finding and listing objects follow the directory and stay within the name',
  statement='Looking up a name reads no character beyond its length or terminator, compares every character with the directory and follows the branch for less, greater or equal, skips what the directory says that is to be skipped, and yields an object only when all that matched, with precisely the type, length and offset in its entry. '
            'Listing visits both branches and the rest of every entry, reports every object once with its type, length, place in the buffer and its full name after the prefix that was given (and no other), and restores the name afterwards. '
            'Both read precisely the fields of every entry, where numbers are encoded 7 bits per byte, most significant first, until a byte without the top bit set.',
  over=['inputs', 'programs'], qtext='all well-formed directories, all names with or without terminator within the given length',
  why='Tests look up a few names in a few stores; a wrong branch, or a character read past the length, shows only for names that end or differ at a specific place in the directory.',
  files=['include/libstored/directory.h', 'src/directory.cpp'],
  mech=[('impl::find(), decodeInt(), skipOffset()', 'include/libstored/directory.h'), ('list()', 'src/directory.cpp')],
  observe=['result of find(), calls of the callback of list()'],
  technique='abstract interpretation over an automaton of directory entries, with ghost positions in the name', note=AINOTE + ' The directory is assumed to be well-formed; its generator is not analysed.')

# Properties that this family of techniques does not decide here.
P(id='P40', title='Synchronized stores become equal once no party changes them anymore',
  statement='When a number of parties synchronize a store over a connected tree of connections, and no party changes it anymore, repeatedly processing all synchronizers makes all copies equal.',
  over=['schedules', 'histories'], qtext='all topologies, all interleavings of changes and of processing by the parties',
  why='Tests process two or three parties in a fixed order.',
  files=['src/synchronizer.cpp'], mech=[('process of all connections', 'src/synchronizer.cpp')],
  na='Convergence is a liveness property over interleaved histories of several parties, in which the contents of every journal at run time decide what is sent; no static argument in reach bounds that. '
     'Its ingredients at one party (sent on exactly once, not echoed, found in the journal, applied in bounds, right ids) are decided by P11 to P14.')
P(id='P41', title='Messages get through a lossy channel eventually',
  statement='When a channel keeps delivering some of the frames, two ARQ layers deliver every message that is sent, and their queues become empty, whatever frames are lost or repeated.',
  over=['schedules', 'fault_sequences'], qtext='all patterns of loss, and all moments at which keep-alive and retransmission are invoked',
  why='Tests drop a few frames in fixed patterns.',
  files=['src/protocol.cpp'], mech=[('retransmission and keep-alive', 'src/protocol.cpp')],
  na='Progress depends on the fairness of the channel and on how often the application calls in at run time, over the product of two parties and a channel: a question for a model checker, not for an analysis of the source. '
     'The safety side (once, in order, acknowledged, kept until acknowledged) is decided by P15.')
P(id='P42', title='Every valid store definition gives a store with its layout and initial values',
  statement='For every valid store definition, the generated store has all its objects, without overlap and aligned as described in its metadata, with their initial values, and all language back ends agree on it.',
  over=['programs'], qtext='all store definitions',
  why='Tests generate a few dozen stores.',
  files=['python/libstored/generator'], mech=[('allocation of objects to offsets', 'python/libstored/generator/dsl/types.py')],
  na='It quantifies over the definitions that a Python generator with run-time templates turns into code; the result is only there after running the generator. Checking generated stores one by one would be testing of the generator by samples. '
     'What the C++ library does with any layout it is given is decided by P11, P16, P20 and P21.')
P(id='P43', title='Keep-alive, retransmission and timeouts happen in time',
  statement='Idle connections are kept alive, frames are retransmitted, and timeouts expire within the configured number of calls or time.',
  over=['schedules'], qtext='all timings of calls by the application and of arriving data',
  why='Tests do not depend on time.',
  files=['src/protocol.cpp', 'src/poller.cpp'], mech=[('keepAlive(), IdleCheckLayer, poll()', 'src/protocol.cpp')],
  na='It is about durations at run time, set by the application, the operating system and the channel; the source does not bound them.')
P(id='P44', title='The VHDL implementation interoperates with the C++ one',
  statement='The generated VHDL store and protocol stack parse and produce the same messages, byte for byte, as the C++ library does for the same store.',
  over=['histories', 'programs'], qtext='all stores and message sequences',
  why='The VHDL test benches need a simulator and exchange a fixed set of messages.',
  files=['fpga'], mech=[('libstored package and the generated store', 'fpga')],
  na='There is no VHDL front end among the tools available here, so the VHDL sources cannot be analysed beyond their text.')
P(id='P45', title='The control components compute what their documentation specifies',
  statement='Every component (amplifier, PID controller, ramp, filters, integrators) computes its documented function of its inputs and sample frequency, without overflow or drift, for all values of its coefficients.',
  over=['inputs', 'histories'], qtext='all coefficients and sequences of inputs',
  why='Tests run each component on a few input sequences.',
  files=['include/libstored/components.h'], mech=[('run() of the components', 'include/libstored/components.h')],
  na='The results are floating-point recurrences of arbitrary run-time coefficients and unbounded history; no sound static bound on the error is in reach, and the structure of the formulas is all there is to compare with.')
P(id='P46', title='The Python clients show the values of the connected target',
  statement='The command line, GUI, and logging clients show the current value of every object of the target they are connected to, and write precisely the values that the user enters.',
  over=['histories', 'schedules'], qtext='all interactions, connection losses and concurrent changes',
  why='There are no automatic tests of the clients.',
  files=['python/libstored'], mech=[('asynchronous clients', 'python/libstored')],
  na='The clients are dynamically typed event-driven programs (asyncio, Qt and Tk event loops); which handlers run when depends on run-time subscriptions that no analysis of the source resolves soundly.')
