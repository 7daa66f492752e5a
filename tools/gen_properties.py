#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it is readable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b) for a, b in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p('C01', 'Messages survive any fragmentation of the byte stream',
  'A sequence of messages written to a byte stream is received as exactly that sequence, with every field equal to what was sent. '
  'This holds however the bytes are split and delayed in transit, whatever the reader\'s buffer size, whatever the kind of source (bytes, file-like object, buffered stream or socket), and however many segments each message uses. '
  'Each load consumes exactly its own message, so messages can be mixed with other length- or newline-delimited data on the same stream.',
  ['schedules', 'inputs', 'configurations'],
  'every chunking/delay schedule x buffer size x source kind x sequence of messages (1..n segments, any schema content) mixed with text lines and raw blocks',
  'The tests feed whole messages, or one hand-written chunking; fragmentation points fall inside headers, size tables, padding and bodies in combinations no fixed list covers.',
  ['capnpy/message.py', 'capnpy/buffered.py', 'capnpy/filelike.py', 'capnpy/segment/segment.py'],
  [('message framing', 'capnpy/message.py:_load_message'), ('refill loop', 'capnpy/buffered.py:BufferedStream._fillbuf'),
   ('segment table and padding', 'capnpy/message.py:_load_buffer_multiple_segments')],
  [('read cursor', 'position of the next unread byte of the stream')], ['load', 'loads', 'load_all', 'Struct.load*', 'read/readline on the same stream'])

p('C02', 'A cut stream yields exactly the messages that arrived completely',
  'When a stream or an append-only file of messages ends at an arbitrary byte (peer crash, torn append, connection error), the reader delivers every message that arrived completely, in order, and nothing else. '
  'It then reports a clean end of stream if and only if the cut fell on a message boundary; otherwise it raises an error that is not end-of-stream, and a connection error raised by the transport reaches the caller as is. '
  'A truncated or over-long byte string is never accepted as a message.',
  ['crash_points', 'inputs', 'fault_sequences'],
  'every cut position (each byte of header, size table, padding, body) x end kind (EOF, reset, timeout) x chunking x source kind x single/multi segment',
  'The tests cut a few hand-written messages at a few places; the claim is about every byte position under every chunking and message shape.',
  ['capnpy/message.py', 'capnpy/buffered.py', 'capnpy/filelike.py'],
  [('short-read checks', 'capnpy/message.py:_load_buffer_single_segment/_load_buffer_multiple_segments'),
   ('end-of-stream detection', 'capnpy/message.py:_load_message, load_all')],
  [('crash point', 'number of bytes of the stream that survive')], ['load', 'loads', 'load_all'])

p('C03', 'Buffered reads behave like reads of one contiguous byte string',
  'Any interleaving of sized reads, read-to-end, line reads and message loads on a buffered source returns exactly what the same calls would return on a single in-memory copy of the received bytes: nothing lost, duplicated or reordered. '
  'A read that fails because the transport raised (timeout, interruption, would-block) consumes nothing, so repeating it returns the bytes it would have returned. '
  'After end of stream every further read returns empty bytes.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of read(n), read(), readline(), load() x chunk schedule x transient transport errors at any point x buffer size, directly and through the generic file adapter',
  'Tests call each method once or twice on fixed chunks and never let the transport raise in the middle of a call.',
  ['capnpy/buffered.py', 'capnpy/filelike.py'],
  [('buffer and cursor', 'capnpy/buffered.py:BufferedStream.read/readline/_readall'), ('generic adapter', 'capnpy/filelike.py:FileLikeAdapter')],
  [('buffer + index', 'bytes received but not yet consumed')], ['BufferedSocket/BufferedStream/StringBuffer .read .readline .tell'])

p('C04', 'Buffered writes reach the wire exactly once and in order',
  'Everything written or dumped to a buffered socket is handed to the connection exactly once, in write order, by the flushes that follow, including data written while a flush is blocked in the socket. '
  'A flush that fails before the connection accepted anything keeps all data for the next flush, and nothing reaches the wire without a flush. '
  'A message dumped by one of several writers is never interleaved with another\'s.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of write/dump/flush from several cooperative writers x send stalls x send failures x retries',
  'The single existing test writes twice and flushes once on a socket that never blocks and never fails.',
  ['capnpy/buffered.py', 'capnpy/message.py'],
  [('write buffer', 'capnpy/buffered.py:BufferedSocket.write/flush'), ('one write per message', 'capnpy/message.py:dump')],
  [('write buffer', 'data accepted but not yet sent')], ['bytes received by the peer'])

p('C05', 'Corrupted messages never crash the process or leak memory contents',
  'Loading a message with arbitrarily corrupted bytes, and then reading its fields and list items, comparing, hashing, printing, copying, compacting or re-dumping it, always ends in a value or an ordinary Python exception. '
  'It never terminates the process, never reads or writes memory outside the message and the copy being made, never modifies the message, and never makes unrelated later operations go wrong. '
  'Copying, compacting and dumping it take work and memory bounded by the size of the message plus a fixed limit, even for pointer cycles and forged counts.',
  ['inputs', 'fault_sequences'],
  'every sequence of bit flips, torn and zeroed words, forged pointers, sizes and counts applied to single and multi segment messages of any schema, in transit or at rest, x every public read/copy operation',
  'Tests contain a handful of out-of-bounds checks on hand-made buffers; the space is every corruption of every word, and a wild read is silent without memory instrumentation.',
  ['capnpy/message.py', 'capnpy/segment/base.pyx', 'capnpy/segment/segment.py', 'capnpy/segment/endof.py', 'capnpy/segment/_copy_pointer.py',
   'capnpy/segment/_copy_pointer.h', 'capnpy/segment/builder.pyx', 'capnpy/_hash.pyx', 'capnpy/struct_.py', 'capnpy/list.py'],
  [('bounds checks', 'capnpy/segment/base.pyx:check_bounds, _copy_pointer.h:CHECK_BOUNDS'), ('constructor assertions', 'capnpy/struct_.py:Struct._init_from_buffer')],
  [('message buffer', 'the bytes of all segments')], ['exit status of the process', 'address sanitizer', 'produced bytes'])

p('C06', 'Running out of memory is an exception, never corruption',
  'When any single or repeated memory allocation fails while a message is loaded, built, copied, compacted, dumped or read, the operation either completes correctly or raises an exception. '
  'The process survives, objects that existed before are unchanged, and the same operation gives the correct result once memory is available again.',
  ['fault_sequences', 'crash_points'],
  'every allocation point (first failing allocation k = 1, 2, 3, ..., single failure or failure from then on) of every public operation x messages that cross buffer-growth sizes',
  'No test injects an allocation failure.',
  ['capnpy/segment/builder.pyx', 'capnpy/segment/base.pyx', 'capnpy/struct_.py', 'capnpy/message.py', 'capnpy/list.py'],
  [('buffer growth', 'capnpy/segment/builder.pyx:SegmentBuilder._resize'), ('result buffer', 'capnpy/segment/base.pyx:dump_message')],
  [('builder buffer', 'bytes being assembled')], ['exceptions', 'exit status', 'address sanitizer'])

p('C07', 'A reader never waits for bytes beyond the message it is reading',
  'As soon as the last byte of a message has arrived on a connection, loading it returns, without asking the transport for more data. '
  'Hence peers that exchange requests and replies over buffered connections always make progress once the network delivers, however messages are fragmented, batched or delayed. '
  'After end of stream a load or read ends after a bounded number of transport calls.',
  ['schedules', 'histories'],
  'every request/reply conversation of several peers x message sizes relative to buffer size x fragmentation and coalescing x delay schedule',
  'Tests read from sockets that always have everything available or from chunk lists that never block; a needless blocking read is invisible there.',
  ['capnpy/buffered.py', 'capnpy/message.py', 'capnpy/filelike.py'],
  [('refill stops at the requested size', 'capnpy/buffered.py:BufferedStream._fillbuf'), ('exact reads', 'capnpy/message.py:_load_message')],
  [], ['calls made on the socket', 'conversation progress'])

p('C08', 'Messages and the library are safe to share between readers',
  'Reading, comparing, hashing, printing, copying, pickling or dumping a message from several threads, or from callbacks running inside another operation of the library, gives each of them the result it would get alone. '
  'No such operation changes the message\'s bytes or the value any other reader sees, and building new messages at the same time does not disturb it.',
  ['schedules'],
  'every interleaving (instruction level in interpreted mode, at every callback into user code in compiled mode) of reader, copier and builder threads over shared messages, lists and types',
  'No existing test uses two threads or re-enters the library.',
  ['capnpy/struct_.py', 'capnpy/list.py', 'capnpy/segment/segment.py', 'capnpy/segment/builder.py', 'capnpy/segment/builder.pyx', 'capnpy/message.py',
   'capnpy/compiler/field.py', 'capnpy/compiler/structor.py'],
  [('immutable buffers', 'capnpy/segment/base.py:BaseSegment'), ('one builder per operation', 'capnpy/message.py:dumps, capnpy/struct_.py:Struct.compact'),
   ('stateless item types', 'capnpy/list.py:ItemType subclasses')],
  [('message buffer', 'shared bytes'), ('prebuilt item types', 'process-wide objects shared by all lists')], ['results of each thread'])

p('C09', 'Views outlive the objects they came from',
  'A struct, list, group, list item, text or any-pointer obtained from a message stays valid and unchanged for as long as it is referenced, whatever happens to the message, stream, source buffer or sibling views it was obtained from. '
  'This holds for any order in which the others are dropped, closed, reused or garbage-collected. '
  'Releasing the last reference releases the memory.',
  ['histories', 'schedules'],
  'every order of obtaining, dropping, collecting and re-reading views, with memory churn in between, over messages of any source, including source buffers mutated after loading',
  'Tests keep the root alive while they look at children; a dangling raw pointer usually still shows the old bytes.',
  ['capnpy/segment/base.pyx', 'capnpy/blob.py', 'capnpy/struct_.py', 'capnpy/list.py', 'capnpy/anypointer.py'],
  [('every view owns its segment', 'capnpy/blob.py:Blob._init_blob'), ('segment owns its bytes', 'capnpy/segment/base.pyx:BaseSegment.__cinit__')],
  [('raw pointer', 'address of the segment bytes cached in compiled mode')], ['values read later', 'address sanitizer', 'reference counts'])

p('C10', 'Building from inputs that change underfoot never produces a corrupt message',
  'While a message is being built, the sequences and objects given to the constructor may change (another thread mutates a list, an item\'s conversion or iteration runs code that mutates it, raises, or builds other messages). '
  'The constructor then either raises an exception or returns a well-formed message in which every other field has the value it was given and every list has items actually present in the input. '
  'It never corrupts memory, and a failed construction affects nothing else.',
  ['schedules', 'fault_sequences'],
  'every point at which user code runs during construction x every mutation, exception or re-entrant library call made there x nested lists, struct lists, text, data and groups',
  'Tests only pass immutable, well-behaved inputs.',
  ['capnpy/segment/_copy_list.py', 'capnpy/segment/builder.pyx', 'capnpy/segment/builder.py', 'capnpy/compiler/structor.py'],
  [('list body allocated once from the length', 'capnpy/segment/_copy_list.py:copy_from_list')],
  [('builder buffer', 'bytes being assembled')], ['decoded message', 'address sanitizer'])

p('C11', 'Loading schemas is idempotent, consistent and failure-atomic',
  'A schema file loaded any number of times, by any name, directly or through imports, and from any number of threads, is one module with one set of types per process, so objects of the same schema type are always interchangeable. '
  'A load that fails (compiler missing, killed or reporting an error, unreadable or invalid file) raises and leaves no trace: other schemas keep working, and retrying after the cause is gone succeeds.',
  ['schedules', 'histories', 'fault_sequences'],
  'every history and interleaving of loads of a graph of schemas (diamonds, same base names) x compiler-process failures at any invocation',
  'Tests load each schema once per fresh compiler, single threaded, with a compiler that never fails half way.',
  ['capnpy/compiler/compiler.py', 'capnpy/compiler/request.py', 'capnpy/compiler/module.py', 'capnpy/__init__.py'],
  [('module cache', 'capnpy/compiler/compiler.py:DynamicCompiler.load_schema'), ('import emission', 'capnpy/compiler/request.py:RequestedFile._declare_imports')],
  [('module cache', 'file name -> loaded module'), ('sys.modules', 'temporary entries made while loading')], ['identity of modules and types', 'exceptions'])

p('C12', 'An interrupted build never leaves a stale or partial output that is trusted',
  'If generating a module from a schema file for a build is interrupted at any point (process killed, disk full, write error), the next build produces output that corresponds completely to the current schema. '
  'A partially written output is never treated as up to date, and a failed build never damages an output that was good. '
  'A build whose output is newer than its schema and complete leaves it alone; an edited schema is always rebuilt.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every crash, short write, disk-full or error point in the sequence of file operations of a build x histories of edits, touches and rebuilds x both output kinds and both entry points (command line, distutils)',
  'The tests run complete builds on a working disk.',
  ['capnpy/compiler/compiler.py', 'capnpy/compiler/distutils.py', 'capnpy/__main__.py'],
  [('up-to-date test', 'capnpy/compiler/compiler.py:DistutilsCompiler.compile'), ('output write', 'capnpy/compiler/compiler.py:DistutilsCompiler.compile, StandaloneCompiler._compile_py')],
  [('output file', 'generated source, compared by modification time')], ['content of the output file after the next build'])

p('C13', 'Nodes running different schema versions interoperate and preserve data',
  'When a schema evolves by adding fields, union members, enumerants or groups, old and new nodes read each other\'s messages: known fields keep their values and fields the sender did not know have their schema defaults. '
  'A node that relays, copies, compacts, embeds or re-dumps a message written by a newer node preserves the data it does not understand. '
  'This holds along any chain of nodes of mixed versions and for any order of upgrades.',
  ['histories', 'configurations', 'inputs'],
  'every chain of relays over nodes at versions v1..vk, with rolling upgrades and restarts replaying stored messages, over messages with nested structs, struct lists and unions',
  'Tests check one old/new pair on a hand-made buffer; chains of copies and list re-packing across versions are not sampled.',
  ['capnpy/struct_.py', 'capnpy/list.py', 'capnpy/segment/_copy_pointer.py', 'capnpy/segment/_copy_list.py', 'capnpy/compiler/field.py'],
  [('reads beyond the received size yield defaults', 'capnpy/struct_.py:Struct._read_primitive/_read_fast_ptr'), ('schema-less deep copy', 'capnpy/segment/_copy_pointer.py')],
  [('received struct size', 'data and pointer sizes carried by the message')], ['fields read at each node', 'reference decoding of stored bytes'])

p('C14', 'Compiled and interpreted nodes are indistinguishable',
  'A process running the compiled extension modules and one running the pure Python implementation (on CPython or PyPy), given the same program, messages and faults, produce identical bytes, read identical values, and fail at the same operations. '
  'The same holds between modules generated in compiled and in interpreted form from the same schema.',
  ['configurations', 'histories', 'inputs'],
  'every seeded history of building, sending, corrupt-free receiving, reading, copying and dumping, executed on each implementation',
  'The same tests run in both modes against expected constants, but never compare the modes with each other beyond those constants.',
  ['capnpy/ptr.py', 'capnpy/ptr.h', 'capnpy/packing.py', 'capnpy/packing.pyx', 'capnpy/segment/base.py', 'capnpy/segment/base.pyx',
   'capnpy/segment/builder.py', 'capnpy/segment/builder.pyx', 'capnpy/_hash.py', 'capnpy/_hash.pyx', 'capnpy/compiler/structor.py'],
  [('twin implementations', 'capnpy/ptr.py|ptr.h, segment/base.py|pyx, segment/builder.py|pyx, packing.py|pyx, _hash.py|pyx')],
  [], ['event log of each process'])

p('C15', 'Messages from any conforming peer are read correctly, whatever their layout',
  'A message written by a conforming peer reads back field for field, list item for list item, as the peer meant it, however the peer distributed objects over segments, ordered them, left gaps, padded or truncated default fields, or used single and double far pointers. '
  'Fields, lists, texts, any-pointers and their queries (presence, kind, length, union member) do not depend on that layout, and neither do copies made from it.',
  ['inputs', 'configurations'],
  'every allocation decision a peer\'s encoder can make x every type of field, list and nesting in the schema x every read and copy operation',
  'Tests contain a few recorded multi-segment messages; each field kind x pointer kind combination appears at most once.',
  ['capnpy/segment/segment.py', 'capnpy/struct_.py', 'capnpy/list.py', 'capnpy/anypointer.py', 'capnpy/segment/_copy_pointer.py', 'capnpy/segment/endof.py', 'capnpy/compiler/field.py'],
  [('far pointer resolution', 'capnpy/segment/segment.py:MultiSegment.read_far_ptr'), ('far branch of each reader', 'capnpy/struct_.py, capnpy/list.py'), ('far pointers while copying', 'capnpy/segment/_copy_pointer.py:copy_pointer')],
  [('segment offsets', 'start of each segment in the joined buffer')], ['accessors', 'dumps/compact output'])

p('C16', 'Content survives any history of copying, dumping and storing',
  'Taking a message through any sequence of dumping (either path), loading, compacting, pickling, raw dumping, embedding in another message, extracting from one, and collecting in struct lists leaves every field value unchanged. '
  'Every message the library writes is a well-formed single-segment message that any conforming reader decodes to the same content, contains no bytes from outside the copied object, and a compacted object holds only that object. '
  'Reading or copying never changes the source.',
  ['histories', 'inputs'],
  'every sequence of copy operations, at any nesting point of the object, from sources of any layout, across crash/restart of nodes that store messages in append-only files',
  'Tests apply one operation to one small hand-made struct.',
  ['capnpy/message.py', 'capnpy/struct_.py', 'capnpy/segment/_copy_pointer.py', 'capnpy/segment/endof.py', 'capnpy/segment/builder.pyx', 'capnpy/segment/builder.py', 'capnpy/segment/_copy_list.py', 'capnpy/anypointer.py'],
  [('fast path decision', 'capnpy/segment/endof.py:endof'), ('deep copy', 'capnpy/segment/_copy_pointer.py'), ('embedding', 'capnpy/segment/builder.pyx:copy_from_struct/copy_inline_struct')],
  [('object extent', 'start and end of the object in its segment')], ['independent decoding of every produced message'])

p('C17', 'Equality and hashing identify records, not their encodings',
  'Two struct values whose declared key fields are equal compare equal and hash equal, and equal to the tuple of those fields, however each was produced, encoded, segmented, copied or relayed; if any key field differs they compare unequal. '
  'Lists compare by their items in the same way. '
  'Hence a table keyed by records recognises duplicates and retransmissions exactly.',
  ['histories', 'inputs'],
  'every pair of deliveries of the same or different records over different paths (layouts, copies, versions, text modes, nulls, extreme integers, nested keys) into keyed tables under duplication, reordering and restart',
  'Tests compare hand-built instances made by the same constructor.',
  ['capnpy/struct_.py', 'capnpy/list.py', 'capnpy/blob.py', 'capnpy/_hash.pyx', 'capnpy/_hash.py', 'capnpy/_hash_cpython.c', 'capnpy/compiler/struct_.py'],
  [('generated key and hash', 'capnpy/compiler/struct_.py:_emit_key_maybe/_emit_fash_hash'), ('list comparison', 'capnpy/list.py:List._equals')],
  [], ['==, !=, hash, dict/set membership'])

p('C18', 'The stream decoding tool prints every complete record and then stops',
  'Decoding a file of messages from the command line prints one line per complete message, in order, each describing exactly that message, and finishes normally at the end of the file. '
  'If the file was cut in the middle of a message (its writer crashed), all complete messages are still printed and nothing is printed for the partial one.',
  ['crash_points', 'inputs'],
  'every cut position of a stored stream of messages of any layout, read through a file whose reads return arbitrary amounts',
  'No test runs the decode command to the end of a file with several messages or with a torn tail.',
  ['capnpy/__main__.py', 'capnpy/message.py'],
  [('decode loop', 'capnpy/__main__.py:decode')], [], ['standard output', 'exit of the command'])

p('C19', 'Reflection gives one consistent answer under concurrent first use',
  'Schema reflection obtained from a loaded module (nodes, fields, names, annotations) gives every caller the same correct answer, whether it is the first use or a later one, from one thread or from many, in any order of queries. '
  'Queries never change what later queries, later schema loads or code generation see.',
  ['schedules', 'histories'],
  'every interleaving and order of reflection queries (nodes by id and by type, field names, annotations present and absent) and schema loads over several modules',
  'Tests make one query on fresh data from one thread.',
  ['capnpy/reflection.py', 'capnpy/compiler/module.py', 'capnpy/compiler/node.py', 'capnpy/annotate_extended.py'],
  [('lazy generator', 'capnpy/reflection.py:ReflectionData.m'), ('annotation lookup', 'capnpy/compiler/module.py:ModuleGenerator.has_annotation')],
  [('lazily created node table', 'built on first use')], ['answers of the reflection API'])

# ---- pure functions of their input: listed, not claimed (see MANIFEST not_applicable)
p('N01', 'Textual output matches the reference tool',
  'The textual form of a message is the one the reference capnp tool prints for it and can be encoded back to the same message.',
  ['inputs'], 'every message of every schema', 'Only a sample of values per type is compared with the reference tool.',
  ['capnpy/compiler/struct_.py', 'capnpy/list.py', 'capnpy/util.py', 'capnpy/floatrepr.pyx'],
  [('generated shortrepr', 'capnpy/compiler/struct_.py:_emit_repr')], [], ['shortrepr()'])
p('N02', 'Constructors accept exactly the valid arguments',
  'Constructors and generated union factories accept exactly the field names of the type, reject conflicting union members and values of the wrong type or range, and fill everything else with defaults.',
  ['inputs', 'programs'], 'every schema and argument combination', 'Only a few combinations per type are tested.',
  ['capnpy/compiler/structor.py', 'capnpy/compiler/fieldtree.py', 'capnpy/compiler/struct_.py'],
  [('constructor generation', 'capnpy/compiler/structor.py')], [], ['constructors'])
p('N03', 'Any valid schema compiles to a module with the documented names',
  'Every schema the reference compiler accepts, within the documented feature set, compiles to an importable module whose names follow the documented conversion and whose options and annotations have their documented effect.',
  ['programs', 'configurations'], 'every schema x option set', 'Only hand-written schemas are compiled.',
  ['capnpy/compiler/module.py', 'capnpy/compiler/node.py', 'capnpy/compiler/field.py', 'capnpy/convert_case.py', 'capnpy/annotate.py'],
  [('code generation', 'capnpy/compiler')], [], ['generated modules'])
p('N04', 'Modules generated by another library version are refused',
  'A generated module whose recorded library version differs from the running one is refused at import with an explanation unless checking was turned off.',
  ['configurations'], 'every pair of versions', 'One pair is tested; the check is a single string comparison.',
  ['capnpy/util.py', 'capnpy/compiler/request.py'], [('version check', 'capnpy/util.py:check_version')], [], ['import of a generated module'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
