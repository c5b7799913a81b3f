#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)


FR = ["src/stream/framer.c", "include/embc/stream/framer.h"]

p("C01", "Framer receiver survives any byte stream, in any chunking, without leaking",
  "For every sequence of bytes received on the link, however it is split into deliveries, the framer reads and writes only memory it owns and never raises a fatal assertion. Every buffer it takes while receiving is either handed to the application or returned to the allocator, so that no traffic can exhaust the pools. Once the link is quiet and the framer has been finalized nothing remains taken.",
  ["inputs", "histories"], "all byte sequences up to the stated length, all chunkings, any sequence of frames valid or not",
  "tests feed a handful of hand-made fragments; the damaging streams are specific combinations of delimiter bytes, length bytes and truncated frames that sampling does not hit",
  FR, [("receive state machine", "src/stream/framer.c rx byte state handlers"), ("resynchronization of partial data", "src/stream/framer.c framer_resync"), ("receive buffer ownership", "src/stream/framer.c rx_insert, rx_complete, rx_purge")])
p("C02", "Framer delivers a frame only when every wire check passes, and reports others",
  "A received byte sequence is accepted as a frame exactly when it starts and ends with the delimiter, its length field is permitted and matches, the header check byte matches the header and the frame check sequence matches the content. Data that fails any of these checks never reaches a port handler or a reception hook. Frame checks report invalid data with an error and valid data with its length.",
  ["inputs"], "all byte contents of candidate frames up to the stated payload length, including every corruption of a valid frame",
  "there are 2^(8n) corrupted frames; tests corrupt one fixed byte of one frame",
  FR, [("frame validation", "src/stream/framer.c embc_framer_validate"), ("header check", "src/stream/framer.c header CRC8"), ("frame check", "src/stream/framer.c frame CRC32")])
p("C03", "A sent message is received with the same port, id, definition and payload",
  "Every message given to the sender (any port, message id, port definition and any permitted payload length and content) produces a frame in the documented wire format that passes frame validation. When that frame reaches a receiver in its initial state, the matching port handler gets exactly the same port, message id, port definition, payload length and payload bytes, once.",
  ["inputs"], "all ports, message ids, port definitions, frame ids and payload contents up to the stated length",
  "tests use one payload of eight bytes; the property is over every header value and payload",
  FR, [("frame construction", "src/stream/framer.c frame construction and send"), ("dispatch to port", "src/stream/framer.c rx hook / port callback dispatch")])
p("C04", "Received frames are delivered in order exactly once despite loss and duplication",
  "When the frames of one sender arrive with any loss, retransmission, duplication or reordering that the three frame window permits, the port handlers see each message exactly once and in the order it was sent. This holds for every frame id, including when ids wrap from 15 to 0. A duplicate is acknowledged again but not delivered again, and its buffer is returned.",
  ["histories", "schedules"], "all arrival schedules up to the stated number of arrivals from every starting frame id",
  "tests replay a few permutations starting at frame id 0; wrap-around combined with reordering is not sampled",
  FR, [("receive window", "src/stream/framer.c rx_insert / rx_complete_queued"), ("frame id arithmetic", "src/stream/framer.c frame id delta")])
p("C05", "Framer resynchronizes: valid frames after garbage are still delivered",
  "After any received garbage that is not part of a frame, a following complete valid frame is delivered: the receiver finds the next frame start in the data it already holds and loses no frame that was fully received after the garbage. Extra delimiter bytes between frames are ignored.",
  ["inputs", "histories"], "all garbage byte strings up to the stated length before and between valid frames, in any chunking",
  "the failing garbage is a specific prefix that looks like a frame start; tests use two fixed bytes",
  FR, [("resynchronization", "src/stream/framer.c framer_resync"), ("start of frame search", "src/stream/framer.c rx state SOF")])
p("C06", "Each send completes exactly once, in order, within window and retry limits",
  "Every accepted message is reported as done to its port exactly once, in send order, with success if and only if its acknowledgement arrived, and with an error after the retry limit. At most three frames are outstanding at a time, waiting messages are sent as soon as the window opens, no frame is transmitted more than the retry limit plus one times, and its buffer is returned once both the link and the framer are done with it.",
  ["histories", "schedules", "fault_sequences"], "all bounded interleavings of sends, transmit completions, acknowledgements (right, wrong, repeated) and timeouts",
  "tests exercise fixed sequences; the interleaving of acknowledgement, transmit completion and timeout is what breaks ownership and ordering",
  FR, [("transmit window", "src/stream/framer.c tx buffers and transmit_queued"), ("acknowledgement handling", "src/stream/framer.c rx_ack / tx_confirmed"), ("retry", "src/stream/framer.c tx_timeout / retransmit")])
p("C07", "Framer keeps one timer armed while a frame waits for acknowledgement",
  "Whenever a transmitted frame waits for its acknowledgement, a timer is armed for no later than that frame's timeout, and a frame whose timeout expired is retransmitted or completed with an error when the timer fires. At most one timer is armed at a time, and it is cancelled when nothing waits.",
  ["histories", "schedules"], "all bounded interleavings of sends, transmit completions, acknowledgements and timer expirations at arbitrary non-decreasing times",
  "a lost timer only shows for particular orders of acknowledgement and expiry, tests use equally spaced timeouts",
  FR, [("timer scheduling", "src/stream/framer.c timer_schedule / timer_callback")])
p("C08", "Every received frame is acknowledged truthfully",
  "For each received data frame the receiver sends exactly one acknowledgement carrying that frame's id, port and message id, a status that tells whether it was accepted, and a bitmask in which a bit is set exactly when the frame with that relative id has been received. Acknowledgements themselves are never acknowledged.",
  ["histories", "inputs"], "all bounded arrival schedules of valid, duplicated and corrupted frames",
  "the bitmask relates ids across wrap and gaps; tests check a few fixed masks",
  FR, [("acknowledgement construction", "src/stream/framer.c ack send"), ("receive bitmask", "src/stream/framer.c rx mask")])
p("C09", "Framer port 0 answers pings and status requests and isolates application ports",
  "A ping request received on port 0 is answered with one ping response with the same payload, and a status request with one status response, while responses reach only the registered port 0 client. A message for an unregistered or non-existent port is dropped without affecting others and its buffer is returned.",
  ["inputs", "histories"], "all port numbers, port definitions and payloads up to the stated length",
  "tests send one ping payload and never address unknown ports",
  FR, [("port 0 handler", "src/stream/framer.c port0 rx"), ("port dispatch", "src/stream/framer.c rx hook")])
p("C10", "Buffer allocator hands out disjoint, large enough, reusable buffers",
  "Every buffer handed out has at least the requested capacity, is empty, comes from the smallest configured size that fits, and overlaps no other live buffer. Buffers returned become available again, no history of allocations and releases loses or creates buffers, and a request larger than any configured size or from an exhausted size is refused.",
  ["histories", "inputs", "configurations"], "all bounded allocation and release histories over all bounded pool configurations and request sizes",
  "tests use one configuration and sizes near 30 bytes",
  ["src/memory/buffer.c", "include/embc/memory/buffer.h"], [("size class selection", "src/memory/buffer.c embc_buffer_alloc"), ("pool construction", "src/memory/buffer.c allocator initialize")])
p("C11", "Buffer accesses stay within length and capacity, and violations are fatal",
  "For every sequence of buffer operations the cursor never exceeds the length and the length never exceeds the capacity, writes never touch the reserved tail or memory outside the buffer, and reads never pass the length. An operation that would break this raises the fatal assertion; an operation that fits always succeeds.",
  ["histories", "inputs"], "all bounded operation sequences with arbitrary sizes, offsets, reserve and contents",
  "off-by-one conditions depend on exact cursor, length and reserve combinations that tests do not enumerate",
  ["src/memory/buffer.c", "include/embc/memory/buffer.h"], [("write bounds", "include/embc/memory/buffer.h inline write functions"), ("erase, copy, write, read", "src/memory/buffer.c")])
p("C12", "Integers encode to and decode from byte order exactly, for every value",
  "Writing an unsigned 8, 16, 32 or 64 bit value little or big endian places exactly the documented bytes, touches no other byte, advances by exactly the width, and reading it back with the same order gives the same value. Reading any bytes and writing the value restores the same bytes.",
  ["inputs"], "all 8, 16, 32 and 64 bit values, all offsets in the stated buffer",
  "tests check one constant per width; a sign extension or shift error shows only for particular bytes",
  ["include/embc/bbuf.h", "include/embc/memory/buffer.h"], [("encoders", "include/embc/bbuf.h"), ("buffer encoders", "include/embc/memory/buffer.h")])
p("C13", "Buffer write, string, copy and erase operations have exact content effects",
  "After a write, copy or string write the affected bytes equal the source and every other byte is unchanged; length grows only when the cursor passes it. A string write that fits stores every character and says so, one that does not is truncated to the available space and says so. Erasing a range removes exactly those bytes, keeps the rest in order and keeps the cursor on the byte it pointed to.",
  ["inputs", "histories"], "all contents, cursors, lengths, ranges and string lengths up to the stated size",
  "tests use a few fixed strings and ranges, none filling the buffer exactly",
  ["src/memory/buffer.c", "include/embc/memory/buffer.h"], [("string write", "src/memory/buffer.c"), ("erase", "src/memory/buffer.c embc_buffer_erase"), ("copy", "src/memory/buffer.c embc_buffer_copy")])
p("C14", "Block allocator finds free runs, never overlaps and recovers freed blocks",
  "An allocation returns a block aligned run inside the managed memory that is large enough and overlaps no live allocation, and it fails only when no sufficiently long run of free blocks exists. Freeing an allocation makes exactly its blocks available again, and freeing something that is not allocated is a fatal error.",
  ["histories", "inputs"], "all bounded allocation and release histories over arbitrary sizes, from arbitrary occupancy",
  "a bitmap error depends on the occupancy of neighbouring blocks; tests build a few regular patterns",
  ["src/memory/block.c", "include/embc/memory/block.h"], [("bitmap search", "src/memory/block.c"), ("size to blocks", "src/memory/block.c")])
p("C15", "Fixed size pool hands out each block once and takes it back",
  "A pool of n blocks hands out n distinct, aligned, non overlapping blocks of the requested size inside its memory and then reports exhaustion. A released block becomes available again and no history loses or duplicates a block.",
  ["histories", "configurations"], "all bounded allocation and release histories, block counts and block sizes",
  "tests allocate and free in one order for one geometry",
  ["src/memory/pool.c", "include/embc/memory/pool.h"], [("free list", "src/memory/pool.c")])
p("C16", "Object pool reference counts destroy an object exactly at its last release",
  "An object from the pool is constructed once when handed out, stays valid and distinct from every other live object while references remain, and is destructed and made available again exactly when its last reference is released. Exhaustion and use after the last release raise the fatal assertion.",
  ["histories"], "all bounded histories of allocate, add reference and release over several objects",
  "tests use one object and one order of reference operations",
  ["src/memory/object_pool.c", "include/embc/memory/object_pool.h"], [("reference count", "src/memory/object_pool.c incr/decr")])
p("C18", "Linked list operations keep exact sequence semantics",
  "After any history of insertions at head, tail, before or after an item, removals, moves between lists and whole list appends, traversal in either direction yields exactly the expected items in order, and length, position lookup, membership, head and tail agree. An item belongs to at most one list, and traversal tolerates removal of the visited item.",
  ["histories"], "all bounded operation histories over two lists",
  "the tests build each shape once; empty list, single item and self move combinations are not enumerated",
  ["include/embc/collections/list.h", "src/collections/list.c"], [("insert and remove", "include/embc/collections/list.h"), ("position lookup", "src/collections/list.c")])
p("C19", "Integer map behaves as a map for every key history, across growth",
  "After any history of puts, gets and removes, a get returns the value of the last put for that key and reports not found for absent keys, put and remove report the previous value, and length counts the distinct keys. This holds when keys collide and when the table grows, and removing entries or destroying the map releases their memory.",
  ["histories", "inputs"], "all bounded histories over arbitrary integer keys including colliding and negative keys, across at least one growth",
  "the tests insert sequential keys, which never collide before growth",
  ["src/collections/intmap.c", "include/embc/collections/intmap.h"], [("hash bins", "src/collections/intmap.c"), ("resize", "src/collections/intmap.c intmap_resize")])
p("C20", "Integer map iteration visits every entry once and ends, also under removal",
  "An iterator yields every entry present exactly once with its key and value and then reports the end, for every key distribution. Removing the entry just returned, or the one about to be returned, while iterating is safe and the remaining entries are still visited exactly once.",
  ["histories", "inputs"], "all bounded key sets and removal points",
  "tests iterate three keys and never run past the end",
  ["src/collections/intmap.c", "include/embc/collections/intmap.h"], [("iterator advance", "src/collections/intmap.c"), ("iterator fixup on remove", "src/collections/intmap.c")])
p("C21", "String map keeps the last value for every text, by content",
  "After any history of puts, gets and removes, a get returns the value of the last put for a key with the same characters, whatever memory holds them, and reports not found for absent keys. Different texts keep different entries even when they collide, are prefixes of each other or are empty; the map keeps its own copy of each key, put and remove report the previous value, and removing entries or destroying the map releases their memory.",
  ["histories", "inputs"], "all bounded histories over texts including colliding ones",
  "tests use a few unrelated words without hash collisions",
  ["src/collections/strmap.c", "include/embc/collections/strmap.h"], [("hash bins and key copies", "src/collections/strmap.c")])
p("C22", "Hash map keeps the last value for every key under any hash function",
  "After any history of puts and gets with any hash and equality functions, including hashes that always collide, a get returns the value of the last put for an equal key, absent keys are reported, previous values are returned and length counts distinct keys. Destroying the map releases its memory.",
  ["histories", "inputs"], "all bounded histories, arbitrary hash values",
  "tests use one well distributed hash",
  ["src/collections/hashmap.c", "include/embc/collections/hashmap.h"], [("buckets", "src/collections/hashmap.c")])
p("C23", "Event manager fires due events once, in time order, never a cancelled one",
  "Processing at a time runs exactly the scheduled events whose time has come, each once, in timestamp order with ties in scheduling order, and events with a timestamp of zero or less are ignored. Cancelled events never run, also when cancelled from inside a running callback; a due event scheduled from a callback runs by the next processing at the latest. The reported next time and interval match the earliest pending event.",
  ["histories", "schedules", "inputs"], "all bounded histories of schedule, cancel and process with arbitrary timestamps, including operations from callbacks",
  "tests schedule two or three events; cancellation from callbacks and ties are not enumerated",
  ["src/event_manager.c", "include/embc/event_manager.h"], [("ordered event list", "src/event_manager.c"), ("processing loop", "src/event_manager.c embc_evm_process")])
p("C24", "State machine runs transitions exactly as its tables say",
  "For every transition table, the first entry matching the current state (or any state) and the event whose guard permits is taken: exit handler of the old state, then entry handler of the new one, in that order, and otherwise the state is unchanged. Guards that skip or refuse keep the state; reset enters the initial state; events posted from handlers are run after the current one completes.",
  ["programs", "histories", "inputs"], "all bounded tables, guards and event sequences",
  "tests use one small machine",
  ["src/fsm.c", "include/embc/fsm.h"], [("event processing", "src/fsm.c")])
p("C25", "Console line editor delivers exactly the edited line",
  "For every sequence of typed characters, at each line end the command handler gets exactly the characters typed since the previous line end after backspaces are applied, the text from a comment character (# @ %) on is dropped and white space is trimmed at both ends and collapsed to one blank inside. CR LF is one line end. Lines of 64 characters or more are rejected and not executed. No input writes outside the line buffer, and editing continues normally afterwards.",
  ["inputs", "histories"], "all character sequences up to the stated length, including overlong lines",
  "tests type a few short lines",
  ["src/cli.c", "include/embc/cli.h"], [("line editing", "src/cli.c")])
p("C26", "Command arguments are split exactly at the documented separators",
  "A command line is split at blanks, tabs and commas into exactly its separated arguments, in order, unchanged; more than 16 arguments or more than 65 characters are reported as errors and nothing is executed. The handler gets its own cookie. The parser reads nothing beyond the end of the given text.",
  ["inputs"], "all command strings up to the stated length",
  "tests parse a few well formed lines",
  ["src/cli.c", "include/embc/cli.h"], [("argument parser", "src/cli.c")])
p("C27", "Bounded string copy and comparisons are exact and never overrun",
  "A bounded copy always terminates the destination, writes no byte beyond its size, reproduces the source as far as it fits and tells whether it was truncated. Case-insensitive comparison and prefix tests agree with their character-wise definition for every pair of strings.",
  ["inputs"], "all strings up to the stated length and all destination sizes",
  "boundaries at exact fits and bytes outside ASCII are not sampled",
  ["src/cstr.c", "include/embc/cstr.h"], [("copy and compare", "src/cstr.c")])
p("C28", "Text to integer conversion accepts exactly valid numbers and gives their value",
  "Converting text to an unsigned or signed 32 bit integer succeeds exactly for documented decimal or hexadecimal spellings with surrounding whitespace whose value fits, and then yields that value. Every other text, including empty, malformed and out of range numbers, is reported as an error.",
  ["inputs"], "all strings up to the stated length",
  "out of range values and partial spellings are outside the tested examples",
  ["src/cstr.c", "include/embc/cstr.h"], [("integer parser", "src/cstr.c")])
p("C29", "Fixed point text conversion scales exactly and rejects malformed numbers",
  "Converting decimal text with a power of ten scale yields exactly the decimal value times the scale with further digits truncated, for every sign, digit count and scale in range. Malformed text is reported as an error.",
  ["inputs"], "all strings up to the stated length, all exponents in range",
  "tests convert a few constants",
  ["src/cstr.c", "include/embc/cstr.h"], [("scaled parser", "src/cstr.c")])
p("C30", "Keyword, boolean, hex digit and case helpers are exact for every input",
  "Looking a text up in a keyword table or as a boolean gives the matching entry or an error, without changing the output on error. Hex digit conversion accepts exactly the hexadecimal characters, is inverse to its counterpart, and case conversion changes exactly the ASCII letters.",
  ["inputs"], "all characters, all strings up to the stated length",
  "tests use a few words",
  ["src/cstr.c", "include/embc/cstr.h"], [("lookup and hex", "src/cstr.c")])
p("C31", "CRC functions equal their published definitions and can be chained",
  "For every input, each checksum equals the bit-wise definition of its published polynomial, initial value, reflection and final inversion. Computing over data in pieces, passing each result to the next call, gives the same value as computing at once, and empty input leaves the initial value unchanged.",
  ["inputs"], "all byte strings up to the stated length, all split points",
  "table driven code can be wrong for a single table entry or nibble; test vectors cover few",
  ["src/crc.c", "include/embc/crc.h"], [("CRC tables", "src/crc.c")])
p("C32", "CRC functions detect every single bit and short burst error",
  "For messages up to the stated length, changing any single bit, or any burst of bits not longer than the checksum width, always changes the checksum.",
  ["inputs"], "all messages up to the stated length and all error patterns of the stated classes",
  "a wrong table can keep the test vectors right but lose detection for some positions",
  ["src/crc.c", "include/embc/crc.h"], [("CRC tables", "src/crc.c")])
p("C33", "Pseudo-random sequence follows its recurrence and recovers from any state",
  "The generator follows its documented feedback recurrence for every non-zero seed, never reaches the all zero state, and its buffer and single value forms agree. A follower fed with the generated values predicts every following value after synchronizing and reports mismatching values as errors.",
  ["inputs", "histories"], "all 16 bit seeds, all bounded sequences with arbitrary corrupted values",
  "the state space has 65535 states and arbitrary errors; tests use a few seeds",
  ["src/lfsr.c", "include/embc/lfsr.h"], [("shift register", "src/lfsr.c")])
p("C34", "Test pattern transmitter produces the documented sequence for every state",
  "From every state the transmitter's next word continues the documented shift and counter pattern, and producing several words at once gives exactly the words that single steps would.",
  ["inputs", "histories"], "all reachable states, all bounded word counts",
  "tests check the start of the sequence only",
  ["src/pattern_32a.c", "include/embc/pattern_32a.h"], [("transmitter", "src/pattern_32a.c")])
p("C35", "Test pattern receiver counts losses and errors exactly and resynchronizes",
  "A receiver fed with an intact pattern from any position synchronizes and then reports no error, and dropped, duplicated or corrupted words are counted as such. After any corruption it synchronizes again on intact data.",
  ["inputs", "histories", "fault_sequences"], "all positions, all bounded fault sequences",
  "fault position and pattern phase interact; tests inject few faults",
  ["src/pattern_32a.c", "include/embc/pattern_32a.h"], [("receiver", "src/pattern_32a.c")])
p("C36", "Stream source and sink move every byte once, in order, and finish properly",
  "Transferring data from a memory source to a memory sink in any interleaving of requests and deliveries moves exactly the source bytes, in order, once, and never writes outside the sink. A sink that is too small, a close or an abort ends the transfer with the corresponding status, and the completion is reported exactly once.",
  ["histories", "schedules", "inputs"], "all bounded data, capacities, chunk sizes and event orders",
  "tests use one transfer size and order",
  ["src/stream/async_source.c", "src/stream/async_sink.c", "src/stream/async.c"], [("source", "src/stream/async_source.c"), ("sink", "src/stream/async_sink.c")])
p("C37", "Time conversions round as documented and are consistent",
  "Conversions between the fixed point time and seconds, milliseconds, microseconds, nanoseconds and counter ticks give the documented rounding, and whole units survive a round trip (nanoseconds within one). Time minimum, maximum and absolute value select the right operand.",
  ["inputs"], "all values in the stated ranges",
  "tests check a few constants; rounding errors depend on the exact fraction",
  ["include/embc/time.h"], [("conversions", "include/embc/time.h")])
p("C38", "Bit and arithmetic helpers are exact over their whole domain",
  "Leading zero count, next power of two, rounding to powers, min, max, clamp and container lookups give the mathematically defined result for every argument in their documented domain.",
  ["inputs"], "all 32 bit arguments",
  "2^32 arguments per helper, tests sample ten",
  ["include/embc/platform/stdlib.h", "include/embc/cdef.h"], [("bit tricks", "include/embc/platform/stdlib.h"), ("macros", "include/embc/cdef.h")])
p("C39", "Argument checks and assertions trigger exactly when their condition fails",
  "Argument checking helpers return the documented error exactly when the value is outside what they permit and otherwise fall through, evaluating as their definition states for every value. Contract assertions raise the fatal handler exactly when the condition is false.",
  ["inputs"], "all argument values",
  "boundary values of each comparison are not all tested",
  ["include/embc/argchk.h", "include/embc/dbc.h"], [("argument checks", "include/embc/argchk.h"), ("contracts", "include/embc/dbc.h")])
p("C40", "Error code and log level names map one to one to their codes",
  "Every defined error code has its own name and description and every other number maps to the unknown entry without reading outside the tables. Every log level maps to its own name and character.",
  ["inputs"], "all integer codes and levels",
  "a shifted or missing table entry affects values the tests do not look up",
  ["src/ec.c", "include/embc/ec.h", "src/log.c"], [("error tables", "src/ec.c"), ("level tables", "src/log.c")])
p("C90", "Python bindings present the same behaviour as the native library",
  "The Python wrappers for buffers, lists, framer and pattern give the same results as the native functions they wrap for every argument.",
  ["inputs"], "all arguments of the wrapped functions",
  "the wrapper tests need a Windows library that does not exist here",
  ["py/embc/stream/framer.py", "py/embc/memory/buffer.py"], [("ctypes wrappers", "py/embc")])
p("C91", "Frames are retransmitted and delivered within bounded wall clock time",
  "On a real link a frame is acknowledged or reported failed within the retry count times the timeout of wall clock time.",
  ["schedules"], "all platform timer and scheduling delays",
  "depends on the platform timer and scheduler, which the tests replace",
  FR, [("timeouts", "src/stream/framer.c")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
