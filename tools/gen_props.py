#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

V="src/core/varint.c"; S="src/core/stream.c"; E="src/core/encoder.c"; D="src/core/decoder.c"
DE="src/core/descriptor.c"; DI="include/protobluff/core/descriptor.h"; B="src/core/buffer.c"
MB="src/message/buffer.c"; J="src/message/journal.c"; PA="src/message/part.c"; MS="src/message/message.c"
FI="src/message/field.c"; CU="src/message/cursor.c"; NE="src/message/nested.c"; ON="src/message/oneof.c"
VA="src/util/validator.c"; CH="src/util/chunk_allocator.c"; UD="src/util/descriptor.c"; AL="src/core/allocator.c"

p("W01","Scalars are encoded canonically and read back unchanged",
 "For every scalar field type and every value of that type, the record written for it is the canonical protocol-buffers encoding (field key, shortest varint, ten-byte sign extension for negative int32/int64/enum, zig-zag for sint, little-endian fixed width, length-prefixed bytes). Reading that record back, through the decoder or through a message, yields exactly the value that was written.",
 ["inputs"],"every scalar type, every value of the type (all bit-length boundaries and random values), every legal field number up to 2^29-1",
 "A value table in a unit test samples a handful of the 2^64 values; the size, pack and unpack routines are hand-unrolled per byte, so each boundary is its own path.",
 [V,S,E,D,FI],[("pb_varint_size_*/pack_*/unpack_*",V),("encode_varint, encode_64bit, encode_32bit, encode_length",E),("pb_stream_read jump table",S)],
 observe="bytes of pb_encoder_buffer; values passed to the decoder handler; pb_message_get")
p("W02","Encoding a message and decoding it returns the same fields in order",
 "For every sequence of encode calls (single values, arrays of repeated values, packed arrays, strings, nested encoders) the encoder's buffer is the concatenation, in call order, of the records those calls denote, with packed arrays of two or more values in one length-prefixed record. Decoding that buffer with the same schema calls the handler once per encoded value, in that order, with the same field and the same value, at every nesting level.",
 ["programs","inputs"],"every schema, every sequence of encode calls with any values and array lengths, nested to any depth",
 "Tests encode a few fixed messages; the property quantifies over all call sequences, schemas and lengths, including the points where length prefixes gain a byte.",
 [E,D,S,V],[("pb_encoder_encode / encode_packed",E),("pb_decoder_decode",D)],
 observe="pb_encoder_buffer bytes, decoder handler calls")
p("W03","The decoder reports exactly the known records of a well-formed message",
 "Given any well-formed message bytes, in any field order, with unknown fields (varint, 64-bit, length-prefixed or 32-bit), with repeated scalars packed, unpacked or mixed regardless of how they are declared, and including fields of registered extensions, decoding succeeds. The handler is called exactly once per occurrence of a known value, in wire order, with its descriptor and value; unknown fields are skipped and never reported.",
 ["inputs"],"every well-formed byte string for every schema",
 "The set of well-formed messages is infinite and order, packing and unknown fields combine; tests fix a few messages.",
 [D,S,DE],[("pb_decoder_decode loop",D),("pb_stream_skip jump table",S),("pb_descriptor_field_by_tag",DE)],
 observe="handler calls and return code of pb_decoder_decode")
p("W04","Malformed bytes are rejected with an error, without out-of-bounds access",
 "For every byte string that is not a well-formed message (truncated at any byte, overlong or truncated varints, lengths beyond the end, illegal wire types) the decoder and the validator return an error code instead of success and instead of crashing, after having reported only the values that precede the malformed record. No operation on any input, well-formed or not, reads or writes memory outside the given bytes.",
 ["inputs"],"every byte string, every schema; truncation of valid messages at every byte; bytes placed at the end of mapped memory",
 "Malformed inputs are unbounded and the failure (an over-read, a call through an empty table slot) often leaves the asserted result unchanged.",
 [D,S,V,VA],[("pb_varint_unpack_* / pb_varint_scan bounds",V),("pb_stream_advance, read_*/skip_*",S),("pb_decoder_decode error paths",D)],
 observe="return codes, handler calls, sanitizer and guard-page faults")
p("W05","A handler's error stops decoding and is returned unchanged",
 "If the handler returns a non-zero code at its n-th call, for any message and any n (also inside packed fields and nested messages decoded from the handler), the decoder makes no further handler call and returns exactly that code. If no handler call fails, the result does not depend on the handler.",
 ["inputs","fault_sequences"],"every message, every call index, every non-zero code",
 "It must hold for each position at which a handler may refuse, including inside a packed record, which a test would need to enumerate.",
 [D],[("error checks around handler()",D)],observe="handler call count, pb_decoder_decode return code")
p("W06","The validator accepts exactly decodable messages with all required fields",
 "For every schema and every byte string, validation succeeds if and only if the bytes and all known submessages in them, recursively, are well-formed and every message instance contains each of its required fields at least once. Missing required fields are reported as absent, malformed bytes as the respective error; order, repetition, unknown fields and extension fields do not matter.",
 ["inputs"],"every schema (required fields at any nesting depth) and every byte string",
 "Tests check a few schemas; the counting of present fields and the recursion depend on schema size, order and repetition.",
 [VA,D],[("check()/handler() tag bookkeeping",VA)],observe="pb_validator_check return code")
p("D01","Descriptor lookups find exactly the declared fields and enum values",
 "For every message, enum and oneof descriptor, looking up a field by number or name, or an enum value by number or name, returns the declared entry if it exists and nothing otherwise, whatever the gaps between numbers. Iterating a descriptor forwards or backwards visits each entry exactly once, in order, and stops at the end.",
 ["inputs"],"every descriptor (any ascending numbers with gaps, any size including one, negative enum numbers) and every queried number or name",
 "The search exploits ascending numbers and array positions, so correctness depends on the shape of the descriptor, of which tests use only one or two.",
 [DE,UD,DI],[("pb_descriptor_field_by_tag",DE),("pb_enum_descriptor_value_by_number",DE),("pb_descriptor_field_by_name, pb_enum_descriptor_value_by_name",UD),("pb_*_iter_*",DI)],
 observe="returned descriptor entries, iterator results")
p("D02","Registered extensions become part of the extended descriptor",
 "After any sequence of extension registrations on a descriptor, its own fields and the fields of every registered extension are found by number and by name, fields of unregistered extensions are not, and registering one twice changes nothing. Decoding, encoding and reading or writing messages treats extension fields like declared ones.",
 ["histories","inputs"],"every sequence of registrations (with duplicates) and every lookup in between",
 "The chain is mutated by registration order and repetition; a test covers one chain.",
 [DE,UD],[("pb_descriptor_extend chain",DE),("recursive lookup through extension",DE)],observe="lookups, decoder handler calls, message get/put")
p("B01","Buffers own a private copy, or alias exactly the given memory",
 "A buffer or journal created by copying is unaffected by later changes to the source memory and never changes the source, while a zero-copy one shows and writes exactly the given memory. Content and size always equal what the history of writes, growths and clears defines, an out-of-range request is refused leaving the content unchanged, and an invalid or destroyed buffer refuses every operation.",
 ["histories"],"every sequence of create, write, clear, grow and destroy with any offsets and sizes",
 "The result is a function of the whole history of overlapping writes and resizes, which tests sample with a few fixed offsets.",
 [B,MB,J],[("pb_buffer_create*/grow/destroy",B),("pb_buffer_write, pb_buffer_clear",MB),("pb_journal_write, pb_journal_clear",J)],observe="pb_buffer_data/size, pb_journal data/size")
p("A01","The chunk allocator hands out disjoint blocks that keep their content",
 "For every sequence of allocate, resize and free requests, each live block obtained from a chunk allocator is at least as large as requested, overlaps no other live block, and keeps its content when it or any other block is resized or freed. Destroying the allocator releases everything still allocated, and a failed request leaves the existing blocks untouched.",
 ["histories","fault_sequences"],"every sequence of requests of any size and capacity, with any underlying allocation failing",
 "Corruption of the chunk list shows only after particular orders of resize and free; tests use a few blocks.",
 [CH],[("allocator_allocate/resize/free list handling",CH),("pb_chunk_allocator_destroy",CH)],observe="block addresses and contents, sanitizer reports")
p("A02","Allocation failure is reported and loses nothing",
 "Whichever single allocation or resize request fails during any operation, the operation reports an error (never success with missing data), nothing is leaked, freed twice or accessed out of bounds, and destroying the objects afterwards is safe. Buffers, journals, encoders given a single value, and writes to existing fields keep the exact content they had before the failed call, and later calls succeed once memory is available again.",
 ["fault_sequences"],"every operation history and every position of the failing allocation request",
 "A test would have to fail each allocation of each operation in each state; existing tests fail a fixed few.",
 [B,MB,J,E,PA,AL],[("pb_buffer_grow rollback",B),("push/pop of journal entries",J),("pb_buffer_write recoverability",MB),("encode_* error returns",E)],observe="return codes, buffer bytes, allocator accounting")
p("M01","Writing a value makes it readable and changes nothing else",
 "After a successful write of any value to any field of a message at any nesting depth, reading that field yields exactly the written value, and every other field, occurrence, packed value, submessage and unknown field of the whole message keeps its value and its relative order. Overwriting an existing non-repeated field replaces its value in place; writing a repeated field appends one value after the existing ones.",
 ["histories","inputs"],"every schema, message and sequence of writes, with values of any size",
 "The effect on the rest of the message depends on where in the byte sequence the field lies and on length changes of all enclosing prefixes.",
 [MS,FI,PA,J,MB],[("pb_message_put",MS),("pb_field_put",FI),("pb_part_write and adjust",PA)],observe="buffer bytes after each operation, pb_message_get")
p("M02","Every sequence of edits leaves a well-formed message",
 "After any sequence of successful edits (creating, writing, erasing and clearing fields, packed values, submessages and oneof members through any handle), the underlying buffer is a well-formed encoding in which the length prefix of every enclosing submessage and packed field equals the size of its content and is encoded in the fewest bytes. This includes prefixes that grow or shrink by a byte at several nesting levels at once.",
 ["histories"],"every edit history on every nesting structure, with content sizes crossing 127/128 and 16383/16384 bytes",
 "Prefix adjustment cascades through nesting levels; the interesting sizes and nesting combinations are far more than tests contain.",
 [PA,J],[("adjust_prefix / adjust_recursive",PA),("init",PA)],observe="buffer bytes after each operation; decoder and validator verdict on them")
p("M03","Erasing removes every occurrence of the field and nothing else",
 "Erasing a field of a message removes all its occurrences (repeated values, packed records, merged duplicates, submessages), after which the field is reported as absent, and leaves all other bytes of the message unchanged apart from enclosing length prefixes. Erasing an absent field succeeds without changing anything, and erasing a member of a oneof clears all members of that oneof.",
 ["histories","inputs"],"every message (any number and position of occurrences) and every erase history",
 "Removal iterates while the buffer shrinks beneath it; the number, position and packing of occurrences matter.",
 [MS,CU,PA,ON],[("pb_message_erase",MS),("pb_cursor_erase",CU),("pb_part_clear",PA),("pb_oneof_clear",ON)],observe="buffer bytes, pb_message_has")
p("M04","Reading returns the last occurrence, the default, or absent",
 "Reading a non-repeated field of a message returns the value of its last occurrence on the wire; if there is none it returns the declared default, or reports absence if no default is declared. Testing for presence is true exactly if an occurrence exists, and matching is true exactly if an occurrence (for repeated fields: any value) equals the given value in full.",
 ["inputs"],"every message bytes for every schema (fields duplicated, interleaved, unknown fields in between), every queried field and value",
 "Which occurrence is visible depends on order and duplication of fields, which has to hold for all wire orders.",
 [MS,CU,FI],[("pb_message_get / has / match",MS),("pb_cursor_create last-occurrence rule",CU),("pb_field_match",FI)],observe="return values of pb_message_get/has/match")
p("M05","At most one member of a oneof is visible, the one set last",
 "In every message the active member of a oneof is the member field that occurs last on the wire: only that member is present and readable, and the oneof's case reports its number, or zero if no member occurs. Writing or creating a member makes it the active one and leaves all fields outside the oneof unchanged, and clearing the oneof removes all its members only.",
 ["histories","inputs"],"every message with any interleaving of oneof members and other fields, every sequence of oneof edits",
 "Depends on the order of members relative to each other and to unrelated fields; tests have members adjacent.",
 [CU,PA,ON,MS],[("pb_cursor_create oneof check",CU),("pb_part_create oneof erasure",PA),("pb_oneof_case, pb_oneof_clear",ON)],observe="pb_oneof_case, pb_message_has/get, buffer bytes")
p("M06","Cursors visit every value of a field exactly once in wire order",
 "A cursor over a repeated field visits each of its values exactly once in wire order with its position counting from zero, whether the values are packed, unpacked or mixed and whatever other or unknown fields lie between, and then reports the end of the message. Rewinding restarts the visit, and seeking stops at the next value equal to the one given, or at the end.",
 ["inputs"],"every message for every schema, every packing mixture and interleaving",
 "The number of packed and unpacked runs and what lies in between is unbounded.",
 [CU],[("next / next_packed",CU),("pb_cursor_rewind, pb_cursor_seek",CU)],observe="pb_cursor_next/get/pos/tag/error results")
p("M07","Editing at a cursor affects only the current value, iteration continues",
 "Writing through a cursor replaces exactly the current value and erasing through it removes exactly the current value (and an enclosing packed record only when it becomes empty). Afterwards the cursor continues with the element that followed, so a traversal that writes or erases any subset of values visits every original value exactly once.",
 ["histories"],"every message, every subset of visited values written or erased, with values of the same or a different size",
 "The cursor's position must be corrected for every size change made at it; tests erase or write a few fixed positions.",
 [CU,PA,J],[("pb_cursor_put, pb_cursor_erase, pb_cursor_align",CU),("pb_journal_align",J)],observe="visited values, buffer bytes")
p("M08","Handles keep referring to the same element across all other edits",
 "A message, field or cursor handle obtained once keeps denoting the same element of the message no matter which and how many edits are made elsewhere through other handles, before, after or inside the element, and in whatever order the handles are used again. Reading or writing through it then acts on that element only.",
 ["histories"],"every interleaving of edits through any number of handles, with handles left unused for any number of edits",
 "Each handle re-synchronises lazily against all edits it missed; the number of interleavings of several handles is exponential.",
 [J,PA,CU],[("pb_journal_align cases",J),("pb_part_align, pb_cursor_align",PA),("diff bookkeeping in init/adjust_prefix",PA)],observe="reads through every handle after every operation")
p("M09","Handles to removed elements are refused",
 "Once the element a message, field or cursor position denotes, or any element enclosing it, has been erased or cleared through any handle, every later operation on that handle reports that it is invalid and changes nothing. The handle never becomes attached to another element, even if a field with the same number is created again.",
 ["histories"],"every history in which an element is removed through another handle, its parent or a cursor, followed by any edits",
 "Invalidation is inferred from recorded offsets; whether a removal covers a handle depends on exact positions and sizes.",
 [J,PA,CU],[("pb_journal_align clear cases",J),("pb_part_invalidate",PA)],observe="return codes through stale handles, buffer bytes")
p("M10","Nested access equals step-by-step access",
 "Reading, writing, testing, matching and erasing through a path of field numbers has the same result as resolving each message on the path one after the other. Reading, testing, matching or erasing along a path with a missing message creates nothing, while writing creates each missing message on the path exactly once and reuses the existing ones.",
 ["histories","inputs"],"every schema, message and path of any length, with any prefix of the path present",
 "Combines path length, presence of each prefix and duplicate submessages.",
 [NE,MS,FI,CU],[("resolve()",NE),("pb_message_create_nested, pb_field_create_nested",MS)],observe="return codes, values, buffer bytes")
p("M11","Reading operations never modify the message",
 "No sequence of read-only operations (presence tests, reads, matches, cursor creation, iteration, rewinding and seeking, oneof case queries, nested reads, handle creation from a cursor) changes a single byte of the message or affects what other handles see, on any message, well-formed or malformed. Repeating a read gives the same answer.",
 ["histories","inputs"],"every message and every sequence of read-only operations, including on absent fields and paths",
 "Purity is a universally quantified negative; tests compare results, not that nothing else changed.",
 [MS,CU,NE,ON,FI],[("pb_message_get via cursor instead of part creation",MS),("resolve() via cursors",NE)],observe="buffer bytes before and after")
p("M12","Zero-copy messages are edited in place or refused",
 "On a zero-copy message every read behaves as on a copied one, a write that does not change the encoded size is performed in place in the caller's memory, and every operation that would change the size is refused with an error. A refused operation leaves each byte of the caller's memory unchanged, and no other memory is ever written.",
 ["histories","inputs"],"every message, every edit history on a zero-copy journal",
 "Which edits preserve the size depends on value, type, position and packing.",
 [J,MB,B,PA],[("allocator_zero_copy checks in push / pb_buffer_write",J)],observe="return codes, caller memory")
p("M13","New fields are inserted in field order, unknown data is preserved",
 "A field created in a message whose known fields are in ascending order is placed after all fields with a smaller or equal number and before all fields with a larger one, so the order is kept. Unknown fields, and fields of nested messages that no operation named, are preserved byte for byte through every edit history.",
 ["histories","inputs"],"every message including unknown fields of every wire type anywhere, every history of creations and removals",
 "The insertion point depends on every field already present and on unknown data between them.",
 [PA],[("insertion vector search in pb_part_create",PA)],observe="buffer bytes")
p("M14","Copying a submessage transfers its exact content",
 "Writing a submessage taken from another message (whole message or any submessage of it) makes the target's submessage content byte-for-byte equal to the source content at that moment, replaces the target's previous content if the field is not repeated and appends a new element if it is. The source is unchanged and later changes to either do not affect the other; an invalid source is refused.",
 ["histories","inputs"],"every pair of messages, every source position, any size including empty",
 "Quantifies over source and target structure and over prefix growth caused by the copied size.",
 [MS,CU,PA],[("pb_message_put submessage branch",MS),("pb_cursor_put submessage branch",CU)],observe="buffer bytes of both messages")
p("M15","Creating a field or submessage yields exactly one usable element",
 "Creating a handle for an absent field inserts exactly one occurrence holding its declared default, or zero (string and bytes fields without default start empty), and for an absent submessage an empty one. Creating a handle for a present non-repeated field or submessage denotes its last occurrence and changes nothing, and for a repeated one appends a new element after the existing ones.",
 ["histories","inputs"],"every schema and message, every sequence of creations",
 "Depends on which occurrences exist already, on packing and on the declared default of each type.",
 [FI,MS,PA],[("pb_field_create default handling",FI),("pb_message_create_within",MS),("pb_part_create cases",PA)],observe="buffer bytes, value read through the new handle")
p("M16","Malformed messages make operations fail, never crash or corrupt",
 "On a message whose bytes are malformed at any nesting level, reads, presence tests, iteration and handle creation terminate, report an error or absence or a value lying within the message, and never touch memory outside it. Edits either report an error or leave all bytes outside the edited element and the enclosing prefixes unchanged; an edit made directly in a message that contains a malformed record of its own reports an error, a value reported as written is in the message afterwards, and an occurrence reported as erased is not.",
 ["inputs"],"every byte string as message content, every operation on it",
 "The space of malformed inputs is unbounded; the failure is typically a crash only for particular bytes.",
 [CU,PA,S,V],[("error exits of next/next_packed",CU),("adjust_recursive error exits",PA)],observe="return codes, sanitizer reports, bytes")
p("G01","Generated descriptors describe exactly the given schema",
 "For every schema of messages, enums, oneofs, maps and extensions, with imports, whose symbols stay distinct when joined with underscores in lower case, the compiler plugin succeeds and the generated code compiles. Its descriptors list, for each message, exactly the declared fields in ascending order with number, name, type, label, default, packed flag, referenced message or enum and oneof membership, and for each enum exactly its values. Members of oneofs have no default. Extensions are registered to the message they extend, and the generated accessors, encoders and constants operate on the field their name denotes. Groups and services are not supported.",
 ["inputs"],"every schema definition (any combination of types, labels, defaults, oneofs, extensions, nesting)",
 "The generator is a program over all schemas; tests use one generated schema checked into the tree.",
 ["src/generator/field.cc","src/generator/message.cc","src/generator/enum.cc","src/generator/oneof.cc","src/generator/extension.cc","src/generator/file.cc"],
 [("FieldGenerator descriptor output","src/generator/field.cc"),("OneofGenerator","src/generator/oneof.cc"),("ExtensionGenerator","src/generator/extension.cc")],observe="descriptor tables of compiled generated code")
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
