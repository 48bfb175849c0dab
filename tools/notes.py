"""Technique and level note per property for MANIFEST.json."""
_W = ("The library is built with AddressSanitizer from /repo's tree; every generated input or program is executed and each observable "
      "compared with the model's answer. Bounded by the number of generated cases (seeded) and the listed schemas; trusts the C driver and the schema translation.")
TECH = {
 "W01": ("TLA+ encoding of every scalar type (ScalarGen.tla); TLC enumerates boundary values, their records are replayed through encoder, decoder and message",
         "Enumerates every scalar type against the boundary values of each varint length plus seeded random values. " + _W),
 "W02": ("TLA+ encoder programs (EncGen.tla) checked with TLC for decode(encode)=calls, replayed into encoder and decoder", _W),
 "W03": ("TLA+ operational decoder (Dec.tla) against constructed well-formed messages (WireGen.tla) in TLC, replayed into the decoder", _W),
 "W04": ("TLA+ decoder/validator on constructed malformed inputs and on every short byte string (WireGen.tla, ByteGen.tla) in TLC, replayed under AddressSanitizer", 
         "Exhaustive for short byte strings over a chosen alphabet, seeded for cuts, flips and bad records. " + _W),
 "W05": ("TLA+ decoder with failing handlers (WireGen.tla) in TLC: failing run = prefix of the full run; replayed with a failing handler", _W),
 "W06": ("TLA+ validator (Dec.tla) against the constructed truth (bad or missing required) in TLC, replayed into pb_validator_check", _W),
 "D01": ("TLA+ sets of entries and iterator positions (DescGen.tla, IterGen.tla) enumerated by TLC, built as descriptors and queried",
         "Exhaustive over small field number sets, enum value sequences and iterator step sequences, seeded beyond. " + _W),
 "D02": ("TLA+ registration histories (RegGen.tla) enumerated by TLC and replayed; message, decoder and encoder behaviours over schemas with extensions",
         "Exhaustive over registration sequences of five extensions on two descriptors, seeded behaviours over schemas with extension fields. " + _W),
 "B01": ("TLA+ model of buffers and journals with their source memory (BufGen.tla); TLC enumerates and samples histories, replayed with every allocator",
         "Exhaustive for short histories over boundary offsets, seeded for long ones. " + _W),
 "A01": ("TLA+ model of blocks and their content (ChunkGen.tla); TLC enumerates and samples request histories, replayed into the chunk allocator",
         "Exhaustive for short histories, seeded for long ones, block contents stamped and compared after every request. " + _W),
 "A02": ("TLA+ behaviours of buffers, allocator, encoder and messages (BufGen, ChunkGen, EncGen, MsgGen) annotated with the failing request, replayed on a fault injecting allocator",
         "A failed request must be reported and leave the model's previous state, the repeated call must reach the next state, nothing may leak. "
         "Intermediate states of edits that take several allocations are not specified (see known findings). " + _W),
 "M16": ("Trace validation: operation programs on malformed messages constructed by WireGen/BadGen.tla run on the library; TLC checks every recorded step against BadTrace.tla",
         "The state after every step (bytes, and where every handle points) is recorded from the library under AddressSanitizer and must be explained by the "
         "specification's step relation. Seeded inputs and programs; bad records at any level, cuts and changed bytes."),
 "G01": ("TLA+ state machine of schema declarations (SchemaGen.tla) that maintains the sorted tables the plugin must generate; TLC generates schemas, the plugin's output is compiled and its descriptors and functions compared",
         "Seeded schemas over two files; the plugin and the library are built from /repo's tree, every generated descriptor is dumped and every accessor compared with the generic "
         "operation on the path the specification names. Bounded by the number of schemas (84 quick, 900 thorough), nesting depth 3 and the listed literals; trusts protoc, gcc and the C driver."),
}
