#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "A class written and read back is the same class",
  "For every class value the library can express, writing it and reading the bytes back yields a class with the same version, flags, names, supertypes, fields, methods, attributes (same order), constants, annotations and code (up to renaming of labels). Nothing is lost, duplicated, reordered or altered on the way. (Exempt by design: a conditional branch too long for its encoding becomes the equivalent negated branch around a wide goto, the class's bootstrap table moves to the end, stack maps are not kept; dynamic constants have field types, dynamic call sites method types, and nesting is at most 255 deep.)",
  ["inputs"], "all class values over the bounded grammar (every attribute kind in every container, every shape of its content, every pair of attributes)",
  "The only whole-class round trip in the suite needs jars that are not in the tree; one hello-world class is written and never read back.",
  ["src/clazz.rs", "src/attr.rs", "src/member.rs", "src/module.rs", "src/annotation/", "coffer_macros/src/derive.rs", "src/rw.rs", "src/helper.rs"],
  [("derived ConstantPoolReadWrite/AttributeEnum readers and writers are mirror images", "coffer_macros/src/derive.rs"), ("Class::read_from / Class::write_to", "src/clazz.rs")],
  ["Class::write_to output", "Class::read_from result"])
p("C02", "Written class files are well-formed and say what the class value says",
  "Every class file the writer produces parses under an independent reading of the JVM class-file format: every index refers to an existing constant of the required kind, every length and count is exact, nothing is left over. The content found there is exactly the content of the class value that was written.",
  ["inputs"], "all class values over the bounded grammar",
  "A round trip through the library's own reader cannot see a mistake made symmetrically by reader and writer; the suite has no independent parser and compares bytes for a single method body.",
  ["src/clazz.rs", "src/cp.rs", "src/rw.rs", "src/attr.rs", "src/member.rs", "src/module.rs", "coffer_macros/src/derive.rs"],
  [("constant pool writer", "src/cp.rs"), ("attribute framing generated by the derive macro", "coffer_macros/src/derive.rs")],
  ["Class::write_to output"])
p("C03", "Reading a valid class file yields exactly its content",
  "For every valid class file, however its constant pool is ordered, padded with unused or duplicate entries, or its instructions encoded, reading succeeds and the resulting class value states exactly what the file states. Two files that differ only in such encoding choices read as the same class.",
  ["inputs"], "all class files the independent encoder produces from the bounded grammar, times all encoding choices",
  "The suite reads one hand-made method body; the encoding choices other compilers make are never varied.",
  ["src/clazz.rs", "src/cp.rs", "src/rw.rs", "src/code.rs", "src/code/convert.rs"],
  [("MapCp lookup by index with two-slot constants", "src/cp.rs"), ("read_* accessors", "src/rw.rs")],
  ["Class::read_from result"])
p("C04", "Reading corrupted or truncated input never crashes",
  "Reading any byte string as a class terminates with either a class or an error: it never panics, aborts, loops or allocates memory out of proportion to the input, and any proper prefix of a class file is reported as an error. A class that was accepted can be handed to the writer without a panic, and what the writer accepts reads back as the same class.",
  ["inputs"], "all truncations, all single-byte substitutions and all 16/32-bit field boundary substitutions of a set of class files that together use every structure",
  "The suite feeds only valid input.",
  ["src/clazz.rs", "src/code.rs", "src/insn.rs", "src/cp.rs", "coffer_macros/src/derive.rs", "src/ty.rs", "src/signature.rs"],
  [("checked reads and Result propagation", "src/rw.rs"), ("attribute inner reader bounded by its length", "coffer_macros/src/derive.rs")],
  ["Class::read_from result, panics, time, allocation", "Class::write_to result"])
p("C05", "I/O faults surface as errors and chunking is invisible",
  "Whatever way the underlying reader or writer splits, interrupts or delays the transfer, the class read and the bytes written are the same. When the reader or writer fails at any point, the operation returns that failure as an error without panicking, and the bytes already written are a prefix of the complete output. A successful read consumes exactly the bytes of the class and no more.",
  ["fault_sequences"], "every fault position (and every pair of short-transfer positions) over the byte stream of representative classes",
  "The suite uses in-memory slices that never fail and always transfer everything.",
  ["src/rw.rs", "src/clazz.rs", "src/code.rs", "src/helper.rs", "coffer_macros/src/derive.rs", "src/error.rs"],
  [("read_exact/write_all everywhere with ? propagation", "src/rw.rs"), ("Error::IO keeps the source", "src/error.rs")],
  ["ReadWrite::read_from/write_to over a fault-injecting reader/writer"])
p("C06", "Modified UTF-8 encoding and decoding are exact inverses",
  "Every string (any sequence of UTF-16 code units, lone surrogates included) encodes to the Modified UTF-8 the JVM specification prescribes and decodes back to the same string. Decoding accepts every valid Modified UTF-8 sequence with its specified meaning, and reports truncated, overlong, stray-continuation and otherwise malformed sequences as errors, never panicking (raw zero bytes and four-byte UTF-8 forms may be rejected or taken as UTF-8).",
  ["inputs"], "all code points; all strings up to a length bound over an alphabet of boundary code units; all byte strings up to a length bound over an alphabet of boundary bytes",
  "Seven fixed strings are tested.",
  ["src/mod_utf8.rs", "src/rw.rs", "wtf8/src/lib.rs"],
  [("modified_utf8_to_string", "src/mod_utf8.rs"), ("string_to_modified_utf8", "src/mod_utf8.rs")],
  ["mod_utf8 functions", "ReadWrite for strings"])
p("C07", "WTF-8 validation accepts exactly the well-formed sequences",
  "Safe construction of a WTF-8 string from bytes succeeds exactly when the bytes are well-formed (generalised UTF-8 without encoded surrogate pairs). On failure the reported offset is the length of the longest valid prefix that ends at a code point boundary; the input is reported as incomplete exactly when its remaining bytes begin a code point that further bytes could complete, and otherwise the reported error length covers bytes of the input only, never the first byte of a following code point. It never reads out of bounds or panics.",
  ["inputs"], "all byte strings up to a length bound over an alphabet containing every boundary byte class",
  "A few fixed byte strings are tested; the crate's unsafe code relies on this check for every input.",
  ["wtf8/src/lib.rs"], [("validate_wtf8", "wtf8/src/lib.rs")],
  ["Wtf8Str::from_bytes, Wtf8String::from_bytes, validate_wtf8"])
p("C08", "WTF-8 string operations stay well-formed and behave like UTF-16 text",
  "After any sequence of safe operations (push, append, extend, truncate, slice, case change, conversion to and from UTF-16, code points, boxes and plain strings) a WTF-8 string is well-formed and equals the potentially ill-formed UTF-16 text obtained by the same operations, surrogate halves that meet being joined. Equality, ordering (by code point), hashing, length, lossless and lossy conversions agree with that text, and invalid positions panic instead of splitting a code point.",
  ["histories"], "all operation sequences up to a depth over a boundary alphabet, deduplicated by content",
  "Unit tests call each operation on a handful of strings, not sequences of operations.",
  ["wtf8/src/lib.rs", "wtf8/src/std_internal.rs"],
  [("surrogate joining in push/push_wtf8", "wtf8/src/lib.rs"), ("code point boundary checks", "wtf8/src/lib.rs")],
  ["public API of Wtf8String/Wtf8Str"], state=[dict(name="bytes", meaning="WTF-8 content of the string", where="wtf8/src/lib.rs")])
p("C09", "Constant pool insertion histories give stable, correct indices",
  "For every sequence of insertions, the index returned for a value refers, in the pool finally written, to that value; equal values share one index and different values (including -0.0/0.0 and NaNs with different bits, and equal text used in different roles) never do. Long and double constants occupy two slots and no index points into the second one; a pool that would exceed the format's size limit is reported as an error instead of being written.",
  ["histories"], "all insertion sequences up to a depth over an alphabet of colliding constants; the size limit at its boundary",
  "No test inserts into the library's own pool and inspects it.",
  ["src/cp.rs", "src/rw.rs", "src/total_floats.rs"],
  [("VecCp::insert_raw with a dedup cache", "src/cp.rs"), ("RawConstantEntry::size", "src/cp.rs"), ("MapCp::read_from", "src/cp.rs")],
  ["VecCp insert_* results, written pool, MapCp/ConstantPoolReader accessors"],
  state=[dict(name="VecCp.len", meaning="next free index", where="src/cp.rs"), dict(name="VecCp.cache", meaning="entry to index", where="src/cp.rs")])
p("C10", "Dynamic constants and call sites keep their bootstrap methods",
  "Every dynamic constant or call site in a class that is written refers, in the file and after reading it back, to its own bootstrap method with its own arguments, including when bootstrap arguments are themselves dynamic, when methods are shared, and whether or not the class lists a bootstrap table. Reading a file that uses a dynamic entry referring to a missing bootstrap method, or to itself through its own arguments, fails with an error, and rewriting a class repeatedly does not keep growing its bootstrap table.",
  ["inputs", "histories"], "all small graphs of dynamic values over a small set of bootstrap methods (with sharing and nesting), in every position that can hold one, with and without a table; repeated rewrites",
  "No test contains a dynamic constant or call site.",
  ["src/clazz.rs", "src/dynamic.rs", "src/cp.rs", "src/rw.rs", "src/code/convert.rs"],
  [("insert_bsm / final flush of the table", "src/clazz.rs"), ("resolve_later / bootstrap_methods", "src/cp.rs")],
  ["Class::write_to output", "Class::read_from result"],
  state=[dict(name="VecCp.bsm", meaning="bootstrap methods collected while writing", where="src/cp.rs"), dict(name="MapCp.refs", meaning="unresolved bootstrap references", where="src/cp.rs")])
p("C11", "Descriptors parse and print exactly",
  "A field or method descriptor parses exactly when it is well-formed, its parse has the structure the descriptor denotes, and printing it gives the same text back, lone surrogates in class names included. Malformed descriptors (truncated, trailing text, void in a wrong place, nested method types, too many dimensions) are errors, never panics. (Class names that are not legal JVM names, such as empty ones, may be accepted or rejected.)",
  ["inputs"], "all strings up to a length bound over the descriptor alphabet; all descriptor trees up to a depth; dimension limits",
  "Descriptors are exercised by two fixed examples.",
  ["src/ty.rs", "src/rw.rs"], [("parse_type", "src/ty.rs"), ("write_type / Display", "src/ty.rs")],
  ["parse_type, write_type, Display, ConstantPoolReadWrite for Type"])
p("C12", "Generic signatures parse and print exactly",
  "Every well-formed class, method or field signature parses into the structure the JVM grammar assigns it and prints back to the same text; every signature value prints to text that parses back to it. Malformed text, or text nested more than 255 deep, is reported as an error and never panics.",
  ["inputs"], "all strings up to a length bound over the signature alphabet (checked against an independent grammar parser); all signature trees up to a depth",
  "Two fixed signatures are tested.",
  ["src/signature.rs"], [("hand-written recursive descent parser", "src/signature.rs"), ("Display impls", "src/signature.rs")],
  ["FromStr/Display of the signature types"])
p("C13", "Every instruction is encoded and decoded with its exact meaning",
  "Every instruction with every operand is written as bytecode that the JVM specification decodes to that same operation and operands, using forms that are valid for the operand range, and every valid bytecode form of it is read as that instruction. Undefined opcodes and operands that refer to no suitable constant are errors. The opcode constants the library publishes are the specification's.",
  ["inputs"], "every instruction variant times all boundary operands (all 256 / 65536 values where feasible); every opcode, with and without wide, times boundary operand bytes",
  "Tests cover one method body and one switch; most opcodes are never encoded or decoded.",
  ["src/code/convert.rs", "src/code/structure.rs", "src/insn.rs", "src/constants/insn.rs"],
  [("convert_direct_instruction", "src/code/convert.rs"), ("write_insn", "src/code/convert.rs")],
  ["Code::write_to output under an independent bytecode decoder", "Code::read_from result"])
p("C14", "Branches and switches reach their labels in every layout",
  "In every method body, each branch, subroutine call and switch arm written leads to exactly the instruction its label marks, with correct padding and instruction boundaries, whatever the distances (including those that need wide branches, whose condition must keep its meaning). A body that references an unplaced label or exceeds the method size limit is an error, not a corrupt file.",
  ["programs"], "all method bodies up to a number of branching instructions, labels and filler sizes, with filler chosen around every offset threshold (alignment, +-32768, 65535)",
  "Only one short tableswitch is tested; no test has a body near an offset limit.",
  ["src/code.rs", "src/code/convert.rs", "src/code/structure.rs", "src/insn.rs"],
  [("two-pass layout of jump instructions", "src/code.rs"), ("JumpCondition negation", "src/code/structure.rs")],
  ["Code::write_to output under an independent bytecode decoder", "Code::read_from result"])
p("C15", "Handlers and debug tables stay attached to their instructions",
  "Exception handlers, line numbers, local variable entries and code type annotations written for a method designate exactly the instructions their labels or positions mark, and reading a method attaches each of them to the instructions its offsets denote. Tables with impossible positions (unknown labels, variable ranges that end before they start, offsets that are not instructions) are errors, never silent corruption or panics.",
  ["programs"], "all method bodies up to a size with all placements of handler ranges, line markers, variable ranges and annotation targets, reading and writing",
  "No test writes or reads any of these tables.",
  ["src/code.rs", "src/code/structure.rs", "src/annotation/type_annotation.rs"],
  [("label placement on read", "src/code.rs"), ("label offsets on write", "src/code.rs")],
  ["Code::write_to output under an independent decoder", "Code::read_from result"])
p("C16", "Rewriting is deterministic and reaches a fixed point",
  "Writing the same class always produces the same bytes, also from a class read again from the same file. Reading and writing a file the library wrote reproduces it byte for byte.",
  ["histories"], "all classes of the bounded grammar, repeated read/write cycles, repeated reads in one process (fresh hash seeds)",
  "No test writes the same class twice.",
  ["src/clazz.rs", "src/code.rs", "src/annotation/mod.rs", "src/cp.rs"],
  [("ordered collections on the write path", "src/code.rs, src/annotation/mod.rs")],
  ["Class::write_to output bytes"])
p("C17", "Capacity limits are errors, never silent truncation",
  "When a count or length of a class value does not fit the field the format has for it (strings, member and attribute lists, tables, annotation elements, bootstrap arguments, code size, constant pool size), writing returns an error. At and below the limit writing succeeds and reads back unchanged.",
  ["inputs"], "every counted or sized field at limit-1, limit, limit+1 and twice the limit",
  "No test comes near any limit.",
  ["src/clazz.rs", "src/code.rs", "src/rw.rs", "src/annotation/mod.rs", "src/dynamic.rs", "src/cp.rs", "src/helper.rs"],
  [("checked length conversion", "src/helper.rs")],
  ["Class::write_to / ReadWrite::write_to results"])
p("C18", "Float constants compare, hash and travel by their exact bits",
  "Two float wrapper values are equal exactly when their bits are equal, ordering is a total order consistent with that equality and with numeric order, and equal values hash alike. Any bit pattern, including NaN payloads and signed zeros, survives constants, instructions and annotation values unchanged.",
  ["inputs"], "all pairs and triples over a set of boundary bit patterns; each pattern through every position that can hold a float",
  "No test touches these types.",
  ["src/total_floats.rs", "src/rw.rs", "src/code/convert.rs", "src/cp.rs"],
  [("total_cmp based Eq/Ord, to_bits based Hash", "src/total_floats.rs")],
  ["TotalF32/TotalF64 traits; class round trip"])
p("C19", "Stack map frames are encoded and decoded exactly",
  "Every stack map frame (append frames having one to three locals) is written in a form that the JVM specification decodes to the same frame kind, offset delta and verification types, and every valid encoded frame is read as the frame it denotes. Reserved frame tags, undefined verification tags and frames that cannot be expressed are errors.",
  ["inputs"], "every frame tag 0..255, every offset delta class boundary, every verification type sequence up to a length",
  "No test reads or writes a frame.",
  ["src/code.rs"], [("RawFrame and VerificationType read/write", "src/code.rs")],
  ["ConstantPoolReadWrite for RawFrame / VerificationType"])
p("C20", "Attributes are framed exactly and unknown ones kept verbatim",
  "An attribute the library does not know is kept with its name, its bytes and its place among the others, and written back verbatim, in classes, fields, methods and code alike. A known attribute whose declared length does not match its content is an error, and reading one attribute never consumes bytes of another.",
  ["inputs"], "every known attribute kind in every container with every declared length from 0 to its true length plus a margin; every sequence of up to three attributes, known and unknown",
  "No test reads an attribute with a wrong length or keeps an unknown one.",
  ["coffer_macros/src/derive.rs", "src/attr.rs", "src/member.rs", "src/code/structure.rs"],
  [("generated attribute reader with bounded inner reader and leftover check", "coffer_macros/src/derive.rs")],
  ["Class::read_from result", "Class::write_to output"])
p("C21", "Annotations and type annotations round-trip in every shape",
  "Every annotation value (each element kind at its boundary values, arrays and nested annotations) and every type annotation target and path is written as the JVM specification prescribes and read back equal, wherever annotations may appear. Values outside the declared range of an element kind, undefined tags and nesting deeper than 255 are errors when read. The target type constants the library publishes are the specification's.",
  ["inputs"], "all annotation values up to a nesting depth over boundary leaves; all target kinds times boundary operands times type paths",
  "No test contains an annotation.",
  ["src/annotation/mod.rs", "src/annotation/type_annotation.rs", "src/member.rs", "src/attr.rs"],
  [("AnnotationValue read/write", "src/annotation/mod.rs"), ("target tags", "src/annotation/type_annotation.rs")],
  ["Class::write_to output", "Class::read_from result"])
p("C22", "Version numbers and access flags are preserved exactly",
  "Every supported class-file version and every defined access, module and parameter flag is read and written at the bit position the JVM specification assigns, in any combination, and independently of the others (bits no flag is defined for may be dropped). Unsupported versions and wrong magic numbers are errors.",
  ["inputs"], "all 65536 values of every flag field in every structure that has one; all 65536 major versions; boundary minors and magics",
  "One flag combination and one version are written by one test.",
  ["src/flags.rs", "src/version.rs", "src/clazz.rs"],
  [("bitflags definitions", "src/flags.rs"), ("version tag table", "src/version.rs")],
  ["Class::read_from / Class::write_to, ReadWrite of the flag types"])
p("C23", "Method handles are accepted exactly when their kind fits their member",
  "A method handle passes validation exactly when its kind and member satisfy the documented rules (field kinds need a field descriptor, call kinds a method descriptor, only the constructor kind may and must name a constructor, no call kind may name a static initialiser), and a handle read or written by itself through its ConstantPoolReadWrite implementation is validated the same way. All nine kinds survive writing and reading with their specified numbers, and other kind numbers are errors.",
  ["inputs"], "all kinds times all member shapes (names, descriptors, interface or not); all 256 kind bytes",
  "No test creates a method handle.",
  ["src/loadable.rs", "src/rw.rs"], [("MethodHandle::check", "src/loadable.rs"), ("MethodHandleKind tags", "src/loadable.rs")],
  ["MethodHandle::check, constant pool round trip"])
p("C24", "Parts of a class can be read and written on their own, through any constant pool",
  "A field, method, attribute, annotation, constant, member reference, method handle or bootstrap method written by itself, through any implementation of the constant pool traits (the library's or a user's, with or without sharing of entries, with any assignment of indices and anything already in the pool), is read back with the same content through a reader that has those entries, in any order and as often as wanted. Reading a part, a number or a whole class takes exactly the bytes that were written for it: it neither asks the stream for more nor leaves some behind, so values can follow each other in one stream.",
  ["inputs", "histories"], "every part of the bounded class grammar times pool implementations and index assignments times orders of reading, from streams that end with the part or continue behind it; all pairs of classes in one stream",
  "Tests read and write whole classes through the library's own pool only, from slices that end with the class.",
  ["src/rw.rs", "src/clazz.rs", "src/cp.rs", "src/helper.rs", "src/member.rs", "src/attr.rs", "src/code.rs", "coffer_macros/src/derive.rs"],
  [("ConstantPoolWriter / ConstantPoolReader provided methods", "src/rw.rs"), ("labelling wrappers around the pool", "src/code.rs"), ("Class::read_from", "src/clazz.rs")],
  ["ConstantPoolReadWrite and ReadWrite of every part", "bytes taken from the stream"])
p("C25", "Equality, hashing and cloning of values follow their content",
  "Two values of one of the library's types (types, members, method handles, constants, dynamic values, bootstrap methods, pool entries, frames, annotations, signatures, attributes, instructions, code, fields, methods) are equal exactly when their content is the same, whether their strings are owned or borrowed and whether bootstrap methods are shared or not. Equal values hash alike, clones are equal to their originals, and members and attributes without code are equal to what was written after reading them back.",
  ["inputs"], "all ordered pairs over families in which every component of a value is varied on its own",
  "Tests compare a handful of equal values and next to no different ones.",
  ["src/dynamic.rs", "src/loadable.rs", "src/member.rs", "src/ty.rs", "src/cp.rs", "src/attr.rs", "src/annotation/mod.rs", "src/signature.rs", "src/code/structure.rs", "src/total_floats.rs", "wtf8/src/lib.rs"],
  [("PartialEq and Hash of Dynamic", "src/dynamic.rs"), ("derived comparisons", "src/member.rs")],
  ["==, != and Hash of the public types"])
p("C26", "Counted sequences and indexed strings are encoded with their exact width",
  "A sequence written with an 8-, 16- or 32-bit count is that count in big-endian order followed by the encodings of its elements, and is read back with the same elements, taking exactly its bytes; a sequence with more elements than its count can say is an error and never a shortened or wrapped count, also inside other sequences. A string written by index is the index of an entry of its own kind (class, string, module or package) that names its text; an optional one is index zero exactly when it is absent, and entries of another kind or that do not exist are errors. Input that ends early and writers that fail surface as errors.",
  ["inputs", "faults"], "all counts (including those around each limit) times element codecs; all shapes of nested sequences; all points at which input ends or a writer fails; all kinds of pool entry under all kinds of reference",
  "No test uses the helpers directly, and class files in tests have short tables.",
  ["src/helper.rs", "src/rw.rs", "coffer_macros/src/derive.rs"],
  [("VecLen and its aliases", "src/helper.rs"), ("StringCp", "src/helper.rs"), ("Normal and Identity", "src/helper.rs")],
  ["ReadWriteAs and ConstantPoolReadWriteAs of coffer::helper"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
