#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here as readable source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("P01", "Formatted text reads back as the same value",
  "Formatting a value to text under any formatting configuration and parsing that text yields an equal value: same structure, numbers, strings, bytes, field names, map entries and element order. Only the forms the notation cannot tell apart are identified with each other: unit, empty tuple and empty container; and an integral float with the integer of the same magnitude. This holds for every value whose names are made of ASCII letters, digits, '_' and '-' and start with a letter or '_'.",
  ["inputs", "configurations"], "all values x all 2^5 identity switches x every width limit (none, 0..65535)",
  "Existing round-trip tests sample a fixed struct type with at most one-element collections; layout is a function of the nesting shape, names, contents and width, so most layout paths are never read back.",
  ["src/fmt/", "src/parse/"], [("writers", "src/fmt/{cntr,seqs,maps,tuples,prims}.rs write"), ("layout solver", "src/fmt/solver.rs apply_config"), ("parser entry", "src/parse/mod.rs parse")])
p("P02", "Displayed identities survive text; hidden identities never appear",
  "With display of identities switched on for a kind of value, formatting and parsing back returns the identity of every value of that kind at every depth and in every layout. With it switched off, the values of that kind come back with no identity and the text is exactly the one the value without those identities would give (the identity of a unit value is always displayed). Identities are names made of ASCII letters, digits, '_' and '-'; those spelled exactly like a boolean are a known exception.",
  ["inputs", "configurations"], "all values x identity switches per kind (or per node) x width limits",
  "Tests display identities on a few fixed documents and compare values with an equality that ignores identities, so losing or inventing one is invisible to them.",
  ["src/fmt/", "src/parse/names.rs", "src/parse/cntr.rs"], [("identity writers", "src/fmt/mod.rs maybe_write_*_ident"), ("identity parsers", "src/parse/names.rs ident"), ("verbose identity", "src/fmt/cntr.rs write, src/parse/cntr.rs verbose")])
p("P03", "Manual layout choices never change what the text means",
  "After any history of accepted and refused per-node layout requests, identity toggles and configuration applications, the text a formatter writes parses back to the value it was built from. Nodes whose identity is shown come back with it, nodes whose identity is hidden come back without it.",
  ["histories", "inputs"], "all values x all sequences of inline/concise/verbose/identity/config operations on any node",
  "Unit tests apply one or two hand-picked requests to hand-made values; the number of layout combinations is exponential in the number of nodes.",
  ["src/fmt/formatter.rs", "src/fmt/", "src/parse/"], [("layout requests", "src/fmt/formatter.rs request_repr_alteration"), ("writers", "src/fmt/*.rs write")])
p("P04", "Layout requests obey the layout hierarchy",
  "A per-node layout request is accepted exactly when the node can take that layout and its parent is laid out at least as broadly, and refused with the matching error otherwise; a refused request changes nothing. An accepted request changes that node and narrows only those descendants that were broader. At every point of every history no node is laid out more broadly than its parent or than its kind allows (primitives and empty collections one line; tuples, map keys, and sequences or maps that are not fields of a container at most delimited multi-line).",
  ["histories", "inputs"], "all values x all sequences of layout operations",
  "The state after a request depends on the whole history of earlier requests over the tree; tests check single transitions on a couple of trees.",
  ["src/fmt/formatter.rs"], [("state machine", "src/fmt/formatter.rs request_repr_alteration, validate_requst_repr"), ("initial state", "src/fmt/formatter.rs Formatter::new")])
p("P05", "The width limit decides the layout as documented",
  "With no width limit the text is a single line (apart from line breaks inside strings); with limit 0 every value takes the broadest layout it can. With any other limit, a value that fits the limit on one line is written on one line, and whatever is laid out on one line by the configuration, starting at the column it is written at and measured in characters, does not run past the limit unless it cannot be broken up (inside a delimited multi-line field of an indented container the field name need not be counted); otherwise it is delimited over several lines if it fits the limit so, else indented where it can be.",
  ["inputs", "configurations"], "all values x every width limit x identity switches",
  "Tests pin a handful of documents at a handful of widths; the boundary between fitting and not fitting exists for every value and moves with every kind of content.",
  ["src/fmt/solver.rs"], [("width estimation", "src/fmt/solver.rs inline_widths, concise_widths"), ("choice", "src/fmt/solver.rs apply_config, calculate_offset, min_line_repr")])
p("P06", "Formatting is a pure function of the value and the layout",
  "Writing text only appends to the buffer it is given, and the appended text does not depend on what the buffer held. All ways of asking for the same layout (default string, display, the documented default configuration, a formatter with that configuration) give identical text, repeated calls give identical text, and borrowed, owned and cloned copies of a value give identical text, leaving the value unchanged. Applying a configuration again changes nothing.",
  ["inputs", "configurations", "histories"], "all values x configurations x buffer contents",
  "Tests only ever write into an empty buffer, through one entry point.",
  ["src/fmt/mod.rs", "src/fmt/formatter.rs"], [("entry points", "src/fmt/mod.rs as_str, as_str_with_config, Display"), ("append", "src/fmt/formatter.rs write_string")])
p("P07", "Any string and any byte array survives the text verbatim",
  "Every string (any Unicode content, any mix of quote, bracket, delimiter, newline and assignment characters) and every byte array is written in a form that parses back to exactly the same content, wherever it stands: on its own, as an element, a field, a map key or value, with or without identity, in any layout. Formatting a string never fails.",
  ["inputs", "configurations"], "all strings and byte arrays x positions x layouts",
  "Content decides the delimiter and the delimiter interacts with what surrounds the string; tests try about six strings in one position.",
  ["src/fmt/prims.rs", "src/parse/prims.rs", "src/parse/heuristics.rs"], [("delimiter choice", "src/fmt/prims.rs fmt_str"), ("string parser", "src/parse/prims.rs string, barr"), ("look-ahead", "src/parse/heuristics.rs")])
p("P08", "Parsing any text ends in a value or a located error",
  "Parsing never panics or crashes on any input text of bounded nesting. A failure carries at least one trace, and every trace names an existing line and the text of that line with a byte column within it (or just past its end), is consistent between the indexed, iterated and rendered forms, and rendering it never fails; empty input gives traces at line and column zero.",
  ["inputs"], "all strings: random, grammar-shaped, and mutations of valid documents, nested to a bounded depth",
  "Tests feed about a hundred well-formed documents and a dozen broken ones; hostile or accidental text is unbounded.",
  ["src/parse/"], [("parser entry", "src/parse/mod.rs parse"), ("error traces", "src/parse/err.rs Error::get, backtrace")])
p("P09", "Parsing effort stays proportionate to the input",
  "The work done to accept or reject a text grows no faster than a low-degree polynomial of its length, whatever its nesting, including deeply nested or unclosed keys, lists, containers and maps.",
  ["inputs"], "nesting patterns over all bracket kinds, key/value positions and layouts, closed and unclosed, at increasing depth",
  "Tests use shallow documents, where an exponential blow-up is invisible.",
  ["src/parse/map.rs", "src/parse/cntr.rs", "src/parse/mod.rs"], [("alternatives", "src/parse/map.rs kvp_kserd_to_kserd, src/parse/cntr.rs verbose_cntr_field")])
p("P10", "Every documented way of writing a value parses to that value",
  "Any mixture of the documented notations for a value parses to that value with its identities: one-line, delimited multi-line and indented (TOML-like) layouts, spaces or tabs for indentation, extra blank lines and inline spacing, any string delimiter (unless it already means something else right after a name), fields and map entries in any order, and identities before the value or in the header.",
  ["inputs"], "all values x all spellings produced by an independent writer of the notation",
  "Tests hold one spelling for each of a few values; the notation allows unboundedly many spellings per value.",
  ["src/parse/"], [("delimited notation", "src/parse/{list,map,cntr}.rs"), ("verbose notation", "src/parse/cntr.rs verbose"), ("whitespace", "src/parse/wsp.rs")])
p("P11", "Parsing consumes all of the text and invents nothing",
  "Text that is not a complete value is refused: leftover text after a value, a missing or mismatched closing delimiter, a truncated delimited value, an unterminated string, or a missing or stray separator in a comma separated list never yields a value. Whatever is accepted accounts for every string, byte array, number and field name written in the text, the last one counting where a field or key is given several times.",
  ["inputs"], "all valid delimited texts x truncations, deletions, swaps and appended text",
  "Tests contain a dozen broken inputs; silently dropping part of the input needs a specific break at a specific place.",
  ["src/parse/"], [("all consuming root", "src/parse/mod.rs kserd_root"), ("terminators", "src/parse/{list,map,cntr,prims}.rs")])
p("P12", "Whatever parses can be written and parsed again unchanged",
  "If a text is accepted and its names are ordinary names, then writing the parsed value under any configuration with all identities shown gives a text that is accepted again with the same value and identities. Formatting the parsed value never panics.",
  ["inputs", "configurations"], "all accepted texts (random documents, mutated documents) x configurations",
  "Tests never format what they parsed from arbitrary text.",
  ["src/parse/", "src/fmt/"], [("parser entry", "src/parse/mod.rs parse"), ("writers", "src/fmt/")])
p("P13", "Numbers compare by exact mathematical value, as a total order",
  "Comparison, equality and ordering between any two numbers, of any mix of unsigned, signed and floating representation, agree with their exact mathematical values, with all zeroes equal, all NaNs equal to each other and above everything else. Equality is symmetric and transitive, agrees with the ordering, equal numbers hash equally, and comparing against a native number gives the same answer as comparing against the number made from it.",
  ["inputs"], "all pairs and triples of 128-bit unsigned, 128-bit signed and 64-bit float numbers",
  "The interesting pairs sit at representation boundaries (2^53, 2^64, 2^127, 2^128, signed zero, NaN payloads); tests compare about forty pairs of small numbers.",
  ["src/ds/num.rs"], [("Eq/Ord", "src/ds/num.rs PartialEq, Ord, cmp_float_to_uint, cmp_float_to_int"), ("Hash", "src/ds/num.rs Hash")])
p("P14", "Number conversions are exact or refused",
  "Making a number from a native integer or 64-bit float keeps its value, and from a 32-bit float keeps its shortest decimal form, so that converting back gives the same float. Converting a number to an unsigned or signed integer succeeds exactly when the number is in range and within 1e-10 of an integer, and then gives that integer; conversion to float gives the nearest float. The integer and float accessors of values follow the same rule.",
  ["inputs"], "all numbers of all native types",
  "Range edges of 128-bit conversions from floats are never reached by uniformly drawn numbers in [0,1).",
  ["src/ds/num.rs"], [("conversions", "src/ds/num.rs as_u128, as_i128, as_f64, From")])
p("P15", "Number text round trips and only numbers are read as numbers",
  "Printing any number and reading the text back gives an equal number, of magnitude however large or small. Reading accepts any decimal integer (with digit separators) or decimal float, gives the value nearest to what is written, and refuses text that is not a number, including integers beyond the 128-bit range. A spelling outside the documented ones may be refused but is never misread.",
  ["inputs"], "all numbers; all decimal spellings; all non-number strings",
  "Tests draw integers uniformly and floats from [0,1), so large floats, exponents, separators and malformed text are not reached.",
  ["src/ds/num.rs", "src/parse/prims.rs"], [("read", "src/ds/num.rs FromStr"), ("print", "src/ds/num.rs Display")])
p("P16", "Value equality and ordering are consistent and ignore identity",
  "Equality of values is an equivalence that looks at the values only, never at identities at any depth: same kind, same contents, numbers by numeric value, with an empty tuple equal to an empty container. Ordering is a total order that says equal exactly when equality does, so values behave correctly as map keys.",
  ["inputs"], "all pairs and triples of values, built independently or as small edits of each other",
  "Laws quantify over triples; tests compare a few pairs of literals.",
  ["src/ds/val.rs", "src/ds/kserd.rs"], [("Eq/Ord", "src/ds/val.rs PartialEq, Ord; src/ds/kserd.rs PartialEq, Ord")])
p("P17", "Owning, borrowing and cloning never change a value",
  "Turning a value into an owned one, making a borrowed view of it or cloning it preserves every identity, field name, entry, element and content at every depth. The owned result borrows nothing, and a borrowed view owns no string, byte array, identity or field name; mutating a copy leaves the original unchanged. Owned and borrowed strings and byte arrays compare, order and hash alike, and like the native text or bytes they hold.",
  ["inputs", "histories"], "all values with any mix of owned and borrowed parts",
  "Tests convert one flat value and compare with an equality that ignores identities.",
  ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/kstr.rs", "src/ds/barr.rs"], [("conversions", "into_owned, mk_brw, Clone"), ("copy on write", "src/ds/kstr.rs, src/ds/barr.rs to_mut")])
p("P18", "Names are validated exactly as documented",
  "Creating a value with an identity succeeds exactly when the identity holds none of the documented forbidden characters, and creating a container succeeds exactly when every field name is non-empty, does not start with a digit and holds no forbidden character. What is created has exactly the given identity, names and values, later duplicates of a field or map key replacing earlier ones.",
  ["inputs"], "all strings as identity and field names; all field lists",
  "Tests try three or four names; the rule quantifies over every character in every position.",
  ["src/ds/kserd.rs", "src/ds/val.rs"], [("identity check", "src/ds/kserd.rs with_id"), ("field check", "src/ds/val.rs new_cntr")])
p("P19", "The navigator presents exactly the tree of the value",
  "For any value the navigator holds one node per nested value, in depth-first order with each map key directly before its value, and every node reports the right value, parent, position within its parent and key status. Children, keys, depth-first and breadth-first descendants and typed iteration give exactly the matching nodes in order, with correct lengths, and out of range lookups give nothing.",
  ["inputs"], "all values, all nodes of each, all navigation calls",
  "Tests navigate three fixed values; indices depend on the sizes of all earlier siblings and their subtrees.",
  ["src/nav/"], [("flattening", "src/nav/navigator.rs Navigator::new"), ("queries", "src/nav/node.rs, src/nav/value.rs")])
p("P20", "Typed access and mutation see exactly the stored value",
  "A typed accessor of a value or of a named field yields the stored content exactly when the value is of that kind (numbers convert under the integer rule, single character strings as char) and nothing otherwise, never something else. Writing through any mutable accessor changes exactly that value, as seen by all later accesses, whether the content was owned or borrowed.",
  ["histories", "inputs"], "all values x all accessors x sequences of mutations",
  "Tests call each accessor on one matching and one non-matching literal.",
  ["src/ds/val.rs"], [("accessors", "src/ds/val.rs unit..map_mut"), ("field access", "src/ds/val.rs Accessor get_*")])
p("P21", "Encoding and decoding Rust data loses nothing",
  "Encoding any serialisable Rust value and decoding the result to the same type gives back an equal value: all integer widths, floats, chars, strings, bytes, options, tuples, arrays, unit/newtype/tuple/struct types, all shapes of externally tagged enum variants, sequences, maps and sets (whose keys differ in value, not only in variant name), nested arbitrarily. The encoded form names structs and variants by their Rust names and keeps fields by name.",
  ["inputs", "programs"], "all values of a universe of types covering the serde data model",
  "Tests encode one value per type; the guarantee is over every value and every combination of nesting.",
  ["src/encode/encoder.rs", "src/encode/decoder.rs"], [("encode", "src/encode/encoder.rs Encoder"), ("decode", "src/encode/decoder.rs Decoder")])
p("P22", "Rust data survives storage as text",
  "Encoding Rust data, writing it as text with tuple and container identities shown under any width limit and any other switches, parsing the text and decoding it gives back an equal Rust value. Type, field and variant names are made of ASCII letters, digits, '_' and '-'.",
  ["inputs", "configurations"], "all values of a universe of types x width limits x other identity switches",
  "The existing pipeline test covers one struct with at most one-element collections.",
  ["src/encode/", "src/fmt/", "src/parse/"], [("pipeline", "src/encode/mod.rs enc, decode; src/fmt/mod.rs as_str_with_config; src/parse/mod.rs parse")])
p("P23", "Decoding to the wrong type is refused, never approximated",
  "Decoding any value to any type either gives the value the data denotes or an error, and never panics: an integer is given exactly when it is representable in the target type, a char only from a one character string, a unit only from an empty value, an enum only from a value bearing a known variant name with the matching shape, a struct only when its fields are present, and a tuple or array only from a list of its length.",
  ["inputs", "programs"], "all values x target types",
  "Tests decode a dozen mismatches; mismatched data is unbounded.",
  ["src/encode/decoder.rs"], [("decode", "src/encode/decoder.rs deserialize_*, VariantAccess")])
p("P24", "Decoding is self-describing and ownership-independent",
  "Decoding without knowing the type gives a faithful picture of the whole value, and decoding is unaffected by field order, by extra unknown fields, by whether the data is owned or borrowed, or by being a borrowed view; borrowed targets receive exactly the stored text and are refused only for owned data. Default, optional, flattened, untagged and internally tagged targets decode to what the data holds, within what serde can buffer for them.",
  ["inputs", "programs"], "all values x generic and attribute-driven targets",
  "Tests decode to concrete types only, from one ownership form.",
  ["src/encode/decoder.rs"], [("self-describing decode", "src/encode/decoder.rs deserialize_any"), ("borrowing", "src/ds/kserd.rs mk_brw")])
p("P25", "Direct conversion of Rust values gives the documented structure",
  "Converting native values directly (numbers, text, tuples of 1 to 12, arrays of 1 to 32, vectors, boxes, options, results, nested in any way) gives the documented kind, identity and contents in order, borrowing borrowed text. The result is equal to the encoded form of the same data wherever both are defined alike, and an error in a nested conversion is passed on.",
  ["inputs", "programs"], "all values of all convertible types",
  "Tests convert one literal per type; arity-specific code is generated per size.",
  ["src/to_kserd.rs"], [("conversions", "src/to_kserd.rs")])
p("P26", "Each value is written in the shape its layout says",
  "Whatever history of layout and identity requests led to them, the layouts decide the lines of the text: an inline value is on one line; a concise one puts every element, field or entry on a line of its own, four columns in from where the value starts, and its closing bracket back at that column; a verbose container writes its fields as lines, with a heading for a nested container and one heading per element or entry of a nested sequence or map, nested contents four columns further in. Identities appear exactly where they are asked for, separators only on single lines, and nothing else but blank lines is written.",
  ["inputs", "histories"], "all values x histories of layout requests, identity toggles and configurations",
  "Tests pin a few dozen literal texts; columns depend on every enclosing layout, name width and key.",
  ["src/fmt/"], [("writers", "src/fmt/{cntr,seqs,maps,tuples,prims}.rs write"), ("dispatch", "src/fmt/mod.rs write_node")])
p("P27", "Failures inside encoding and decoding are always reported",
  "If any part of Rust data refuses to be encoded, bears a type or variant name that is not a permitted identity, or gives a map value without a key, encoding the whole is refused with that part's reason, wherever in the data the part is. Likewise a refusal by any part of the target while decoding refuses the whole with the same message; without such a part nothing is refused.",
  ["inputs", "fault_sequences"], "all values of a universe of types x one fault at any part",
  "Tests raise a handful of errors at the top level; a swallowed error shows only for a fault at a specific nesting.",
  ["src/encode/"], [("encode", "src/encode/encoder.rs serialize_*"), ("decode", "src/encode/decoder.rs deserialize_*")])
p("P28", "Constructors give exactly the given content under the documented identity",
  "Making a value from native data gives exactly that data: unit without identity, booleans, numbers of every native type, strings and byte arrays under the identity the documentation names for their type, containers and maps without one. Borrowed text and bytes stay borrowed from where they were, owned ones are moved in, and any identity chosen instead is kept as it is.",
  ["inputs"], "all native numbers, strings, byte arrays, containers and maps x ways of making a value of them",
  "Tests make a few values; a wrong cast, identity or copy shows only for specific types and ranges.",
  ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/num.rs", "src/ds/kstr.rs", "src/ds/barr.rs"], [("values", "src/ds/kserd.rs Kserd::new_*, with_id"), ("contents", "src/ds/val.rs Value::new_*"), ("numbers", "src/ds/num.rs NumberType, From")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
