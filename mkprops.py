#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
G = "src/parser/base/grammar.rs"; B = "src/parser/base/mod.rs"; L = "src/parser/mod.rs"
D = "src/parser/base/directive.rs"; Y = "src/yaml.rs"; N = "src/node.rs"; DU = "src/dumper.rs"
IN = "src/indicator.rs"; DE = "src/serde/de.rs"; SE = "src/serde/ser.rs"; SN = "src/serde/ser_node.rs"

p("C01", "Parsing any text terminates without panicking",
  "For every input text, parsing (with or without keeping aliases) returns either the list of document nodes or a parse error: it never panics, never reads outside the text and never loops forever. The only excluded failure is running out of stack or memory on extremely deep nesting.",
  ["inputs"], "every input text, every prefix of it, both parsing modes",
  "Tests parse a dozen well-formed files; the hangs and panics live in malformed or truncated text that no sample contains.",
  [L, B, G, D, IN], [("Loader::parse and the sub-parsers", L), ("Parser cursor and loops", B), ("scalar grammar loops", G)],
  ["yaml_peg::parse", "yaml_peg::parse_cyclic", "parser::Loader::parse"],
  [("pos / eaten", "read cursor and checkpoint, checkpoint <= cursor <= length", B)])

p("C02", "Matching primitives consume exactly the longest match or nothing",
  "Each matching primitive of the public low-level parser (byte, byte set, byte sequence, counted or unbounded repetition, blanks, newline, indentation, boundary, comment, gap between lines, identifier, anchor name) succeeds exactly when the text at the cursor starts with its pattern, and then moves the cursor by exactly the matched (longest allowed) run. When it does not match, the cursor is back at the checkpoint (a newline leaves it where it was; a gap may consume blanks or a comment which end the text), and in no case does the cursor pass the end of the text, nor the checkpoint change.",
  ["inputs"], "every text, cursor, checkpoint, byte set and repetition option",
  "No unit test calls a primitive on its own; off-by-one runs and cursor restores depend on bytes around the match.",
  [B, G], [("take_while / sym / sym_set / sym_seq / ind", B), ("ws, nl, inv, bound, gap, comment, identifier, anchor", G)],
  ["parser::Parser methods", "Parser::pos", "Parser::eaten"])

p("C03", "Numbers are recognised exactly and read back exactly",
  "An unquoted scalar is an integer exactly when it is an optional minus sign and decimal digits, or 0o and octal digits, or 0x and hexadecimal digits; it is a float exactly when it is such decimal digits followed by a point and optional digits, or by e/E, an optional sign and digits; a boundary (end of text, blank, line break or flow punctuation) or a comment after a blank must follow, otherwise the text is a string. The recognised number denotes the written value: reading an integer gives that mathematical value or an error when it does not fit 64 bits, and a float keeps its written digits (up to a trailing .0).",
  ["inputs"], "every digit string in every position of a document",
  "Samples hold a few decimal numbers; digits 8/9 in octal, hexadecimal letters, range limits and end of text are never tried.",
  [G, Y, N], [("int / octal / hexadecimal / float / sci_float", G), ("to_i64 / to_f64", Y), ("as_int / as_number", N)],
  ["yaml_peg::parse", "Node::as_int", "Node::as_float", "Node::as_number"])

p("C04", "Node equality is an equivalence by value and hashing agrees with it",
  "Comparing two nodes never panics and is reflexive, symmetric and transitive; it ignores position and tag, compares numbers by value (NaN equal to itself), and sequences and maps element by element in order. Equal nodes always produce the same hash.",
  ["inputs"], "all pairs and triples of nodes, including number texts out of range or spelled differently",
  "Tests compare a few literal trees; the laws quantify over all pairs and the hash is only exercised through small maps.",
  [Y, N], [("PartialEq / Hash for Yaml", Y), ("PartialEq / Hash for Node", N)],
  ["Node ==", "Hash for Node", "HashSet / map keys"])

p("C05", "Node accessors return exactly the stored value or the node position",
  "Every typed accessor (null, bool, int, float, number, string, value text, sequence, map, alias target, lookup by key, lookup by index, lookup with default) succeeds exactly for the node kinds it documents and returns the stored content; otherwise it returns the position of the node it was called on and never panics. A lookup with default returns the default only when the key is missing, and fails when the node is not a map or the found value is refused.",
  ["inputs"], "every node kind and content with every accessor, key and index",
  "Each accessor has one doc example on the matching kind; mismatching kinds and positions other than zero are not sampled.",
  [N, Y], [("as_* methods, get, get_default, get_ind, as_anchor, tag, pos", N)],
  ["Node methods"])

p("C06", "Quoted scalars decode to exactly the text they denote",
  "A single-quoted scalar on one line denotes its characters with each doubled quote read as one quote; a double-quoted scalar on one line denotes its characters with \\\\, \\\", \\n, \\r, \\t, \\b, \\f decoded and any other escaped character standing for itself. The scalar ends at the first unescaped closing quote, and a missing closing quote is a parse error.",
  ["inputs"], "every body text on one line, both quote styles",
  "A handful of quoted samples; escapes next to the closing quote and truncated text are not covered.",
  [G, L], [("string_quoted / escape", G), ("scalar_term", L)], ["yaml_peg::parse"])

p("C07", "Plain scalars keep their text and only the core keywords are special",
  "A plain scalar written on one line yields exactly its text without the surrounding blanks and without a trailing comment, ending at `: `, a line break, ` #`, and inside flow collections also at flow punctuation. Only null/Null/NULL/~, true/True/TRUE, false/False/FALSE, and the .nan / .inf / -.inf spellings become null, booleans or floats; every other non-number text stays a string, and quoting prevents the conversion.",
  ["inputs"], "every one-line plain text in block and flow context",
  "Tests contain ordinary words only; near-keywords and embedded colons, hashes and brackets vary without bound.",
  [G, L], [("string_plain", G), ("scalar_term keyword table", L)], ["yaml_peg::parse"])

p("C08", "Block scalars keep their lines and obey the chomping indicator",
  "A literal block scalar inside a block collection yields its lines, without the indentation of the level, joined by line breaks with (empty or less indented) blank lines kept; a folded one joins adjacent lines by a space. The chomping indicator decides only the end: `-` leaves no trailing white space, no indicator leaves exactly one trailing line break, `+` keeps the line breaks.",
  ["inputs"], "every list of body lines and every indicator",
  "Tests hold one or two samples of each style.",
  [G], [("string_literal / string_folded / chomp / string_wrapped", G)], ["yaml_peg::parse"])

p("C09", "An alias denotes the anchored node of its own document",
  "In ordinary parsing (`parse`) an alias yields the value of the node that carried the same anchor earlier in the same document, an alias without such an anchor and an anchor defined twice in one document are parse errors, and no alias node remains in the result. When aliases are kept, each alias stays as written, and the recorded anchors of each document are exactly the anchored nodes of that document.",
  ["inputs"], "all documents and streams with anchors and aliases, both modes",
  "One anchor file is tested; scoping across documents, redefinition and undefined names are not.",
  [L], [("scalar_node / scalar_term / doc", L)], ["yaml_peg::parse", "yaml_peg::parse_cyclic"],
  [("anchors, doc_ind", "one anchor table per document and the index of the current one", L)])

p("C10", "Tags resolve through the declared handles",
  "A tag written `!name` is kept as name, `!!name` and `!handle!name` are the declared prefix of the handle followed by name (by default `!!` is the core schema prefix), `!<text>` is exactly text; a handle that was never declared is a parse error. A node without tag reports the core schema tag of its kind. A second %YAML directive or a version other than 1.1 / 1.2 is a parse error, and unknown directives are ignored.",
  ["inputs", "histories"], "every combination of directives and tag spellings",
  "One file declares two handles; overriding, undeclared handles and repeated directives are not sampled.",
  [G, D, L, N], [("tag", G), ("directive_yaml / directive_tag", D), ("Node::tag", N)], ["Node::tag", "yaml_peg::parse"],
  [("tag table, version_checked", "prefix of each declared handle; whether %YAML was seen", B)])

p("C11", "Node positions point into the source at their own value",
  "The position of every parsed node is a byte offset inside the source text (at most its length). A scalar or flow collection which stands on the line of its key, dash or properties starts exactly at its position (after its anchor and tag); in front of any other value there are only blanks, comments and line breaks behind the position. The items of a sequence and the values of a map have increasing positions, a key stands in front of its value, and the items lie behind the start of their collection; a value taken through an alias keeps the item positions of the anchored node, all of them in front of the alias. Documents have increasing positions.",
  ["inputs"], "every document, every node of the result",
  "Positions are compared in no test.",
  [L, B, N], [("scalar_node", L), ("indicator", B)], ["Node::pos"])

p("C12", "Source locations name the right line, column and text",
  "For every text and every byte offset inside it or at its end, the location message gives the 1-based line number (number of line feeds before the offset plus one), the 1-based byte column within that line, the text of that line, and a caret under the column; the file variant prefixes the path. Parse errors carry such a message.",
  ["inputs"], "every text and every offset from 0 to its length",
  "Two doc examples at one offset.",
  [IN, B], [("indicated_msg / indicated_msg_file", IN), ("Parser::err / indicator", B)], ["yaml_peg::indicated_msg", "yaml_peg::indicated_msg_file", "PError"])

p("C13", "A stream yields one node per document and rejects trailing text",
  "Parsing succeeds only when the whole text was consumed, and yields one node per document in order: one more than the number of `---` separators after the first document started. Directives before the first document and an end marker `...` yield no node of their own; anything else between documents is a parse error, and the recorded anchor tables are as many as the documents.",
  ["inputs"], "every stream of documents",
  "Two small streams are sampled.",
  [L], [("parse / doc / doc_end", L)], ["yaml_peg::parse", "yaml_peg::parse_cyclic"])

p("C14", "Flow collections and JSON text parse to their items in order",
  "A flow sequence yields exactly its items in order and a flow map exactly its pairs in order, a later pair replacing an earlier one with an equal key; JSON text (objects, arrays, strings with the common escapes, integers and decimals, true, false, null) parses to the same value tree. A flow collection whose closing bracket is missing is a parse error.",
  ["inputs"], "every nesting of flow collections and scalars",
  "One JSON file is tested.",
  [L, Y], [("seq_flow / map_flow", L), ("FromIterator for Yaml", Y)], ["yaml_peg::parse"])

p("C15", "Block collections are structured by their indentation",
  "Block sequences and maps yield exactly their items and pairs in order, nested according to the indentation of the lines.",
  ["inputs"], "every block document",
  "Layouts vary without bound; a few files are tested.",
  [L, B], [("seq / map / ind / ind_define", L)], ["yaml_peg::parse"])

p("C16", "Dumping never panics and writes each node in its documented form",
  "Dumping any list of nodes terminates without panicking; the first node is written as is, every further node after a `---` line, and the text ends with a line break. Null is written as null, booleans as true/false, numbers as their text, aliases as *name, empty collections as [] and {}, an anchored node after &name, and a node with a non-core tag after that tag.",
  ["inputs"], "every node tree, anchor table and nesting level",
  "One tree is dumped in the tests; empty collections, tags and anchors are not.",
  [DU], [("Dumper::dump / part", DU), ("dump", DU)], ["yaml_peg::dump"])

p("C17", "Dumped text parses back to the same nodes",
  "For every list of node trees without tags and anchors which are built from null, booleans, decimal integers, decimal fractions (digits on both sides of the point, the last one not 0), words and sequences and maps of such trees (as keys as well, all keys of a map different), the dumped text is parsed back to as many nodes, each equal to the original one. A word is a text which starts with an ASCII letter, holds ASCII letters, digits, `_`, `-`, `.`, `/` and single spaces between them, and is no core keyword.",
  ["inputs"], "every list of such trees, of any depth and size",
  "Only one tree is dumped and never re-read; the layout depends on the nesting of sequences, maps and keys in each other.",
  [DU, L, G], [("Dumper::dump / dump", DU), ("Loader::parse, seq, map, ind_define", L), ("scalar grammar", G)], ["yaml_peg::dump", "yaml_peg::parse"])

p("C18", "Integers cross the serde boundary without loss",
  "Deserializing an integer node into any Rust integer type gives exactly its value, or an error when the value does not fit or is a hexadecimal or octal text beyond 64 bits; it never wraps, truncates or panics, and every 8 to 128 bit integer serialized to a node reads back as itself. An integer node is passed to self-describing formats by its exact value or refused with an error.",
  ["inputs"], "every integer text and every integer type",
  "Tests use small positive numbers.",
  [DE, SE, SN, Y], [("deserialize_* of integers", DE), ("serialize_* of integers", SE), ("Serialize for Node", SN)], ["serde::from_str", "serde::to_node", "serde::to_string"])

p("C19", "Serialization maps Rust data to the documented node shapes and back",
  "Serializing yields null for unit and none, the inner value for some and newtypes, a sequence for sequences, tuples and bytes, a map in entry order for maps and structs, the variant name for unit variants and a single-pair map from the variant name for the others. Deserializing these shapes gives the original value; a node of another kind is an error that carries the node position.",
  ["inputs"], "every value of the serde data model",
  "A few structs are round-tripped.",
  [SE, DE], [("NodeSerializer and its compound serializers", SE), ("Deserializer for Node", DE)], ["serde::to_node", "serde::from_str", "Deserialize"])

p("C20", "Nodes are transparent to serde",
  "Serializing a node without aliases into a node gives an equal node, and deserializing a node out of a node gives an equal node, as long as its numbers can be read (integers of at most 128 bits, beyond 64 bits in their shortest decimal form); an alias or an unreadable number anywhere in it is an error in both directions, never a panic.",
  ["inputs"], "every node tree", "No test serializes a node itself.",
  [SN, DE], [("Serialize for Node", SN), ("Deserialize for Node / NodeVisitor", DE)], ["serde::to_node", "Node::deserialize"])

p("C21", "The serde helper types answer consistently with their content",
  "A single-or-list value iterates over, counts and converts to exactly its items whether written inline or as a list; an optional-or-flag value calls its success action once with the value, with the default for true, and never for false, calling the alternative exactly then; a stringified scalar displays the text of its value.",
  ["inputs"], "every content of the helper types", "One doc example each.",
  ["src/serde/inline_list.rs", "src/serde/optional.rs", "src/serde/stringify.rs"],
  [("InlineList", "src/serde/inline_list.rs"), ("Optional", "src/serde/optional.rs"), ("Stringify", "src/serde/stringify.rs")],
  ["serde::InlineList", "serde::Optional", "serde::Stringify"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
