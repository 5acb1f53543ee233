#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). The text below is the source of truth."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
PA,ST,VA,DO,NU,AN,ER="src/parser.rs","src/string.rs","src/value.rs","src/doc.rs","src/number.rs","src/anystr.rs","src/error.rs"
CFG="ParseConfig {allow_trailing_commas, recursion_limit, allow_all_types_at_root}"

p("C01","A document is accepted exactly when it is RFC 8259 JSON",
 "With the default configuration, parsing succeeds for a byte sequence if and only if it is exactly one RFC 8259 JSON text, surrounded only by JSON whitespace, encoded as well-formed UTF-8, whose \\u surrogate escapes are correctly paired and whose arrays and objects nest at most 128 deep. Everything else is rejected with an error, and validation reports the kind of the root value of what it accepts.",
 ["inputs"],"every byte sequence handed to any of the parsing or validating entry points (str and bytes)",
 "The JSONTestSuite and json.org files are about 350 fixed documents; they cannot settle acceptance for all byte sequences (every byte in every lexer state, every position in deeper structures, long strings/numbers/arrays).",
 [PA,ST],[("tokenizer dispatch, string/number/literal readers",PA+": Tokenizer::read_peek, read_string_from_source, read_string_escape, read_number_from_source, read_literal_from_source"),("array/object grammar",PA+": Parser::read_object, read_array, read_tokens, parse_bytes"),("byte class tables",ST+": HEX_OFFSET_TABLE, SAFE_STRING_BYTES, SAFE_STRING_BYTES_VERIFY_UTF8")],
 ["Parser::validate_json(_bytes)","Value::from_json(_bytes)","Document::from_json(_bytes)"],
 [("tokenizer offset","position of the next unread byte",PA+": ByteIterator.offset")])
p("C02","All parsing entry points agree on verdict, error kind and offset",
 "For the same input and configuration, validating, parsing to a value and parsing to a document, each from text or from bytes, with or without an explicitly passed default configuration, all succeed or all fail. When they fail they report the same error kind at the same offset, and when they succeed they agree on the kind of the root value.",
 ["inputs","configurations"],"every input and every parse configuration, across all twelve entry points (text entry points when the input is valid UTF-8)",
 "Tests compare entry points on a few dozen documents and never compare kinds and offsets across text/bytes; the text and byte paths use different byte tables and are monomorphised separately.",
 [PA,DO,VA,ER],[("shared generic parser, const GUARANTEED_UTF8",PA+": Parser::parse_bytes"),("error conversion",ER+": into_fallable, into_infallable"),("delegates",PA+": impl ParseDelegate for (); "+VA+": ValueParser; "+DO+": &mut Nodes")],
 ["Result of every from_json*/validate_json*/parse_json* function"])
p("C03","Each configuration option changes acceptance exactly as documented",
 "Allowing trailing commas additionally accepts exactly one comma before a closing bracket of a non-empty array or object; a recursion limit of n rejects exactly the documents nesting deeper than n (however many siblings precede) and no limit never rejects for depth; disallowing all types at the root rejects exactly the documents whose root is not an array or object. The options are independent, and a document rejected because of exactly one of them is rejected with that option's error kind.",
 ["inputs","configurations"],"every input under every combination of the three options, including limits 0, 1, 2, ... and none",
 "Tests try one trailing-comma document, limit 19 and 128 at one nesting pattern and four scalar roots; the options' interaction with siblings, empty containers, nested closers and every depth is not covered.",
 [PA],[("nesting counter",PA+": ParseState::begin_nest, end_nest"),("trailing comma branches",PA+": read_object, read_array"),("root type test",PA+": parse_bytes"),("builders",PA+": ParseConfig::{new,strict,with_*,allowing_*}")],
 ["*_with_config entry points"],[("remaining_depth","levels of nesting still allowed",PA+": ParseState.remaining_depth")])
p("C04","Parsing any bytes terminates without a panic, abort or stack overflow",
 "For every byte sequence and every configuration with a recursion limit, every parsing, validating and tokenizing entry point returns normally: it does not panic, abort, overflow the stack or loop. Any error it returns has an offset no larger than the input length and can be displayed, and the result of a successful parse can be traversed, compared, hashed, printed and dropped.",
 ["inputs","configurations"],"every byte sequence (including invalid UTF-8, truncated and corrupted documents, and extreme nesting) and every bounded-depth configuration",
 "A unit test runs one input to completion; the claim ranges over all inputs. The fuzz targets in the repository sample, and only two entry points.",
 [PA,ST,DO,VA],[("unreachable!/expect sites",PA+": read_string_from_source; "+ST+": AsJson::next, Decoded::next; "+DO+": hydrate_value_from_node, Nodes::extend_*"),("recursion limit",PA+": ParseState::begin_nest")],
 ["all public parsing functions and accessors of their results"])
p("C05","A parsed value is a faithful image of the document",
 "The value parsed from an accepted document has the same tree as the document: array elements and object members in source order with duplicate keys kept, keywords mapped to their values, every number carrying its exact source text and every string its exact source text and correct decoded text. Insignificant whitespace has no influence on the value.",
 ["inputs"],"every accepted document",
 "Tests compare about twenty hand-built values; wrong element order, lost duplicates, wrong slices or whitespace effects at other positions or sizes are not reachable from them.",
 [PA,VA],[("value delegate",VA+": impl ParseDelegate for ValueParser"),("token slices",PA+": read_string_from_source, read_number_from_source")],
 ["Value, Object, JsonString::as_json_str, JsonString::decoded, JsonNumber::source"])
p("C06","Everything exposed from parsed bytes is well-formed UTF-8 borrowed from input",
 "Every string slice and character obtained from parsing or tokenizing arbitrary bytes, including tokens produced after a tokenizing error, is well-formed Unicode, so the library's unchecked conversions never create an invalid string or character. Strings and numbers of a parsed value, document or token borrow exactly their bytes inside the input, and decoding allocates only when the string contains an escape.",
 ["inputs"],"every byte sequence, valid UTF-8 or not, every entry point that hands out text",
 "Soundness of the four unsafe conversions depends on every byte combination being validated; tests feed a handful of invalid sequences.",
 [PA,ST],[("manual UTF-8 run validation and from_utf8_unchecked",PA+": read_string_from_source, read_number_from_source"),("char::from_u32_unchecked",PA+": read_string_escape; "+ST+": Decoded::next"),("borrowing",ST+": JsonString::decode_if_needed, escape_if_needed")],
 ["JsonString::{as_str,as_json_str,decoded,decode_if_needed}","JsonNumber::source","ParseDelegate callbacks"])
p("C07","Decoding a JSON string yields exactly the text RFC 8259 assigns to it",
 "For every string literal, decoding maps each short escape, each \\uXXXX escape and each surrogate pair to the character RFC 8259 assigns to it and leaves all other characters unchanged. The reported decoded length, emptiness, borrowed form (available exactly when nothing is escaped) and displayed form all agree with that decoded text.",
 ["inputs"],"every accepted string literal: all 65,536 \\u escapes, all 1,048,576 surrogate pairs, all raw scalar values, and their combinations",
 "Tests decode two emoji and one BMP escape; whole planes of surrogate pairs are never tried.",
 [ST,PA],[("decoder",ST+": Decoded::next"),("surrogate merge",ST+": merge_surrogate_pair"),("length bookkeeping",ST+": JsonStringInfo::add_bytes, add_bytes_from_escape")],
 ["JsonString::{decoded,decode_if_needed,decoded_len,len,is_empty,as_str}, Display"],[("info","escape flag and decoded length",ST+": JsonString.info")])
p("C08","Encoding any text produces a JSON string that decodes back to that text",
 "For every Rust string, converting it to a JSON string yields, through every encoding accessor identically, text that is legal between JSON quotes and that an RFC 8259 decoder maps back to the original. The reported encoded and decoded lengths equal the actual byte lengths, and the original text remains available unchanged, whether the conversion took a borrowed or an owned string.",
 ["inputs"],"every Rust string: all scalar values alone and in combination",
 "The tests encode one string whose only uncommon control character is NUL, whose escape happens to be palindromic.",
 [ST],[("encoder state machine",ST+": AsJson::next, EscapeState"),("promotion of raw text",ST+": From<&str>, From<String> for JsonString"),("length bookkeeping",ST+": JsonStringInfo")],
 ["JsonString::{as_json,escape_if_needed,len,decoded_len,as_json_str,as_str,decoded}"],[("EscapeState","pending characters of the current escape",ST+": EscapeState")])
p("C09","JSON string equality is equality of decoded text",
 "Two JSON strings compare equal exactly when their decoded texts are equal, however each was created (parsed with any mix of escapes, or converted from borrowed or owned text), and comparing with a plain string slice gives the same answer. Equality is therefore reflexive, symmetric and transitive across all representations, and extends to values, keys and object lookup.",
 ["inputs"],"every pair and triple of strings in every combination of representations",
 "Tests compare a dozen pairs; the length shortcuts differ per pair of representations and are wrong only for particular escape forms.",
 [ST,VA],[("PartialEq with shortcuts on lengths and escape flags",ST+": PartialEq<str>, PartialEq<JsonString> for JsonString")],
 ["== between JsonString, &str, Value; Object::get"])
p("C10","JSON string ordering is the ordering of decoded text",
 "Comparing two JSON strings, or a JSON string with a plain string slice, gives exactly the ordering of the decoded texts in every combination of representations. The order is total and reports equal exactly for strings that compare equal.",
 ["inputs"],"every pair of strings in every combination of representations",
 "Tests compare about fifteen pairs of one- or two-letter strings.",
 [ST],[("Ord / PartialOrd",ST+": impl Ord for JsonString, PartialOrd<str>")],["cmp, partial_cmp, <, > on JsonString and &str"])
p("C11","Equal JSON strings hash equally, and like their decoded text",
 "For every hasher, two JSON strings that compare equal produce the same hash, which is also the hash of the decoded text as a plain string slice. Sets and maps keyed by JSON strings therefore find an entry through any representation of its key.",
 ["inputs","configurations"],"every string in every representation, fed to any hasher",
 "The tests hash two one-character strings.",
 [ST],[("Hash",ST+": impl Hash for JsonString")],["Hash for JsonString, HashSet/HashMap lookups"])
p("C12","Compact output reproduces the document exactly, minus insignificant bytes",
 "Printing a parsed value compactly yields the source document with exactly its insignificant whitespace (and permitted trailing commas) removed: every string and number literal byte for byte, members in order. The string-returning, writer-based and display forms produce identical text, and parsing that text again gives an equal value.",
 ["inputs"],"every accepted document",
 "Round-trip tests cover 27 files, two literals and no string needing care at other sizes, depths or positions.",
 [VA],[("writer",VA+": write_json_value, write_json_object, write_json_array, WriteState")],["Value::{to_json,write_json_to}, Display"])
p("C13","Pretty output follows one fixed layout and preserves the value",
 "Pretty printing puts every array element and object member on its own line, indented once per nesting level with the given indentation, with ': ' after keys, ',' at line ends, the given line ending after every line but the last, and empty containers as [] and {}. The default form (two spaces, newline), the custom form, the writer forms and the alternate display form agree, and with whitespace indentation the text parses back to an equal value.",
 ["inputs","configurations"],"every value, every indentation and line-ending string",
 "Three fixed documents of depth one are pretty-printed by the tests.",
 [VA],[("pretty state",VA+": WriteState::{write,write_json,new_line,begin_*,end_*}")],["Value::{to_json_pretty,to_json_pretty_custom,pretty_write_json_to,pretty_write_json_to_custom}, {:#}"],[("level / is_at_line_start","nesting level and pending indentation",VA+": WriteState")])
p("C14","A failing output sink stops printing and surfaces its error",
 "If the destination rejects any one of the writes made while printing a value, in compact or pretty form, printing returns an error, makes no further write, and what was written before is a prefix of the complete output. If no write fails, printing succeeds.",
 ["fault_sequences","inputs"],"every value and every position at which the destination can fail",
 "No test uses a failing writer.",
 [VA,ST],[("? on every write",VA+": WriteState; "+ST+": Display for AsJson")],["Value::write_json_to, pretty_write_json_to(_custom)"])
p("C15","A document lists the same tree as the value, in pre-order with exact lengths",
 "A parsed document consists of the nodes of the tree in source pre-order, each array or object announcing exactly the number of elements or members that follow, with every member a string key followed by its value. Converting the document to a value gives exactly the value parsed directly from the same input.",
 ["inputs","configurations"],"every accepted document, every configuration (including trailing commas)",
 "Tests compare one document's node list and about twenty conversions.",
 [DO],[("node delegate",DO+": impl ParseDelegate for &mut Nodes; extend_object/extend_array"),("hydration",DO+": hydrate_value_from_node")],["GenericDocument::iter, IntoIterator, From<GenericDocument> for Value"],[("nodes","flat pre-order list",DO+": Nodes.collection")])
p("C16","Skipping or reading a value consumes exactly that value's nodes",
 "From any position of a document's node iterator, stepping, reading a whole value and skipping a whole value can be mixed in any order: reading a value returns the value rooted at the current node, reading and skipping advance past exactly the nodes of that value, and at the end all of them yield nothing. Cloned iterators advance independently.",
 ["inputs","histories"],"every document and every sequence of iterator operations",
 "One test reads one value and skips one whole document.",
 [DO],[("iterator",DO+": DocumentIter::{next,next_value,skip_next_value}")],["DocumentIter"])
p("C17","Capacity-limited documents hold exactly what fits, or report an error",
 "Parsing into a fixed-capacity document succeeds with the same nodes as an unlimited document exactly when the node count fits; otherwise it fails with the payload-too-large error (or the syntax error that comes first), never with a partial document. An error returned by any collection when a node is pushed is returned to the caller as is, and nothing further is pushed.",
 ["inputs","configurations","fault_sequences"],"every document, every capacity, every push at which a collection fails",
 "One test uses capacity 3 with one too-large array.",
 [DO,ER],[("push_node error path",DO+": Nodes::push_*, NodeCollection::push"),("into_infallable",ER)],["HeaplessDocument<N>, GenericDocument with a custom NodeCollection"])
p("C18","Delegates receive the document's events once, in order, properly nested",
 "While parsing, a delegate receives exactly the events of the document in source order: begin, each key immediately before its value's events, each completed element or member passed to its own container, end, with scalars carrying their literals. Each value the delegate returned is handed back exactly once to its parent, and the root value is the parse result.",
 ["inputs"],"every document (for rejected ones: a prefix of such a sequence)",
 "Only Value/Document delegates are exercised end to end; the callback protocol itself is never observed by a test.",
 [PA],[("callback sites",PA+": read_tokens, read_object, read_array")],["ParseDelegate callbacks and their arguments"])
p("C19","A delegate error stops parsing at once and is returned unchanged",
 "If a delegate callback returns an error, parsing makes no further callback that builds data and returns precisely that error as a delegate error with an in-range offset, whichever callback it is and however deeply nested. Without a delegate error, the delegate error kind is never reported.",
 ["inputs","fault_sequences"],"every document and every callback invocation at which the delegate can fail",
 "One document with one failure per callback type; only the kind is checked, not which error, not that parsing stopped.",
 [PA,ER],[("map_err at callback sites",PA+": read_tokens, read_object, read_array"),("kind rewriting on unclosed containers",PA+": read_tokens map_err closures")],["Parser::parse_json*(.., delegate)"])
p("C20","The tokenizer splits any source into its JSON tokens; peeking changes nothing",
 "The token sequence of a source is its maximal-munch JSON tokens in order, with strings and numbers borrowing their exact source, ending with an error at the first lexical fault; text and byte tokenizers agree. Peeking any number of times reports the kind of the next token without altering the sequence, the offset moves only forward and ends each token right after it, and next-or-eof differs from next only by reporting end of input as an error.",
 ["inputs","histories"],"every source and every interleaving of peek, next, next_or_eof and offset",
 "Two tests: one token each, and one peek walk over one document.",
 [PA],[("Tokenizer",PA+": next_or_eof, Iterator::next, peek, offset, read_peek")],["Tokenizer"],[("offset","read position",PA+": ByteIterator.offset")])
p("C21","Numeric accessors return the exact value, or nothing",
 "Each integer accessor of a number or value returns the mathematically exact integer when the literal has no fraction or exponent, is representable in that type and, for unsigned types, carries no minus sign; otherwise it returns nothing and never wraps or rounds. The floating accessors return the correctly rounded nearest value of the literal for their own precision, and accessors on non-numbers return nothing.",
 ["inputs"],"every number literal (all shapes, all type boundaries, halfway cases) and all fourteen accessors",
 "Tests convert the literals 0 and 1.",
 [NU,VA],[("parse via FromStr",NU+": JsonNumber::parse, impl_as_number!"),("delegation",VA+": impl_as_number!")],["JsonNumber::as_*, Value::as_*, JsonNumber::parse"])
p("C22","Parsing a lone string or number accepts exactly JSON texts of that type",
 "Parsing a JSON string (or number) on its own succeeds exactly when the input is a JSON text whose root is a string (or number), and yields the same string (or number) as parsing it as a value. For a JSON text of any other type it reports that a string (or number) was expected, and for anything else it reports an error without panicking.",
 ["inputs"],"every input text",
 "Five wrong-type literals each are tested; nothing nested, padded or malformed.",
 [ST,NU],[("single-type delegates",ST+": StringParser; "+NU+": NumberParser")],["JsonString::from_json, JsonNumber::from_json"])
p("C23","Value and object accessors and edits behave like a list of entries",
 "Across any history of edits, lookups by key return the first member whose decoded key equals the given text (mutable, immutable, entry and index forms agree), lookups by index return that element, type accessors return the content exactly for the matching type, and an edit through a mutable accessor changes that one place only. Missing keys, indexes and mismatched types yield nothing (a panic only from the index operators), and objects keep insertion order and duplicates.",
 ["histories","inputs"],"every sequence of lookups and edits on every value",
 "Two tests perform four edits on one document.",
 [VA],[("accessors",VA+": Value::{get,get_mut,get_index,get_index_mut,as_*}, Object::{get,get_mut,get_entry_mut}, Index/IndexMut, Deref")],["Value, Object, Entry API and to_json after the history"])
p("C24","An owned-or-borrowed string behaves exactly like its text",
 "Equality, ordering, hashing, dereferencing and borrowing of the owned-or-borrowed string type depend only on the text, never on whether it is owned or borrowed, and agree with the same operations on a plain string slice.",
 ["inputs"],"every pair of texts in every ownership combination",
 "Two unit tests check 'hello' and 'a' < 'b'.",
 [AN],[("trait impls",AN+": PartialEq, PartialOrd, Hash, Borrow, Deref, AsRef, From")],["AnyStr"])
p("C25","Errors locate the first problem and name what is wrong there",
 "For every rejected input, the reported offset lies within the first token that makes the input invalid, or in the whitespace directly before it, or at the end of input when the input ends too early (root-type rejections report offset 0; parsing a lone string or number may blame a bracket at the position right after it). The reported kind describes the input truthfully: a byte reported as unexpected is the one found there, trailing data follows a complete value, end-of-input kinds occur only at the end and name the innermost open container, and comma, colon, key, digit, escape, hexadecimal, UTF-8, depth and root-type kinds occur only for those faults.",
 ["inputs","configurations"],"every rejected input under every configuration",
 "About thirty error positions are pinned; most lexer states, nesting contexts and truncation points have none.",
 [PA,ER],[("error construction",PA+": every Err(Error{..}) site, read_tokens map_err")],["Error::kind, Error::offset"])
p("C26","Every feature configuration behaves identically",
 "With no features, alloc, std, heapless or combinations of them enabled, everything that remains available (validation, tokenizing, documents in caller-provided or fixed-capacity collections, JSON strings and numbers) gives the same results: same acceptance, errors, nodes, decoded and encoded text, equality, ordering and hashes.",
 ["configurations","inputs"],"every supported feature set, every input",
 "The repository's tests are run with one feature set; the others are only type-checked by the build.",
 ["Cargo.toml",AN,ST,PA,DO,"src/lib.rs"],[("cfg(feature) items","src/*.rs")],["public API under --no-default-features, alloc, std, heapless"])
p("C27","Partially consumed string iterators still describe the remaining text",
 "At every point of consuming the decoding or encoding iterator of a JSON string, displaying it, cloning and draining it, and finishing it all yield exactly the remaining characters, and its size hint never promises fewer or more characters than actually remain. Once exhausted the iterator stays exhausted.",
 ["inputs","histories"],"every string in every representation and every number of characters already consumed",
 "Tests only consume the iterators completely from the start.",
 [ST],[("iterators",ST+": Decoded, AsJson (Iterator, Clone, Display, size_hint)")],["JsonString::decoded, JsonString::as_json"],[("state","mid-escape position",ST+": AsJson.state, Decoded.chars")])
p("C28","Values built in code print to JSON that parses back to an equal value",
 "Every value constructed through the public constructors and conversions, from any text including control characters and quotes, prints (compact and pretty) to a valid JSON document, and parsing that document gives a value equal to the original with identical decoded strings and number literals.",
 ["inputs","histories"],"every value tree that can be built through the API, every text as key or string",
 "One test builds a value with only plain ASCII strings.",
 [VA,ST],[("conversions",VA+": From<..> for Value, Entry::new, FromIterator for Object"),("encoding while printing",VA+": WriteState::write_json; "+ST+": AsJson")],["Value::to_json, to_json_pretty, Value::from_json"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
