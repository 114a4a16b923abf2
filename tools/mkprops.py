#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the text stays readable).
import json
T='/verif/properties.jsonl'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        **({'state':state} if state else {}),observe_at=observe or [],hook_needed=None)))
DT='json/src/deserialize/text.rs'; DN='json/src/deserialize/number.rs'; DM='json/src/deserialize/mod.rs'
ST='json/src/serialize/text.rs'; SM='json/src/serialize/mod.rs'; JH='json/src/helper.rs'
CH='core/src/helper.rs'; CD='core/src/deserialize.rs'; CS='core/src/serialize.rs'; NM='core/src/name_map.rs'
TR='core/src/text_reader.rs'; TW='core/src/text_writer.rs'; DD='derive/src/deserialize.rs'; DS='derive/src/serialize.rs'; DL='derive/src/lib.rs'

p('C01','Strings and characters survive a JSON round trip',
  'Writing any string, object key or single character as JSON produces a well-formed, correctly escaped JSON string literal, and reading that literal back yields exactly the original text. Every JSON spelling of a character (raw, short escape, \\uXXXX, surrogate pair) reads as that character, however the string is consumed (whole, character by character, as a key, or from data read ahead).',
  ['inputs'],'All Unicode scalar values, alone and in short strings, in value and in key position; all spellings of each character; streamed and read-ahead consumption.',
  'The tests write and read one or two sample strings ("Hello world!", "\\t\\n"); they never read a \\u escape, a control character, a non-ASCII character or a char.',
  [ST,DT,TR,TW],[('character escaping',ST+': append_char'),('escape decoding',DT+': read_escape_sequence'),('string readers',DT+': next_char, read_str_into, read_str_bytes_into')],['to_str / from_str','JsonDeserializer string methods'])
p('C02','Integers are written canonically and round-trip',
  'Every value of every supported integer type is written as its canonical decimal text (minus sign only when negative, no leading zeros, no exponent), and reading that text as the same type returns the same value. The zero-excluding integer types write the same text and reject only zero when read.',
  ['inputs'],'Every value of i8..i64, u8..u64 and their non-zero counterparts, streamed and read ahead.',
  'The tests sample about fifteen integers; the type limits of the 16-, 32- and 64-bit types are never exercised.',
  [ST,DN,DT,CS,CD],[('integer formatting',ST+': put_*'),('digit accumulation',DN+': push_digit/from_builder'),('non-zero wrappers',CD+': NonZero impls')],['to_str','from_str'])
p('C03','Integer parsing is exact or fails',
  'Reading a JSON number as an integer type returns exactly the mathematical value of the literal - including fractions and exponents that denote an integer - when that value is representable in the type, and returns an error otherwise. It never rounds, wraps, truncates or panics.',
  ['inputs'],'All JSON number literals up to the stated length (sign, integer digits, fraction digits, exponent), for each integer type, streamed and read ahead.',
  'The tests sample about ten number literals; overflow by exponent, fractional digits that cancel, signed minima and literals longer than the type are not covered.',
  [DN,DT],[('digit accumulation with overflow check',DN+': NumBuilder'),('exponent application',DN+': from_builder'),('number grammar',DT+': read_number_into_builder')],['from_str::<integer>'])
p('C04','The parser accepts exactly the JSON grammar',
  'In the strict configuration, a document is read successfully if and only if it is a single well-formed JSON value (RFC 8259) of the requested shape surrounded only by JSON whitespace; anything else, including trailing data, is an error. The value delivered is the one the document denotes.',
  ['inputs'],'All byte strings up to the stated length over the full ASCII range, read as each basic shape (bool, null/option, string, number, list, object, arbitrary value).',
  'The tests feed a handful of valid documents and five invalid ones; the set of malformed inputs is unbounded and almost none of it is sampled.',
  [DT,DM,DN],[('token and punctuation readers',DT+': skip_to_*, read_bool, read_exact'),('trailing data check',DT+': close/read_eof'),('skipping values',DM+': skip_value/skip_object')],['from_str','TextDeserializer'])
p('C05','No input makes the reader panic, hang or touch invalid memory',
  'Whatever bytes are presented as a document, reading them as any type terminates and returns either a value or an error. It never panics, overflows arithmetic, loops forever or accesses memory outside its buffers.',
  ['inputs','configurations'],'All byte strings up to the stated length (valid UTF-8 for the string reader, arbitrary bytes for the byte-stream reader at construction), strict and permissive configuration, each target shape.',
  'Tests run a few well-formed documents; a panic on a rare escape, a truncated literal or an odd character cannot be excluded by sampling.',
  [DT,DN,DM,TR],[('explicit error returns on every reader branch',DT),('unchecked UTF-8 access guarded by construction',DT+': LookbackString')],['from_str','from_reader'])
p('C06','Structs read the same whatever the field order',
  'Reading a struct from a JSON object gives the same result for every order of the entries; entries with unknown names are ignored whatever their value, missing nullable or defaulted fields take their empty value, and any other missing field is an error naming that field. The positional (array) form of the struct gives the same value.',
  ['inputs','histories'],'All permutations of the entries, all small unknown entries with arbitrary JSON values at every place, all subsets of missing fields, arbitrary field values.',
  'The tests read structs whose entries are in declaration order; only the low-level out-of-order test touches permutations, with one fixed order.',
  [DT,DM,DD,CD],[('field lookup with read-ahead storage',DT+': try_push_entry, read_lookback_value'),('virtual null for missing fields',DM+': push_field'),('ignoring the remainder',DM+': close_struct/skip_object')],['from_str of derived structs'])
p('C07','Values read ahead are the same as values read in place',
  'A value that had to be read ahead and kept (because an entry behind it was requested first) is later delivered exactly as it would have been if requested in place: same value, same success or failure, for every JSON value and every target type. Only the order of requests differs, never the result.',
  ['inputs','histories'],'All small JSON values (numbers with exponents, strings with escapes, nested arrays and objects) read in place versus after a forced read-ahead.',
  'One test reads a fixed document out of order with convenient values; number encodings, nested empties and type mismatches in read-ahead data are not covered.',
  [DT],[('read-ahead outline',DT+': Outline, LookbackItem, read_lookback_value'),('packed number digits',DT+': LookbackNumBuilder'),('sibling links',DT+': correct_items, first_unread_child')],['JsonDeserializer'])
p('C08','The serializer always produces well-formed JSON',
  'Any correctly bracketed sequence of write operations (values, lists, tuples, structs, objects, dynamic keys, nested to any depth) produces a well-formed JSON document denoting exactly the written structure. The compact and every indented layout differ only in insignificant whitespace.',
  ['histories','configurations','inputs'],'All operation sequences up to the stated number of nodes and depth, compact and with each indentation string, with arbitrary scalars and keys.',
  'Tests check the text of a few fixed structures, and only one in indented form.',
  [ST,SM,JH],[('separator and indentation bookkeeping',ST+': at_first, depth, in_key')],['TextSerializer','to_str'])
p('C09','Enum tags are matched exactly, by name or index',
  'A derived enum is written as its declared (possibly renamed) variant name and read back as the same variant from that name or from its declared index; every other name, index or JSON type is an error. Renames, explicit discriminants and re-indexing behave as declared.',
  ['inputs','configurations'],'All strings and all numbers up to the stated length presented as a tag, for several enum declarations, for plain and data-carrying enums, tag first or not.',
  'Tests try the declared names and a few other values; near-miss names (prefixes, extensions, renamed originals) and out-of-range indices are unbounded.',
  [DD,DS,DL,DM,NM,CD],[('tag reading',DM+': get_tag'),('name lookup',NM+': NameMapLookup'),('variant indices',DL+': VariantRepr::get')],['from_str of derived enums','to_str of derived enums'])
p('C10','Optional values are never confused with their contents',
  'Every value of an optional type, to any nesting of optionals, is written so that it reads back as the same value: an absent value, a present value and a present-but-empty inner value stay distinct. A missing struct field of simple optional type reads as absent.',
  ['inputs'],'All values of Option over bool, integers, strings, units, lists and further Options (to depth 3), as a document, a field, a list item, streamed and read ahead.',
  'Tests cover three values of Option<Option<bool>> only.',
  [CS,CD,DT],[('null niche or explicit struct',CD+': Option impl / '+CS+': Option impl'),('null check',DT+': check_null')],['to_str','from_str'])
p('C11','Name tables find exactly the names they contain',
  'A name table built from any set of distinct names returns, for any query, the value of the entry with exactly that name, or nothing if there is none. The result does not depend on the order the entries were given in or on how the query is split into pieces.',
  ['inputs','histories'],'All tables up to the stated number of entries with arbitrary names up to the stated length, all queries, all ways of feeding the query in pieces.',
  'Tests use one table of eleven English words and four absent queries.',
  [NM],[('ordering of entries at construction',NM+': sort_entries'),('incremental narrowing',NM+': write_bytes'),('exact-length test',NM+': result')],['NameMap::get','NameMap::lookup'])
p('C12','Byte streams are decoded as strict UTF-8',
  'Reading characters from a byte source yields exactly the characters of its UTF-8 content, in order and once each, with the correct line and column, however the source splits or interrupts its reads. Malformed, truncated, overlong or surrogate encodings are reported as errors rather than decoded or panicking.',
  ['inputs','fault_sequences'],'All byte sequences up to the stated length, all ways the source may deliver short reads or interruptions.',
  'The one test decodes eight valid characters from a slice; malformed input, positions and partial reads are untested.',
  [TR],[('decoder',TR+': read_utf8'),('look-ahead and position',TR+': Utf8Reader::next')],['read_utf8','Utf8Reader'])
p('C13','All text sinks receive the same document',
  'Serializing a value through any text sink (a string, a byte stream, a borrowed sink, a sink implementing only single characters) produces the same text, byte for byte in UTF-8, whatever the sizes of the writes the byte stream accepts.',
  ['inputs','fault_sequences'],'All strings of a few arbitrary Unicode characters, all patterns of short or interrupted writes.',
  'No test writes to anything but a String.',
  [TW,SM,ST],[('UTF-8 encoding writer',TW+': Utf8Writer'),('default string writing',TW+': TextWriter::write_str')],['to_writer','Utf8Writer'])
p('C14','Whitespace and allowed comments never change the meaning',
  'Inserting JSON whitespace between any two tokens of a document does not change what is read from it. In the permissive configuration the same holds for line and block comments, while the strict configuration rejects every comment.',
  ['inputs','configurations'],'All choices of insertion point, whitespace characters and short comment bodies in representative documents, both configurations, streamed and read ahead.',
  'One test has two comments at two fixed places; other places (before colons, inside read-ahead values, at the end of input) are not covered.',
  [DT],[('whitespace skipping',DT+': skip_whitespace and the skip_to_* family'),('comments',DT+': skip_comment')],['TextDeserializer with both configurations'])
p('C15','The typed wrappers enforce the protocol',
  'For every sequence of wrapper calls, correct usage is passed through unchanged to the underlying reader or writer, and a call made while an earlier value is unfinished, a use of a value which is already consumed, or a list that gets more or fewer items than announced, stops with a panic before it reaches the underlying format. The remaining length reported for a sized list is exact after every step.',
  ['histories'],'All sequences of wrapper calls up to the stated length over values, structs, tuples, lists with known and unknown length, objects, entries and collections, with any call failing.',
  'Tests only exercise correct usage of a few wrappers.',
  [CH,JH],[('done and ready flags',CH+': Value/Struct/Tuple/List'),('length accounting',CH+': List::push/next/close')],['Value','Struct','Tuple','List','Object','Entry'])
p('C16','Object access delivers each entry exactly once',
  'Whatever mixture of requests by name, iteration, skipping and nested reading is used on an object, each entry is delivered at most once and with its own key and value, requests by name succeed exactly for entries still unread, and iteration delivers precisely the remaining ones before ending. Closing strictly reports an unread entry as an error.',
  ['histories','inputs'],'All request histories up to the stated length over objects with distinct short keys (including empty and prefix-related ones) and nested values.',
  'One test mixes a single named request with iteration on one fixed object.',
  [DT,DM,JH],[('unread-entry index',DT+': lookback_keys, first_unread_child'),('entry iteration',DT+': next_entry'),('named request',DT+': try_push_entry')],['Object::entry/try_entry/next_entry','JsonDeserializer'])
p('C17','Errors point at the offending value',
  'When a document is syntactically valid but a value has the wrong type, is out of range, is an invalid tag, or is missing or excess, the reported position is the position of that value (or of the enclosing container for missing and excess parts). This holds whether the value was read in place or ahead.',
  ['inputs','histories'],'All placements of one offending value in small documents, with arbitrary preceding whitespace and entries, every error kind, line/column and string positions.',
  'No test looks at an error position.',
  [DT,CD,TR],[('recorded position',DT+': error_pos and per-item positions'),('line and column tracking',TR+': Utf8Reader::next')],['DeserializeError::position'])
p('C18','Floating-point numbers are read as the nearest value',
  'Reading a JSON number as a floating-point type gives exactly the value the standard library gives for that literal, sign of zero included, whether it is streamed or read ahead. Writing a finite float and reading it back gives the same bits.',
  ['inputs'],'All number literals up to the stated length; the decimal-to-binary conversion itself is the standard library\'s and is treated as given.',
  'Tests sample seven literals; the exhaustive round-trip test is ignored and covers only streamed f32.',
  [DN,DT,ST],[('literal reconstruction',DN+': FloatBuilder'),('formatting',ST+': put_f32/put_f64')],['from_str::<f32/f64>','to_str'])
p('C19','Fixed-length sequences require exactly their length',
  'A tuple or fixed array is read only from a JSON array with exactly that many elements; too few or too many elements is an error, and every element lands in its own place. Lists of any length keep their items and their order, and sequences written are read back equal.',
  ['inputs','histories'],'All arrays up to the stated length, for arrays, tuples and lists of scalars and of nested sequences, streamed and read ahead.',
  'Tests read one array and one tuple of matching length and one that is too short.',
  [CD,CS,DT,DM,CH],[('element stepping',DM+': push_item/close_list'),('sequence impls',CD+': arrays, tuples, Vec')],['from_str','to_str'])
p('C20','Derived types round-trip under every attribute',
  'A value of a derived struct or enum - with renamed, flattened, defaulted or proxied fields, transparent variants and custom tags - is written with the declared names and structure and reads back equal, including when embedded in other containers and when its entries arrive in another order.',
  ['inputs','programs'],'A family of declarations covering each attribute and their combinations, with arbitrary field values and entry orders.',
  'Tests read or write one value per attribute but never do both, and never combine attributes.',
  [DL,DD,DS,CH],[('attribute interpretation',DL),('generated readers',DD),('generated writers',DS),('inlining',CH+': inline_get/inline_put')],['derive(Serialize, Deserialize)'])
p('C21','A failing sink stops the writer and reports its error',
  'If the output sink fails at any write, serialization stops, returns exactly that error, and performs no further writes; what was written before is a prefix of the document that would have been produced. Without a failure the whole document is written.',
  ['fault_sequences','inputs'],'Every possible failing write during serialization of representative values, compact and indented.',
  'No test uses a sink that can fail.',
  [ST,TW,SM,CH,CS],[('error propagation',ST+': every write'),('byte stream errors',TW+': Utf8Writer')],['to_writer','Utf8Writer'])
p('C22','Malformed documents are reported where and why they break',
  'A text which is not a JSON document yields an error whose position lies within the part that breaks it (the character which does not belong, or the number, literal, escape or comment it is in) and whose kind fits: an unexpected end exactly when the text is cut short, otherwise an unexpected character, an invalid literal, an unrecognized escape or a list of what was expected. This holds however the document is read: skipped, by its type, read ahead, or by name.',
  ['inputs','histories'],'All malformed and truncated texts up to the stated length, from strings and streams, with and without comments, in every way of reading.',
  'Tests only check that a handful of malformed documents are rejected, never where or why.',
  [DT,DM,TR],[('syntax errors',DT+': every error'),('values read ahead',DT+': read_lookback_value'),('positions',TR+': position')],['DeserializeError::position','DeserializeError::message'])
p('C23','Errors say what is wrong with a value',
  'The error for a value which cannot be read says what is wrong with it: the types which would have been accepted (never the one there is), that a number is out of range, which names or index of a tag are (not) allowed, which key is missing or extra, that an array is too short or too long, or exactly the error which a validation returned, which is also its source. Displaying an error gives this and the position, with lines and columns counted from 1.',
  ['inputs','histories'],'Representative offending values in every way of reading, at arbitrary paths, streamed and read ahead; all integers, indices, names and keys up to the stated length.',
  'Tests check that a few values are rejected, and display none of the errors.',
  [DT,CD,CH,JH,TR,DD],[('kinds of errors',DT+': DeserializeErrorMessage'),('invalid names and indices',CD+': InvalidNameError, InvalidIndexError'),('wrapped errors',CH+': validate_with'),('display',DT+': Display')],['DeserializeError::message','Error::source','Display'])
p('C24','The indented layout shows the structure',
  'With an indentation configured, every item, element and entry of a written document stands on a line of its own, preceded by the indentation once for each level it is nested in, and so does the closing bracket of each container which is not empty, on its container\'s level; empty containers and plain values stay on their line. Without one (the default), the document has no line breaks.',
  ['histories','inputs'],'All sequences of writes up to the stated size, raw, through wrappers and derived, at any depth and width up to the stated bounds, with several indentations.',
  'Tests compare only a handful of small fixed documents.',
  [ST,SM,CS],[('lines and indentation',ST+': push_item, add_entry, close_list, close_object'),('configuration',ST+': TextSerializerConfig')],['TextSerializerConfig::indent'])
with open(T,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
