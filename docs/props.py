#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 docs/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True

IN, HI, CF, PR = 'inputs', 'histories', 'configurations', 'programs'
P = []
def p(id, title, statement, over, text, tests, files, mech, tech='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, tech=tech, note=note, na=na))

AI = 'path-complete abstract interpretation of MIR (value numbering), compared with a path specification'
NOTE = ('Decides every path of the named functions over uninterpreted inputs of any size; loops by one abstract iteration plus induction. '
        'Trusts rustc\'s MIR and the transfer functions for std items; external crates are uninterpreted. '
        'Arithmetic is over the integers (wrap-around at the limits of 32 bits is not modelled). '
        'A construct outside the modelled vocabulary makes an obligation undecided (reported in the evidence), not violated.')

p('A01', 'VLQ encoding of every 32-bit integer is exact',
  'Encoding any signed 32-bit integer as a base64 VLQ yields exactly the standard encoding: the sign in the lowest bit, the magnitude in groups of five bits from the least significant, every digit but the last carrying the continuation bit, and no redundant trailing digit. This holds for zero, for negative numbers and for values of the full 32-bit magnitude.',
  [IN], 'every i32', 'Tests try a few hundred small numbers; the representation has 63 sign/length classes plus the extreme.',
  ['src/base64_vlq.rs', 'src/base64.rs'], [('sign moved to the low bit', 'base64_vlq.rs to_vlq_signed'), ('digit loop with continuation bit', 'base64_vlq.rs base64vlq_encode')],
  'abstract interpretation of MIR in a bit-vector domain (known/unknown bits), partitioned by sign and bit length')
p('A02', 'Base64 digits follow the standard alphabet and nothing else is a digit',
  'The integers 0 to 63 are encoded as the 64 characters A-Z, a-z, 0-9, + and / in that order. Any other integer, negative or too large, yields no digit rather than a wrong one or a failure.',
  [IN], 'every i32', 'Tests sample; the claim covers the out-of-range integers too.', ['src/base64.rs'], [('digit table lookup with range check', 'base64.rs encode')],
  'abstract interpretation of MIR on 64 constants and two interval inputs')
p('B01', 'Ordered string set keeps first-seen positions',
  'Adding a string that is already present changes nothing unless duplicates are allowed, in which case it occupies a further position while lookups still answer its first position. Membership, index lookup, element lookup by position (none outside the range, negative included), listing and size all agree with the sequence of additions, and building from a list is adding its elements in order.',
  [IN, HI], 'every sequence of operations and every string', 'Tests perform a handful of additions; the claim is about every history, by induction over one operation on an arbitrary set.',
  ['src/array_set.rs'], [('sequence and index map updated together', 'array_set.rs add'), ('range check', 'array_set.rs at')], AI, NOTE)
p('B02', 'Mapping comparison is the lexicographic order of the mapping fields',
  'Comparing two mappings orders them by generated line, generated column, source, original line, original column and name, in that order, for all 32-bit positions. Strings compare by their contents, and an absent string or original position sorts after every present one; the result is zero exactly when all compared fields are equal.',
  [IN], 'every pair of mappings', 'Tests compare a few pairs; order must hold for all coordinate values including extremes.',
  ['src/util.rs'], [('field-wise comparison chain', 'util.rs compare_by_generated_pos_inflated'), ('optional string order', 'util.rs strcmp')], AI, NOTE)
p('B03', 'The mapping list loses nothing and comes back in generated order',
  'Whatever order mappings are added in, the list keeps every one of them (duplicates included) and hands them out ordered by generated line, then generated column. Unordered iteration visits each mapping once, with its index, in insertion order.',
  [IN, HI], 'every insertion order of valid mappings', 'The sorted/unsorted shortcut depends on the whole insertion history; tests use two or three orders.',
  ['src/mapping_list.rs'], [('sorted flag and last mapping', 'mapping_list.rs add'), ('sort on demand', 'mapping_list.rs to_array')],
  AI + '; inductive representation invariant', NOTE)
p('B04', 'Search answers with the nearest element, and with the first of equal ones',
  'Searching a sorted list of any length answers with the position of an element equal to the needle (the first listed of several equal ones); failing that with the nearest smaller or nearest larger one, as the bias asks (smaller by default), and with -1 if there is none or the list is empty. Answers are always -1 or a valid position, the search never fails, and every step narrows the range that is left.',
  [IN], 'every list length, needle and comparison sorted accordingly', 'Tests search short fixed lists; off-by-one errors of the bracket need particular lengths and positions.',
  ['src/binary_search.rs'], [('halving of the bracket', 'binary_search.rs recursive_search'), ('step back to the first equal element', 'binary_search.rs search')],
  AI + '; bracket invariant by induction over one step, linear arithmetic by Fourier-Motzkin elimination', NOTE)
p('C01', 'Adding a mapping registers its source and name and nothing else',
  'Adding an accepted mapping appends its source (if any) to the list of sources and its name (if any) to the list of names unless already there, and keeps the mapping itself unchanged. File, source root, stored contents and validation setting are untouched, and a new generator starts empty with the given file, root and validation setting.',
  [IN, HI], 'every mapping added to a generator in any state', 'Tests add two or three mappings with at most two sources.',
  ['src/generator.rs'], [('registration before insertion', 'generator.rs add_mapping')], AI, NOTE)
p('C02', 'Each emitted field is the difference to the previous emitted value',
  'In the generated text, the generated column of a mapping is encoded relative to the previous emitted mapping on the same line (or zero at the start of a line), and source index, zero-based original line, original column and name index relative to their previously emitted value (zero at first). A mapping without source has one field, one with a source four, one with a name five, and indices refer to the listed sources and names.',
  [IN, HI], 'every list of valid mappings', 'A wrong running value only shows for particular neighbours (a field absent in between, a line change, a dropped duplicate); tests use a few fixed lists.',
  ['src/generator.rs'], [('running previous values', 'generator.rs serialize_mappings')], AI + '; loop invariant on running values derived from the emitted differences', NOTE)
p('C03', 'Lines and segments are separated correctly and no mapping is lost',
  'The generated text has one semicolon per line advanced (so line n of the text is generated line n, counting from 1) and a comma between mappings of the same line. Every mapping appears once, in generated order, except that a mapping equal to its immediate predecessor on the same line is emitted only once; a mapping differing in any field is never dropped.',
  [IN], 'every list of valid mappings', 'Tests fix a few layouts; skipped lines, first line greater than one and equal neighbours combine freely.',
  ['src/generator.rs'], [('line/segment separator logic and duplicate check', 'generator.rs serialize_mappings')], AI + '; loop summary over one abstract iteration', NOTE)
p('C04', 'The generated document carries what was put in',
  'The serialised document has version 3, the sources and names in registration order, the mappings text, and the file and source root exactly as given (absent when not given). It never has sections.',
  [IN, HI], 'every generator state', 'Tests check two documents.', ['src/generator.rs'], [('document assembly', 'generator.rs as_json')], AI, NOTE)
p('C05', 'Embedded contents line up with the sources',
  'When any content has been stored, the embedded contents have exactly one entry per listed source, in the same order, each being the content stored for that source (after making the source relative to the source root, when there is one) or an explicit gap. Without stored contents the member is absent.',
  [IN, HI], 'every set of sources and stored contents', 'Tests store content for all sources or none; misalignment needs a source without content before one with.',
  ['src/generator.rs'], [('one entry per source', 'generator.rs generate_sources_contents')], AI, NOTE)
p('C06', 'Storing content affects exactly that source',
  'Setting content for a source stores it under that source, relative to the source root when there is one, replacing earlier content; setting it to nothing removes it. No other source\'s content nor anything else in the generator changes.',
  [IN, HI], 'every history of content updates', 'Tests set content once or twice.', ['src/generator.rs'], [('insert or remove under the relative key', 'generator.rs set_source_content')], AI, NOTE)
p('C07', 'Producing the document does not change the generator',
  'Serialising leaves file, source root, sources, names, contents and the set of mappings as they were, so it can be repeated and interleaved with further additions. At most the stored order of mappings is normalised.',
  [HI], 'every history with serialisations at any point', 'Tests serialise once.', ['src/generator.rs', 'src/mapping_list.rs'], [('read-only serialisation', 'generator.rs as_json')], AI + ' (frame condition on every path)', NOTE)
p('C08', 'A mapping is rejected exactly when validation is on and it is invalid',
  'With validation on, adding a mapping fails exactly when it is not one of: generated position only (line at least 1, column at least 0, no original, source or name), or generated and original position (lines at least 1, columns at least 0) with a source and optionally a name. With validation skipped every mapping is accepted, and a valid mapping is accepted always.',
  [IN, CF], 'every mapping and both settings', 'Tests try single invalid mappings; the acceptance region has 2^3 presence patterns times four bounds.',
  ['src/generator.rs'], [('validity predicate', 'generator.rs validate_mapping')], AI, NOTE)
p('C09', 'Documents are written and read under the members of the format',
  'A document is written with the members of the source map format: version, sources, names, mappings, file, sourceRoot, sourcesContent, sections; a section with offset, map and url; an offset with line and column. Each carries the value of its own field, an absent optional one (except the url of a section, which may be null) is left out, and an empty list is still written. Reading puts each of those members into the same field, reads a missing or null optional one as absent, and ignores members it does not know.',
  [IN], 'every combination of present and absent members', 'Tests read and write two or three documents.', ['src/source_map.rs'], [('serde attributes of the document types', 'source_map.rs SourceMapJson, Section, Position')],
  AI + ' of the derived reader and writer', NOTE)
p('D01', 'A document is accepted or rejected by its version and loaded as given',
  'Loading a plain document from text, from parsed form or from a generator fails on malformed text and on any version other than 3, and otherwise succeeds for every document, including one without sources, names, mappings or contents. The loaded document keeps its members, the map URL and one resolved source per listed source in order, which is what it lists as its sources; scoped use hands the callback exactly that consumer once.',
  [IN], 'every document and map URL', 'Tests load well-formed samples with all members present.', ['src/consumer.rs'], [('version test and resolution of the sources', 'consumer.rs BasicConsumer::new, from_source_map_json, from_source_map, consume')], AI, NOTE)
p('D02', 'Original lookup answers with the closest mapping on the same line',
  'Asking for the original of a generated position (lines from 1, columns from 0) answers with the mapping found on that very generated line under the given bias (greatest lower bound by default), reporting one-based lines, its resolved source, its own name and span end. It answers with nothing when there is no mapping on the line, when the mapping has no original, or when the mappings text cannot be parsed, and fails only for a line below 1 or a column below 0.',
  [IN, HI], 'every document, position, bias and earlier queries', 'Tests query points of one document; base shifts, names and out-of-range indices need others.',
  ['src/consumer.rs'], [('line test and 0/1-based conversion', 'consumer.rs original_position_for')], AI, NOTE)
p('D03', 'Generated lookup answers with the closest mapping of that source',
  'Asking for the generated position of an original position in a source answers with the mapping found for that source, line and column under the given bias (greatest lower bound by default), with one-based lines, its own source and name. It answers with nothing for an unknown source, when the mapping found belongs to another source, or when the mappings cannot be parsed; the span end is reported as found, and as open (-1) only once column spans have been computed. For a listed source it fails exactly for a line below 1 or a column below 0.',
  [IN, HI], 'every document, position, bias and earlier queries', 'Tests query points of one document.',
  ['src/consumer.rs'], [('source check and 0/1-based conversion', 'consumer.rs generated_position_for')], AI, NOTE)
p('D04', 'All generated positions are those listed for the requested source position',
  'Asking for all generated positions of a source, one-based original line and optional column answers with all that the mapping list holds for exactly that source, zero-based line and column: without a column those of the line, or of the next line that has any; with one those of that column, or of the next one listed on the line. An unknown source or unparsable mappings answer with an empty list; for a listed source it fails exactly for a line below 1 or a column below 0.',
  [IN, HI], 'every document, source, line and optional column', 'Tests ask with a column on one document.',
  ['src/consumer.rs'], [('line conversion and column pass-through', 'consumer.rs all_generated_position_for')], AI, NOTE)
p('D05', 'Iteration visits every mapping exactly once in the requested order',
  'Iterating the mappings of a document calls back once for each mapping, in generated order or in original order as requested, to the end. Unparsable mappings yield no call.',
  [IN, HI], 'every document and both orders', 'Tests count a sample.', ['src/consumer.rs'], [('traversal by requested order', 'consumer.rs each_mapping')], AI + '; loop summary with callback trace', NOTE)
p('D06', 'Source content is that of the requested source',
  'Asking for a source\'s content answers with the content at that source\'s own position, or nothing when the document has none there; for a source that is not listed it fails when asked to (the default) and answers with nothing otherwise. "All contents present" is reported only if every listed source has content, and denied only if contents are absent, too few, or one of them is missing.',
  [IN, HI], 'every document and source', 'Tests use complete contents.', ['src/consumer.rs'], [('index into contents', 'consumer.rs source_content_for'), ('completeness test', 'consumer.rs has_contents_of_all_sources')], AI, NOTE)
p('D07', 'A source name resolves the same way in every query, now and later',
  'In every query a source name is first taken relative to the map and then relative to the source root, and the answer refers to the first listed source that resolves to that URL. Repeating a query, in whatever order and after whatever other queries, resolves the name identically.',
  [IN, HI], 'every history of queries on a document', 'The cache makes answers depend on history; tests ask once.', ['src/consumer.rs'],
  [('resolution order and lookup cache', 'consumer.rs find_source_index')], AI + '; inductive cache invariant', NOTE)
p('D09', 'Queries leave the loaded document as it was',
  'No query on a plain document (lookups, content, sources, iteration) changes the document, its resolved sources, its map URL or whether column spans have been computed; mappings already parsed, and spans already computed on them, are kept. Likewise no query on an indexed document changes the document, the number, order or offsets of its sections, or computes column spans on its own.',
  [HI], 'every history of queries', 'Tests make one or two queries per consumer.', ['src/consumer.rs'], [('lazily parsed mappings', 'consumer.rs BasicConsumer'), ('section list', 'consumer.rs IndexedConsumer')],
  AI + ' (frame condition on every path)', NOTE)
p('D11', 'Column spans are computed once, and reported as computed only then',
  'Asking for column spans computes them on the parsed mappings and records that; asking again changes nothing. When the mappings cannot be parsed nothing is recorded, and nothing else in the document changes either way.',
  [IN, HI], 'every document and history', 'Tests compute spans once on a good document.', ['src/consumer.rs'], [('computed flag', 'consumer.rs compute_column_spans')], AI, NOTE)
p('D12', 'A document is opened as indexed exactly when it has sections',
  'Creating a consumer from text gives an indexed consumer exactly when the document has a sections member (even an empty one) and a plain one otherwise, each loaded from that document and map URL; malformed text is an error, not a failure. The accessors hand out the consumer of the requested kind, and otherwise fail (as_) or answer nothing (try_as_).',
  [IN], 'every text', 'Tests open two documents.', ['src/consumer.rs'], [('dispatch', 'consumer.rs create_consumer'), ('accessors', 'consumer.rs Consumer')], AI, NOTE)
p('E01', 'Sections are accepted exactly when their offsets do not decrease',
  'An indexed document is rejected when some section starts before the section listed just before it (by line, then by column), wherever in the document that is. It is not rejected for its order otherwise, including equal offsets and a first section at any non-negative offset.',
  [IN], 'every list of section offsets', 'Tests load ordered sections only.', ['src/consumer.rs'], [('comparison with the previous offset', 'consumer.rs IndexedConsumer::from_source_map_json')], AI + '; loop-carried variable resolved by induction', NOTE)
p('E02', 'An indexed document is loaded section by section, or rejected',
  'Loading an indexed document keeps one section per listed section, in order, each with its own offset and its own map loaded with the given map URL. Malformed text, a version other than 3 and a section that refers to a URL are rejected.',
  [IN], 'every indexed document', 'Tests load one sample.', ['src/consumer.rs'], [('section construction', 'consumer.rs IndexedConsumer::from_source_map_json')], AI, NOTE)
p('E03', 'Queries on an indexed document reach the right section',
  'An original lookup is answered by the last section starting at or before the position (columns count from 0, lines from 1; of several sections starting there, the first listed), and by none if the position precedes all sections. Lookups by source are answered by the first section that lists the source, and by none only if no section does.',
  [IN, HI], 'every list of sections and query', 'Tests have two sections and a few points.', ['src/consumer.rs'], [('section search comparator', 'consumer.rs original_position_for'), ('first section listing the source', 'consumer.rs find_source_index')], AI + '; section search by induction over one step (B04)', NOTE)
p('E04', 'Section offsets are applied exactly once in both directions',
  'A generated position of an indexed document is passed to its section with the section\'s line offset removed, and its column offset removed only on the section\'s first line; answers, lists of positions and iterated mappings come back with the line offset added, and the column offset (position and span end) only on the section\'s first line. In lists and iteration a span left open is closed at the start of the next section when that lies on the same line and column spans have been computed; everything else is passed through unchanged, and iteration visits every section in order.',
  [IN, HI], 'every list of sections, query and mapping', 'Tests use offsets at column zero mostly.', ['src/consumer.rs'], [('shift by the section offset', 'consumer.rs IndexedConsumer lookups and each_mapping')], AI + '; stored offset convention derived from the constructor', NOTE)
p('E05', 'No query on an indexed document fails because of its own locking',
  'Loading, listing, looking up, iterating and computing spans on an indexed document never fail or block because a section list is already borrowed or locked by the same operation.',
  [IN, HI], 'every path of every operation', 'The failing interleaving of borrows depends on which branch runs.', ['src/consumer.rs'], [('borrow scopes', 'consumer.rs IndexedConsumer methods')], 'borrow-state (typestate) analysis on MIR paths', NOTE)
p('E06', 'Sources, contents and spans of an indexed document cover all sections',
  'The sources of an indexed document are those of its sections, concatenated in order. Content of a source comes from the first section that has it, and a missing source is reported only after every section has been asked; "all contents present" holds exactly when it holds for every section; and computing column spans reaches every section.',
  [IN, HI], 'every list of sections', 'Tests have two sections.', ['src/consumer.rs'], [('loops over the sections', 'consumer.rs IndexedConsumer')], AI + '; loop summaries', NOTE)
UT = ['src/util.rs']
UNOTE = NOTE + ' URL parsing and resolution (the url crate) are uninterpreted functions of their arguments.'
p('F01', 'URL functions answer for every text and never fail',
  'Resolving a source URL, joining and relativising answer with a string for every pair of strings, however malformed. References are told apart as scheme-relative ("//..."), path-absolute ("/..."), absolute (scheme, colon, slash) and path-relative (everything else, the empty text included). The placeholder base a reference is resolved against has room for every ".." in it and a directory name that does not occur in it.',
  [IN], 'every string', 'Tests use a table of well-formed URLs; failures hide in malformed hosts, ports and long ".." chains.', UT,
  [('kinds of reference', 'util.rs get_url_type'), ('placeholder base', 'util.rs build_safe_base, build_unique_segment'), ('errors of the parser answered with the input', 'util.rs create_safe_handler, with_base')], AI + '; loop summary of the placeholder base', UNOTE)
p('F02', 'Source URLs are composed of map URL, source root and source in this order',
  'A source URL is the normalised source, joined to the source root when there is a non-empty one (a leading slash of the source is then dropped, exactly one), joined to the directory of the map URL when there is a non-empty one. An empty root or map URL counts as absent, and the file name of the map URL does not take part.',
  [IN], 'every root, source and map URL', 'Tests sample combinations of kinds.', UT, [('composition', 'util.rs compute_source_url'), ('directory of the map URL', 'util.rs TRIM_FILENAME')], AI, UNOTE)
p('F03', 'A relative path climbs out of what differs and keeps query and fragment',
  'The relative path from one URL to another consists of one ".." for each directory of the first beyond the longest common leading part of the two paths, then the rest of the second path in order, joined by slashes. The query and fragment of the target follow with "?" and "#" exactly when present. A text that is no URL is answered with the target unchanged.',
  [IN], 'every pair of URLs', 'Tests sample a few directory depths.', UT, [('common prefix loop and tail', 'util.rs compute_relative_url')], AI + '; loop invariant of the common prefix', UNOTE)
p('F04', 'Joining follows the kinds of root and path',
  'An absolute path is answered normalised whatever the root. Otherwise an absolute root resolves the path against the root taken as a directory; a scheme-relative path, or a path-absolute one under a root without host, is only normalised; the other roots without a scheme resolve the path against the root on a placeholder host that does not show in the answer. A path that cannot be resolved is answered unchanged.',
  [IN], 'every root and path', 'Tests sample the sixteen combinations with one text each.', UT, [('dispatch on the kinds', 'util.rs join'), ('root as directory', 'util.rs ENSURE_DIRECTORY')], AI, UNOTE)
p('F05', 'A relative URL is given only within the same origin',
  'Relativising answers a relative path only when both texts are of the same kind, both resolve, and scheme, user, password, host and port agree. In every other case the answer is the normalised target, unchanged if it cannot be resolved.',
  [IN], 'every root and target', 'Tests vary scheme and host, but not user, password and port.', UT, [('comparison of the origins', 'util.rs replace_if_possible, relative')], AI, UNOTE)
AL = ['src/array_set.rs', 'src/base64.rs', 'src/base64_vlq.rs', 'src/binary_search.rs', 'src/consumer.rs', 'src/generator.rs', 'src/mapping.rs', 'src/mapping_list.rs', 'src/source_map.rs', 'src/util.rs']
CNOTE = ('Decides every function body and every static of the crate from MIR and HIR; external crates (serde_json, url, regex, source-map-mappings, lazy_static) are taken not to have such effects themselves. '
         'A use the rule cannot classify is undecided (reported in the evidence), not violated.')
p('G01', 'The library has no effect but on the objects it is given',
  'No function of the library reads the environment, the clock, files, the network or the standard streams, writes any output, starts threads or ends the process. It keeps no state between calls outside the objects the caller holds: global data are built once, from constants, and never change.',
  [IN, HI], 'every call and every history of calls in a process', 'A hidden global shows only after particular earlier calls, possibly on other objects; tests run each object in a fresh state.', AL,
  [('global data', 'util.rs lazy_static items'), ('all other functions', 'src/*.rs')], 'effect analysis over the call graph (MIR function references) and type-based check of statics', CNOTE)
p('G02', 'Answers never depend on the order of a hash table',
  'Repeating the same operations in another process gives the same answers and byte-identical documents: no list, text or document is put in the order in which a hash table happens to enumerate its items, and none depends on addresses or random hash seeds.',
  [IN, HI], 'every operation and every hash seed', 'The order differs from process to process; a test sees one seed at a time and small tables.', AL,
  [('tables read by key only', 'array_set.rs, generator.rs, consumer.rs')], 'flow analysis of hash-table iterators to order-revealing consumers on MIR', CNOTE)
p('G03', 'The library is entirely safe Rust',
  'The library contains no unsafe block, function or implementation and calls no unchecked operation, so that no input and no sequence of calls can corrupt memory, read out of bounds or build a malformed string.',
  [IN, HI, PR], 'every program that uses the library', 'Tests cannot show the absence of undefined behaviour.', AL, [('all functions', 'src/*.rs')], 'HIR walk for unsafe code, MIR query for unchecked operations', CNOTE)
p('G04', 'A clone equals its original and is independent of it',
  'Cloning a mapping, a position, a document (with its sections) or a string set gives a value equal to the original in every field. The two share nothing: changing one never shows in the other.',
  [IN, HI], 'every value of the cloned types', 'Tests clone nothing; the library clones everything it is given and hands out.', ['src/mapping.rs', 'src/source_map.rs', 'src/array_set.rs'],
  [('Clone implementations', 'mapping.rs, source_map.rs, array_set.rs')], AI + '; type-structure check for shared parts', NOTE)
p('G05', 'Arithmetic on positions and indices neither overflows nor loses bits',
  'As long as lines, columns, offsets and list lengths stay below 2^30, no arithmetic on them in generating, loading, querying or comparing overflows its 32-bit type. No conversion to a narrower integer type (8 or 16 bits) changes a value.',
  [IN], 'every coordinate below 2^30', 'Tests use coordinates below a few hundred; minified bundles reach columns of millions.', AL,
  [('index computation', 'array_set.rs at, binary_search.rs'), ('position shifts', 'consumer.rs'), ('differences', 'generator.rs serialize_mappings'), ('comparison', 'util.rs')],
  'interval analysis (affine forms over value numbers) of every checked arithmetic operation and narrowing conversion', NOTE.replace('Arithmetic is over the integers (wrap-around at the limits of 32 bits is not modelled). ', ''))
p('G06', 'Every call terminates',
  'No public function runs for ever, whatever documents, positions, URLs, lists or numbers it is given: every loop ends after finitely many iterations and every recursion after finitely many calls.',
  [IN], 'every argument of every public function', 'A test that hangs shows one input; most loops end on ordinary ones and fail on equal elements, an empty list, or a text containing everything searched for.', AL,
  [('loops', 'binary_search.rs search, generator.rs serialize_mappings, util.rs build_unique_segment, compute_relative_url, base64_vlq.rs base64vlq_encode'), ('recursion', 'binary_search.rs recursive_search')],
  'termination measures (guards, shrinking lists, linear ranking functions by Fourier-Motzkin elimination) for every loop and recursion; repeated states as counterexamples', NOTE)
exec(open(os.path.join(V, 'docs', 'props_more.py')).read())

def main():
    from sa.rules import RULES
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            if not x['na'] and x['id'] not in RULES: continue
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['tests'],
                'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']], 'hook_needed': None}}, ensure_ascii=False) + '\n')
            assert len(x['title']) <= 80, x['title']
    m = {'version': 1, 'setup_cmd': './check.sh --setup',
         'checks': [{'property': x['id'], 'quick_cmd': './check.sh ' + x['id'], 'thorough_cmd': './check.sh ' + x['id'],
                     'technique': 'static analysis: ' + x['tech'], 'level': 'other', 'level_note': x['note'] or NOTE} for x in P if not x['na'] and x['id'] in RULES],
         'not_applicable': [{'property': x['id'], 'reason': x['na']} for x in P if x['na']],
         'notes': 'No hooks in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.txt.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    d = open(os.path.join(V, 'docs', 'DESIGN.tmpl.md')).read()
    from sa.rules import EXPL
    d = d.replace('@@TABLE@@', '\n'.join('| %s | %s | %s: %s |' % (x['id'], x['title'], x['tech'], ' '.join((EXPL.get(x['id']) or RULES[x['id']].__doc__ or '').split()).replace('|', '/')) for x in P if not x['na'] and x['id'] in RULES))
    d = d.replace('@@NA@@', '\n'.join('* %s (%s): %s' % (x['id'], x['title'], x['na']) for x in P if x['na']))
    sd = os.path.join(V, 'docs', 'seeded.md')
    d = d.replace('@@SEEDED@@', open(sd).read() if os.path.exists(sd) else '')
    open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
    print(len(m['checks']), 'checks;', [x for x in RULES if x not in {y['id'] for y in P}], 'rules without property')
if __name__ == '__main__': main()
