"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
PROPS = []
HPP = 'strtk.hpp'


def prop(pid, title, statement, over, qtext, why, mech, observe=(), state=(), note='', technique='', files=(HPP,)):
    PROPS.append(dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
        why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None),
        note=note, technique=technique))


prop('T01', 'Tokenizer yields exactly the delimiter-separated tokens, in order',
     'For every sequence and delimiter predicate, iterating a tokenizer yields exactly the tokens delimited by the predicate: none for an '
     'empty sequence, otherwise one more than the number of delimiters (empty tokens included), every element appearing in exactly one token or '
     'being a delimiter. Delimiter compression merges each delimiter run into one separator, and the include options attach the first delimiter or '
     'the whole run to the preceding token. Iteration never reads outside the sequence, always terminates, and is the same for every predicate form '
     'that accepts the same delimiters and for repeated or re-assigned use of one tokenizer.',
     ['inputs', 'configurations'], 'every text or integer sequence, delimiter predicate, option set and tokenizer re-use',
     'The tests split a handful of fixed strings and mostly print; the property quantifies over every sequence, delimiter set and option combination.',
     [('strtk::tokenizer / tokenizer_iterator', 'strtk.hpp:2335'), ('delimiter predicates', 'strtk.hpp:1019')],
     ['ranges produced by tokenizer iteration'])

prop('T02', 'split, split_n, split_pair and for_each_token agree with tokenization',
     'split reports every token of the input in order and returns their number, split_n reports and counts exactly the first min(n, available) '
     'of those tokens, and for_each_token visits the same tokens; empty tokens, trailing delimiters, compression and the include options are '
     'treated as the tokenizer treats them. split_pair succeeds exactly when there is a delimiter followed by a non-empty remainder and yields the parts '
     'before and after the first delimiter. No overload reads outside the input or depends on anything but the text, the delimiters and the options.',
     ['inputs', 'configurations'], 'every text, delimiter set, option set and n',
     'Tests use a few literal strings with one or two option values.',
     [('split / split_n / split_pair', 'strtk.hpp:3347'), ('for_each_token', 'strtk.hpp:4134')],
     ['output iterators of the split functions'])

prop('T03', 'Fixed-width, run-based and regex splitting partition the text correctly',
     'Offset splitting cuts the text at exactly the given widths (optionally rotating through them, and optionally keeping the remainder); splitting on '
     'consecutive elements reports exactly the leftmost non-overlapping blocks of n elements, or the maximal runs of at least n, that match the '
     'value or predicate; regex splitting reports exactly the matches of the expression in order. Results contain no element from '
     'outside the text, and limits on the number of tokens are obeyed.',
     ['inputs', 'configurations'], 'every text, width list, run length, character class, match mode and expression in the generated family',
     'Tests show one example each; run boundaries, remainders at the end of text and degenerate widths are not covered.',
     [('offset_predicate', 'strtk.hpp:3891'), ('split_on_consecutive / split_regex', 'strtk.hpp:3752')],
     ['output iterators of the split functions'])

prop('T04', 'Token consumers and filters accept and store exactly what they describe',
     'Each token consumer (exact and case-insensitive expectation, wildcard pattern, value range, trimming, case conversion, fixed-size array, '
     'truncated integer, fixed-point decimal) accepts exactly the tokens it describes, stores exactly the value they denote, and leaves its target '
     'untouched when it refuses; inside a parse, one refusal makes the parse fail. Token filters (match lists, wildcard, non-empty, size predicates) let '
     'through exactly the tokens that satisfy the filter, in order, for both polarities.',
     ['inputs', 'configurations'], 'every token, pattern, range, trim set, target size and polarity in the generated family',
     'One truncated-integer example is in the suite; boundary values, empty tokens, size mismatches and refusals are untested.',
     [('token consumer implementations', 'strtk.hpp:16307'), ('filters and size predicates', 'strtk.hpp:7950'), ('truncated_int / decimal_sink', 'strtk.hpp:15133')],
     ['consumer verdicts and targets', 'filter outputs'])

prop('P01', 'Record parsing binds the leading tokens to variables or fails',
     'Parsing a record into N variables succeeds exactly when it has at least N delimiter-separated tokens (delimiter runs count as one separator) '
     'and each of the first N converts to its variable\'s type; then every variable holds its token\'s value and surplus tokens are ignored. On failure '
     'no variable at or after the first refused token is modified, and no byte outside the record is read. The pointer, iterator, string, '
     'file-line and argument-vector forms agree for every arity, and constructing or joining values yields text that parses back to them.',
     ['inputs', 'configurations'], 'every record, delimiter set, arity 1..16 and mix of variable types, including too few tokens and refused tokens',
     'The suite parses a few well-formed lines; refusal positions, arities and delimiter runs are not covered.',
     [('parse overloads', 'strtk.hpp:8052'), ('parse_line', 'strtk.hpp:10437'), ('argc/argv parse', 'strtk.hpp:10120'), ('construct/join', 'strtk.hpp:10950')],
     ['return values and variables'])

prop('P02', 'Parsing into containers stores every convertible token once, in order',
     'Parsing text into a sequence, set, queue, stack, priority queue or array appends exactly the values of the convertible tokens, in token order, '
     'without disturbing existing elements; the unbounded forms return the number of tokens and the bounded forms consider only the first n tokens and '
     'return how many elements were added. A container behind leading scalar variables receives exactly the remaining tokens and the '
     'parse fails when the record is too short or a token is refused. File forms consume exactly one line per call.',
     ['inputs', 'configurations'], 'every text, container kind, element type, option set, bound n and number of leading scalars',
     'A few containers with well-formed numbers are exercised; the remaining kinds, bounds, refused tokens and tails are not.',
     [('parse/parse_n container overloads', 'strtk.hpp:8675'), ('container_adder', 'strtk.hpp:8861'), ('type inserters', 'strtk.hpp:2608')],
     ['container contents and return values'])


prop('P03', 'Nested parsing fills containers, user types and user records from one token',
     'A container sink given a token splits it by its own delimiters and options and appends the convertible elements to its container, in order: without a count it succeeds when the token has at least one element, with a count n exactly '
     'when n elements were added by the first n. A sink keeps its delimiters, count and container until they are changed, and inside a record its refusal fails the parse and leaves later targets alone. A registered user-defined conversion decides '
     'value and refusal wherever that type is parsed (records, containers, sinks, grids), and a registered user record parses exactly like its members.',
     ['inputs', 'histories'], 'every token text, delimiter set, split option, count, container kind and element type',
     'Tests only print two nested parses; the property quantifies over texts, counts, reuse of a sink and failures inside a record.',
     [('sink_type', 'strtk.hpp:15409'), ('strtk_string_to_type_begin', 'strtk.hpp:446'), ('strtk_parse_begin', 'strtk.hpp:10303')], ['verdict and content of the containers and variables'])

prop('N01', 'Integer, byte and boolean conversion is exact and range checked',
     'Converting text to any integer type succeeds exactly when the text is an optional sign (minus only for signed types) followed by at least one '
     'digit and nothing else, and the value is representable in the type, limits included; leading zeros never matter. The target then holds exactly that value, otherwise it is '
     'untouched (or the throwing form throws). One-byte types take exactly one character as is, and every pointer, iterator, string and range form agrees '
     'without reading outside the text.',
     ['inputs'], 'every text and every integer width and signedness',
     'Tests convert a few in-range numbers; off-by-one limits, wrap-around values and neighbouring characters of the digits need systematic coverage.',
     [('string_to_type_converter', 'strtk.hpp:375'), ('integer converters', 'strtk.hpp:17430'), ('numeric<T> limits', 'strtk.hpp:16944')],
     ['return value and target of each conversion'])

prop('N02', 'Real conversion accepts well-formed decimals and is accurate',
     'Converting text to float, double or long double succeeds for an optional sign, digits with an optional point (at least one digit) and an optional '
     'exponent of up to four significant digits, and for the inf/infinity/nan words (a number may carry one type suffix f, F, l or L), and refuses any other text made of digits, signs, points, exponents and '
     'foreign characters, leaving the target untouched. The value is within a few units in the last place of the exact one (double precision scaling for long double), overflow gives a '
     'signed infinity and underflow zero or a denormal; the optional look-up-table and unrolled configurations behave the same and nothing outside the text is read.',
     ['inputs', 'configurations'], 'every decimal text up to several hundred digits with exponents up to 4 digits, three real types, three build configurations',
     'One example prints parsed reals; the scaling table has hundreds of entries and the accuracy claim covers every digit string.',
     [('real converter', 'strtk.hpp:17671'), ('pow10', 'strtk.hpp:16857')],
     ['return value and target of each conversion'])

prop('N03', 'Formatting a value gives its decimal text, which parses back to it',
     'type_to_string of an integer of any width is its canonical decimal text (minus sign, no leading zeros or plus) including the type limits, a byte formats '
     'as that character, a string as itself and a bool as 0 or 1. A real formats as text denoting it to ten significant digits. Parsing the text back '
     'with the same type yields the integer, byte or float exactly, and a double or long double to those ten digits; previous string content is replaced.',
     ['inputs'], 'every value of every supported type',
     'The formatter is a digit-group table walk; tests format a few values, the property covers every group in every position and the limits.',
     [('type_to_string', 'strtk.hpp:424'), ('type_to_string_converter_impl', 'strtk.hpp:17934'), ('rev_3digit_lut', 'strtk.hpp:16801')],
     ['formatted text'])

prop('N04', 'Fast digit checks and conversions agree with the checked ones',
     'For every length, the fast digit checks are true exactly when every character (after an optional sign in the signed forms) is a decimal digit; '
     'lengths beyond those supported are refused. On valid digit text that fits the type the fast conversions (fixed length, run-time length, string, signed) give the same value as '
     'the checked conversion, with the digit check requested a non-digit is refused (target unchanged, or zero in the fixed-length forms), and no byte outside the text is read.',
     ['inputs'], 'every digit text of 0..20 characters and every single-character corruption of it',
     'Each length has its own hand-unrolled specialisation; tests touch few of them.',
     [('strtk::fast', 'strtk.hpp:12872')],
     ['return values and targets'])


prop('C01', 'Hexadecimal encoding and decoding are exact inverses',
     'Encoding any byte string gives exactly two upper-case hexadecimal digits per byte in order; decoding a non-empty even-length text of hexadecimal digits in '
     'any case gives back exactly the bytes. Decoding refuses empty and odd-length text without writing anything. All pointer, pair and string overloads agree, '
     'leave the input unchanged, and touch no byte outside the input and an output of exactly the needed size.',
     ['inputs'], 'every byte string, letter case and overload',
     'Tests round-trip one fixed buffer; table entries, case mixes, sizes and exact output extents need every value.',
     [('convert_bin_to_hex / convert_hex_to_bin', 'strtk.hpp:4399')], ['outputs and return values'])
prop('C02', 'Base64 encoding and decoding are exact inverses',
     'Encoding any byte string gives its standard padded base64 text and reports its length; decoding that text, with or without its padding, gives back exactly '
     'the bytes and reports their number. All overloads agree, replace previous content and touch no byte outside the input and an output of exactly the needed size. '
     'Decoding arbitrary text stays within the input and three output bytes per four characters.',
     ['inputs'], 'every byte string and, for containment, every text',
     'Tests round-trip fixed strings; remainders, every letter in every position and hostile text are not covered.',
     [('convert_bin_to_base64 / convert_base64_to_bin', 'strtk.hpp:4578')], ['outputs and return values'])
prop('C03', 'Hex and base64 sinks store exactly the value their text denotes or refuse it',
     'A hex number sink accepts exactly one or more hexadecimal digits (optionally prefixed 0x/0X) that fit the integer and stores their value; a base64 number '
     'sink accepts base64 text of at most the integer\'s bytes and stores their big-endian value, refusing foreign characters; a hex string sink accepts a positive even number of digits and '
     'stores the bytes. On refusal the sink is not valid, a number keeps its old value and an enclosing record parse fails; a sink can be re-used and copied, and all input forms agree.',
     ['inputs', 'histories'], 'every text, integer type and sequence of uses of one sink',
     'No test covers these sinks; short text, over-long text, prefixes and re-use after a refusal matter.',
     [('hex_to_number_sink', 'strtk.hpp:14878'), ('base64_to_number_sink', 'strtk.hpp:14976'), ('hex_to_string_sink', 'strtk.hpp:15075')], ['valid() and target after each assignment'])


prop('B01', 'What the binary writer writes the binary reader reads back',
     'For every sequence of supported values (scalars, strings, pairs, containers and nested containers, user records, arrays, pointer+length data, short and '
     'pascal strings, fixed-width text) written to a large enough buffer, each write succeeds and lays down exactly its native encoding with a 32-bit element count '
     'where one is stored; reading with the same types yields equal values (vectors and strings replaced, other containers added to) and both sides report the exact position. '
     'Mark, reset, rewind, seek and clear behave as a position with a mark stack, and buffers streamed through files keep their bytes.',
     ['inputs', 'histories'], 'every sequence of typed values and of position operations',
     'One example round-trips one record layout; element types, nesting, empty containers and positions are combinatorial.',
     [('binary::reader', 'strtk.hpp:13898'), ('binary::writer', 'strtk.hpp:14365'), ('short_string/pascal_string', 'strtk.hpp:14781')], ['buffer bytes, positions, values read'])
prop('B02', 'Binary reader and writer never leave their buffer and refuse what does not fit',
     'A write succeeds exactly when the whole value fits in the remaining buffer and a read exactly when the whole encoded value, including every length and count '
     'stored in it, lies within the remaining bytes; this holds for truncated and arbitrary corrupted bytes read with any types. A refusal changes no byte beyond the position, the '
     'position never passes the end, no memory outside the buffer is touched, and text fields or short strings that exceed their width or length limit are refused.',
     ['inputs'], 'every buffer capacity, truncation point, byte content and type sequence',
     'Tests use buffers that are large enough and bytes that were just written.',
     [('buffer_capacity_ok', 'strtk.hpp:14254'), ('container reads', 'strtk.hpp:14241'), ('padded writes', 'strtk.hpp:14352')], ['verdicts, positions, buffer bytes'])
prop('B03', 'Byte order conversions reverse bytes exactly and agree with stored order',
     'The byte order conversions of every 16, 32 and 64-bit integer reverse its bytes and are their own inverse, native_to_be stores the most significant byte first '
     'and native_to_le the least significant first, and the corresponding reads give the original value; a full or exhausted buffer refuses.',
     ['inputs', 'configurations'], 'every integer of each width and sign', 'Not covered by the tests at all; mask errors only show for particular bytes.',
     [('details::convert', 'strtk.hpp:13772'), ('native_to_be / be_to_native', 'strtk.hpp:14597')], ['stored bytes and values'])

prop('G01', 'A token grid holds exactly the rows and tokens of its text',
     'Loading any text with any set of row and column delimiters gives one row per non-empty piece between row delimiters, each split into tokens by the column split option, with the '
     'right row, minimum and maximum column counts; every token is the right span of the buffer and anything outside the grid is null. Row accessors and every row parse (values, indices, '
     'ranges, containers, bounded, checked) deliver the tokens in order and refuse exactly the tokens that do not convert and the ranges that do not fit.',
     ['inputs', 'configurations'], 'every text, delimiter set, split option, constructor or load form, column range and target type',
     'The grid test loads a few rectangular samples; ragged rows, empty tokens, delimiter runs at the ends and non-default split options are what real data has.',
     [('token_grid::load', 'strtk.hpp:7477'), ('row_processor', 'strtk.hpp:5442'), ('row_type', 'strtk.hpp:5566')], ['tokens, spans, counts, row parse results'])

prop('G02', 'Editing a token grid removes exactly what was asked and nothing else',
     'After any sequence of loads, row removals, predicate removals of rows or tokens over any row range, column count enforcement and clears, the grid holds exactly the remaining rows and tokens '
     'in their original order with correct counts. Predicates see each row or token of the range once and in order, invalid ranges change nothing, and rows left without tokens disappear.',
     ['inputs', 'histories'], 'every text and every sequence of editing operations', 'Index bookkeeping errors only appear after several edits on ragged rows; the tests perform single edits.',
     [('remove_row / remove_row_if / remove_token_if', 'strtk.hpp:6742'), ('index_remover', 'strtk.hpp:1192'), ('load, clear', 'strtk.hpp:7477')], ['grid contents after every step', 'predicate call log'])

prop('G03', 'Grid sums, extraction, joins and partitions cover exactly the selected cells',
     'Column and row sums, column widths, extraction of one to five columns, joins, row iteration and sequential partitioning deliver exactly the cells of the given columns and row range, in order, '
     'skipping rows too short for the columns. Ranges and columns outside the grid are refused, and a token that does not convert is refused, thrown or skipped as the operation documents.',
     ['inputs'], 'every grid, column set, row range, predicate and delimiter', 'The tests aggregate one complete column of one rectangular sample.',
     [('accumulate_column', 'strtk.hpp:7013'), ('extract_column', 'strtk.hpp:6561'), ('join_row / join_column', 'strtk.hpp:7099'), ('sequential_partition', 'strtk.hpp:7276')], ['values, counts, groups'])

prop('G04', 'Quoted grid tokens keep their delimiters; trimming strips only quote pairs',
     'With double quote support, column delimiters between quotes are ordinary text under every column split option, quotes toggle, and quoting never carries over from one row to the next. '
     'Trimming removes the outer quotes of tokens that both start and end with one, and nothing else; without the option quotes are ordinary text.',
     ['inputs', 'configurations'], 'every text with balanced or unbalanced quotes and every split option', 'The only test is one well-formed sample; quoting state depends on what preceded the token.',
     [('double_quotes_predicate', 'strtk.hpp:7444'), ('token_grid::load', 'strtk.hpp:7477'), ('split', 'strtk.hpp:3347')], ['tokens and spans'])

prop('R01', 'Removal, trimming and replacement edit exactly the matching parts of a text',
     'For every text, character set, predicate and pattern, removing leading, trailing, inner, repeated, empty, duplicate or indexed elements keeps every other element in its original order and reports '
     'the number removed or kept; purging deletes all elements of the given container or range. Replacing a pattern substitutes every leftmost non-overlapping occurrence and nothing else, for shorter, equal, longer '
     'and empty replacements, and every form (string, range, iterator, container) agrees without touching memory outside its exact-size blocks.',
     ['inputs'], 'every text, set, predicate, pattern and replacement',
     'Tests use a few ASCII samples; first and last positions, bytes above 127, empty results and patterns overlapping themselves are not sampled.',
     [('remove_inplace', 'strtk.hpp:1198'), ('remove_trailing', 'strtk.hpp:1461'), ('replace_pattern', 'strtk.hpp:1697')], ['edited text and reported counts'])

prop('R04', 'Copying, cutting, translating and filling utilities produce exactly their result',
     'For every input the sequence helpers (copy_if/until, n-th and extreme element searches, repetition counts, rotation and shifting, cut, translation tables, case conversion, replicate, bracketize, iota, '
     'canonical forms, fixed array builders, fill and reverse) deliver exactly the elements their definition names, in order, with the documented counts, and never read or write outside the input and an output of the needed size.',
     ['inputs'], 'every input sequence, range and parameter',
     'Most of these helpers have no test; empty input, single elements and ranges at the ends decide their correctness.',
     [('copy_if', 'strtk.hpp:824'), ('iota', 'strtk.hpp:11654'), ('cut', 'strtk.hpp:11743')], ['output elements and counts'])

prop('R02', 'Wildcard matching accepts exactly the texts its pattern describes',
     'For every pattern and text, match (strings, ranges, any pair of wildcard symbols) and the like condition accept exactly when the text can be cut so that every ordinary symbol matches itself, '
     'the first wildcard any run of zero or more symbols and the second zero or one symbol; the answer arrives in polynomial time whatever the pattern. String conditions (equal, not equal, like, begins, ends, within, '
     'not within) decide by their definition, also after the condition object was copied or assigned and its source destroyed.',
     ['inputs'], 'every pattern, text, wildcard symbol pair and condition kind',
     'Tests match a handful of patterns; adjacent wildcards, wildcards at the end and backtracking depend on the combination.',
     [('match', 'strtk.hpp:1947'), ('string_condition', 'strtk.hpp:19656')], ['verdicts'])
prop('R03', 'Searching and case-insensitive comparison report exactly the true occurrences',
     'For every pattern and text, find_all and ifind_all report the leftmost non-overlapping occurrences in order (none for an empty pattern), index_of and ifind the first one or npos, and begins/ends_with and their '
     'case-insensitive forms hold exactly for prefixes and suffixes. imatch holds exactly when texts differ at most in ASCII letter case, alone or against any element of a range or container. Every sequence '
     'of ext_string edits leaves the text its operations describe.',
     ['inputs', 'histories'], 'every pattern, text, container and sequence of edits',
     'Matches at the very end, overlapping occurrences, patterns longer than the text and letters next to the alphabet are not sampled by the tests.',
     [('imatch', 'strtk.hpp:1977'), ('find_all', 'strtk.hpp:2049'), ('ends_with', 'strtk.hpp:2220'), ('ext_string', 'strtk.hpp:18244')], ['positions, counts and verdicts', 'text after each edit'])

prop('S01', 'A prefix trie answers exactly as a map from keys to values',
     'After any history of inserts a trie finds exactly the inserted keys, each with the value most recently inserted for it, and find_prefix holds exactly for the prefixes of inserted keys. '
     'This holds for every key iterator and element type, for keys that are prefixes or extensions of each other, and for empty and very long keys; a lookup that fails leaves its output value alone. '
     'Nodes and values are freed with the trie, once each, and no operation touches memory outside the keys it is given.',
     ['inputs', 'histories'], 'every sequence of inserts and queries over every key type',
     'The test inserts a few fixed words; shared prefixes, overwritten keys and prefixes stored after their extensions depend on the history.',
     [('trie::prefix', 'strtk.hpp:19817'), ('prefix::insert / find', 'strtk.hpp:19817')], ['find and find_prefix results', 'live value count'])
prop('S02', 'A Bloom filter never forgets a member, whatever is done to it',
     'Every key inserted into a filter is reported as contained, through every key form, after copying, assignment, compression and a write/read round trip, until clear. The set operations &=, |= and ^= on filters of equal '
     'parameters combine their bit tables accordingly (an intersection contains the common members, a union the members of both) and filters of different parameters are left unchanged; for random keys the observed false '
     'positive rate respects the configured bound. A damaged file is refused and leaves a consistent filter, a compressed filter is not written to a file that could not bring it back, and no parameter set makes the filter access bits outside its table.',
     ['inputs', 'histories', 'configurations'], 'every parameter set, key set and sequence of operations',
     'The test inserts one word list with one parameter set; table sizes, compression schedules and damaged files are not sampled.',
     [('bloom::filter', 'strtk.hpp:20238'), ('bloom::compressible_filter', 'strtk.hpp:20805')], ['membership answers', 'bit table'])
prop('K01', 'Combinations and permutations are enumerated and ranked exactly',
     'Iterating next_combination, for_each_combination (also conditional) or combination_iterator visits every k-combination of the input exactly once in order, and for_each_permutation every permutation. '
     'nth_combination_sequence and nth_permutation_sequence yield the n-th element of the enumeration for every n, with the rest of the elements appended when asked for, and n_choose_k equals the binomial coefficient '
     'whenever that fits 64 bits, also after the tables were prefilled.',
     ['inputs'], 'every element list, shape, rank and entry point',
     'Tests enumerate two or three small shapes; ranks, duplicates, k of zero or n, and large coefficients are not sampled.',
     [('next_combination', 'strtk.hpp:12235'), ('n_choose_k', 'strtk.hpp:12480'), ('nth_combination_sequence', 'strtk.hpp:12580'), ('combination_iterator', 'strtk.hpp:12786')], ['visited sequences', 'coefficients'])
prop('K02', 'Random helpers stay in range, are reproducible and permute or select faithfully',
     'generate_random_values and uniform_real_rng yield the requested number of values inside their range, whatever the generator returns; generate_random_data fills exactly the buffer; equal seeds give equal results '
     'and pregen skips draws. random_permutation emits each input element exactly once, random_combination a set of the asked size of distinct positions (refusing sizes beyond the input), select_k_randomly '
     'exactly k distinct elements of the input, and every element is selected with the frequency uniformity implies.',
     ['inputs', 'schedules'], 'every seed, generator (including one that hits the ends of its range), size and range',
     'Tests run one seed and print; the ends of the range and the empty and full selections are rare events.',
     [('generate_random_data', 'strtk.hpp:11857'), ('uniform_real_rng', 'strtk.hpp:11949'), ('random_combination', 'strtk.hpp:12056'), ('select_k_randomly', 'strtk.hpp:12107')], ['values and selections'])

prop('V01', 'The key-value parser assigns exactly the registered keys, in text order',
     'For every text, parsing key-value pairs assigns to the variable registered for each key the value of its last convertible pair and touches nothing else; the strict parser succeeds exactly when every pair has a '
     'registered key and a convertible value (stopping at the first that does not), while ignoring failures it visits all pairs and counts the failures. Keys are matched exactly as written for string, folded and validated keys and by '
     'numeric value for unsigned keys - an empty, malformed or out of range key matches nothing. Registering a key again redirects it, also between parses.',
     ['inputs', 'histories', 'configurations'], 'every text, pair of delimiters, key map and history of registrations and parses',
     'Tests parse one or two well formed texts; malformed keys, repeated keys, missing values and re-registration are not sampled.',
     [('keyvalue::parser', 'strtk.hpp:24288'), ('uintkey_map / key_map', 'strtk.hpp:24426')], ['registered variables', 'verdict and failure count'])
prop('U01', 'Type erased values, attributes and owning containers keep their contract',
     'A util::value assigns text to, and renders, exactly the variable it is bound to, through any history of binding, copying and moving; an attribute reports its value, its previous value and whether it changed '
     'consistently from construction on; a semantic action sees exactly its token once and its verdict decides the parse. delete_all and delete_if delete the selected objects exactly once and keep the rest, and key '
     'lists, value lists, push_back, scoped_restore and block comparison do what their definition says for every container.',
     ['inputs', 'histories'], 'every variable type, history of bindings and container content',
     'Tests bind a few variables once; copies, rebinding, refusals and partial deletion depend on the history.',
     [('attribute', 'strtk.hpp:21094'), ('util::value', 'strtk.hpp:21363'), ('delete_if', 'strtk.hpp:21799')], ['bound variables', 'live object counts'])
prop('U02', 'Selecting columns parses exactly the listed columns',
     'parse_columns and column selectors of every arity (1 to 12 values, or a sequence) convert exactly the tokens at the listed ascending column positions, each into its own variable, with runs of delimiters counted as one. '
     'They fail, without touching memory outside the text, when a listed column is missing or not convertible; a column selector keeps working over any number of lines.',
     ['inputs', 'configurations'], 'every text, delimiter set, ascending column list, arity and target type',
     'Tests pick a few columns of well formed lines; missing columns, last columns and failing conversions are not sampled.',
     [('column_selector_base', 'strtk.hpp:22276'), ('parse_columns', 'strtk.hpp:23339')], ['verdict and every variable'])
prop('F01', 'Text alignment, character classes and single edits follow their definitions',
     'Alignment pads a text or number with the given character to exactly the width (centered, left or right) and leaves longer texts alone. Character class predicates hold exactly for the ASCII characters of the class for all 256 values; '
     'insert, remove, swap and remaining_string change exactly the named position and do nothing outside the text, and runs of a character class are found and matched at their first position with the asked length.',
     ['inputs'], 'every text, width, pad, character and position',
     'Tests do not cover these helpers beyond one or two calls; positions at and beyond the end and characters next to the alphabets matter.',
     [('text::center', 'strtk.hpp:15487'), ('find_n_consecutive_values', 'strtk.hpp:15812')], ['results and edited texts'])
prop('F02', 'File, line and POD helpers store and deliver every byte, or report failure',
     'After any history of writing, copying, concatenating, comparing and reading files, every file holds exactly the bytes the operations describe, and an operation reports success exactly when it stored or delivered them all - also when the '
     'disk is full, a path is impossible or a range lies beyond the end; a failed copy or concatenation leaves other files alone. Line helpers visit exactly the lines of a text in order (up to the count or condition), text containers survive a '
     'write and load, and PODs are written and read back bit for bit to files and memory.',
     ['inputs', 'histories', 'fault_sequences'], 'every content, block boundary, history of operations and point at which space runs out',
     'No test writes near a block boundary, runs out of space or mixes operations; corruption would show only there.',
     [('for_each_line', 'strtk.hpp:113'), ('load_from_text_file', 'strtk.hpp:457'), ('fileio::copy_file', 'strtk.hpp:18544'), ('write_pod', 'strtk.hpp:19416')], ['bytes of every file after each step', 'verdicts'])
prop('O01', 'Bit operations agree with one-bit-at-a-time definitions',
     'Setting or clearing a bit changes exactly that bit and reading it tells its state; bit counts, Hamming distances (bitwise and elementwise), bitwise and/or/xor of texts, two-way interleaving and spread tables equal their '
     'definition bit by bit for every input. Texts of different sizes are refused without touching the output, and exactly the needed bytes are accessed.',
     ['inputs'], 'every pair of byte strings and bit position',
     'Tests check a few constants; lookup tables have 256 entries and each entry matters.',
     [('twoway_bitwise_interleave', 'strtk.hpp:4873'), ('bit_state', 'strtk.hpp:5099'), ('hamming_distance', 'strtk.hpp:5147')], ['bits of the results'])
prop('H01', 'Hash values depend on every element and agree for equal sequences',
     'Hashing a sequence is a function of its elements, their order and the seed only: equal sequences hash alike through every form (text, container, iterator, pointer), the input is only read, and the hash of nothing is the seed. Every single element '
     'counts: replacing, adding, dropping or exchanging elements changes the hash, chance collisions aside.',
     ['inputs'], 'every sequence of characters, integers or reals of any length, and every seed',
     'Tests print a few hash values; that a position never influences the result shows only by comparing many sequences of every length.',
     [('strtk::hash', 'strtk.hpp:21019'), ('details::compute_block', 'strtk.hpp:20987')], ['hash values of equal and minimally different sequences'])
prop('L01', 'Everything acquired is released exactly once, also when calls fail',
     'Grids, filters, tries, delimiter predicates, pointer containers (delete_all, delete_if), parsing, splitting, binary and file functions release every memory block and file they acquire exactly once, over every history of loads, copies, assignments, '
     'clears and destruction. When an allocation fails or user code (a predicate, callback, conversion or element copy) throws in the middle, the failure reaches the caller, nothing is leaked, released twice or left dangling, and the object can still be used, '
     'refilled and destroyed.',
     ['histories', 'fault_sequences'], 'every history of operations with a failing allocation or throwing user function at every point',
     'No test makes anything fail, and a leak or dangling pointer after a failed reload is invisible to an assertion on results.',
     [('token_grid::load and clear', 'strtk.hpp:7477'), ('bloom::filter assignment and files', 'strtk.hpp:20238'), ('trie node ownership', 'strtk.hpp:19823'), ('util::delete_all, delete_if', 'strtk.hpp:21427')],
     ['every allocation and release of the process', 'open file descriptors', 'live element objects', 'results of refilled objects'],
     technique='fault injection into operator new and user callbacks with a block, object and descriptor ledger, under sanitizers')
prop('M01', 'Independent use from several threads is free of races and interference',
     'Threads that use the library on their own objects, and threads that only read shared constant objects (grids, filters, tokenizers, texts, predicates), never race with each other and each gets exactly the result it gets alone. This includes '
     'the first use of any function, and n_choose_k and the combination ranking once initialize_n_choose_k has run.',
     ['schedules', 'inputs'], 'every interleaving of independent calls from any number of threads',
     'The tests are single threaded except one; a shared scratch variable or table is harmless there.',
     [('range_to_ptr_type', 'strtk.hpp:3135'), ('bloom generate_unique_salt', 'strtk.hpp:20594'), ('initialize_n_choose_k', 'strtk.hpp:12567')], ['memory accesses of all threads (ThreadSanitizer)', 'the oracle of every case'],
     technique='ThreadSanitizer over all property drivers run concurrently, with each case keeping its own oracle')
