"""Per property: driver, build flags, plan (variant, case-count scale, rounds) per tier."""
NOBOOST = ['-Dstrtk_no_tr1_or_boost']


def std_plan(qa=6.0, qp=16.0, ta=6.0, tp=24.0, tv=0.02, qv=None):
    q = [('asan', qa), ('plain', qp)]
    if qv:
        q.append(('valgrind', qv))
    t = [('asan', ta, 2), ('asan1', ta, 3), ('plain', tp, 3)]
    if tv:
        t.append(('valgrind', tv))
    return {'quick': q, 'thorough': t}


CHECKS = {}


def add(pid, driver, rule, cflags=NOBOOST, libs=(), plan=None, **kw):
    d = dict(driver=driver, rule=rule, cflags=list(cflags), libs=list(libs))
    d.update(plan or std_plan())
    d.update(kw)
    CHECKS[pid] = d


add('T01', 't01_tokenizer.cpp',
    'each case tokenizes one generated sequence (random delimiter sets, runs, leading/trailing delimiters, all option '
    'combinations; plus every string over a 3-letter alphabet up to length 6) and compares every token range with a '
    'reference tokenizer; non-trivial = non-empty sequence, distinct by (options, delimiters, text)',
    require_events=['tokens_observed'])

add('T02', 't02_split.cpp',
    'each case splits one generated text (or integer sequence) through every split/split_n/split_pair/for_each_token '
    'overload and compares ranges and counts with the reference tokenizer (every 3-letter string up to length 6 is '
    'enumerated); non-trivial = non-empty text, distinct by (options, delimiters, text, n)',
    require_events=['tokens_observed', 'pair_splits'])

add('T03', 't03_runs.cpp',
    'each case splits one generated text by fixed widths, by character-class runs or by a regular expression and compares '
    'all matches with a reference scanner (std::regex for expressions); non-trivial = non-empty text, distinct by parameters and text',
    cflags=(), libs=['-lboost_regex'], require_events=['fixed_width_tokens', 'runs_observed', 'regex_matches'])

add('T04', 't04_sinks.cpp',
    'each case feeds one token (or a tokenized text) held in an exact-size block to every consumer or filter and compares the verdict and the stored '
    'value with a reference; non-trivial = non-empty token, distinct by (pattern/set/bounds, token)',
    require_events=['expectations_judged', 'pattern_hits', 'pattern_misses', 'ranges_judged', 'trims_judged', 'fills_judged', 'decimals_judged',
                    'filter_runs', 'records_accepted', 'records_refused'])

add('P01', 'p01_parse.cpp',
    'each case parses one generated record with every entry point of one arity (1..16; parse_line 1..12, argv 1..9) and compares the verdict and every '
    'variable with an independent per-type oracle over the reference tokens; non-trivial = non-empty record, distinct by (arity, delimiters, text)',
    require_events=['parse_success', 'parse_refused', 'lines_parsed', 'argv_parsed', 'round_trips', 'joins'])

add('P02', 'p02_containers.cpp',
    'each case parses one generated record into one of eight container kinds through every overload (pointer, string, range, file line; bounded or not; '
    'behind 1..11 scalars) and compares content, order and count with the reference; non-trivial = non-empty record, distinct by (options, n, delimiters, text)',
    require_events=['containers_parsed', 'elements_stored', 'lines_parsed', 'arrays_filled', 'tails_accepted', 'tails_refused', 'inserters_used'], parts=4)

add('P03', 'p03_nested.cpp',
    'each case feeds two generated fields to sinks of one of eight container kinds (int, text, real or user-defined elements; bounded or not; bound in every way, re-used, inside records) or parses one record through user-defined '
    'conversions, and compares verdicts, containers and neighbouring variables with the reference tokenization; distinct by (container, options, counts, text)',
    require_events=['history_steps', 'sinks_filled', 'sinks_refused', 'records_accepted', 'records_refused', 'user_values', 'user_refusals', 'grid_values', 'user_records_accepted', 'user_records_refused', 'streamed_values'], parts=4, plan=std_plan(3, 8))

add('N01', 'n01_int.cpp',
    'each case converts a batch of generated integer texts (type boundaries, wrap-arounds, leading zeros, signs, corruptions; every value -100000..99999 '
    'for the 16-bit types; every string of up to 3 characters over a 12-letter alphabet) with every conversion entry point and compares verdict and value with '
    '128-bit arithmetic; non-trivial = non-empty text, distinct by (type, text)',
    require_events=['accepted', 'refused', 'sixteen_bit_values', 'boundary_values', 'short_strings', 'bytes_judged'])

add('N03', 'n03_roundtrip.cpp',
    'each case formats a batch of values (every 16-bit value, every 3-digit group in every position, type limits, powers of ten, random; reals over the '
    'exponent range) and compares the text with 128-bit decimal rendering (integers, exact) or strtold (reals, format precision) and parses it back; distinct by text and type',
    require_events=['integers_formatted', 'sixteen_bit_values', 'digit_groups', 'reals_formatted', 'bytes_formatted'])

add('N04', 'n04_fast.cpp',
    'each case runs the fast digit checks or conversions for one length 0..20 on generated digit text (or text with one non-digit) held in exact-size blocks, '
    'through every overload, against 128-bit arithmetic and the checked conversion; distinct by text',
    require_events=['checks_true', 'checks_false', 'conversions', 'signed_conversions', 'refusals'], parts=4)

# the optional look-up-table and unrolled parsing configurations are separate builds of the same driver
_n2 = std_plan()
_n2['quick'] = [('asan', 5.0), ('plain', 12.0), ('asan+strtk_use_lut', 2.0), ('asan+strtk_enable_superscalar', 2.0)]
_n2['thorough'] = _n2['thorough'] + [('asan1+strtk_use_lut', 4.0, 2), ('asan1+strtk_enable_superscalar', 4.0, 2), ('plain+strtk_use_lut+strtk_enable_superscalar', 8.0, 2)]
add('N02', 'n02_real.cpp',
    'each case converts a batch of generated real texts (up to 60 digits each side of the point, exponents up to 4 digits, every exponent -350..349, every string '
    'of up to 4 characters over a 10-letter alphabet, corruptions, infinities and NaN) and compares the verdict with a reference grammar and the value '
    'with strtof/strtod/strtold within a rounding bound; repeated with strtk_use_lut and strtk_enable_superscalar; distinct by (type, text)',
    plan=_n2, require_events=['accepted', 'refused', 'values_judged', 'overflows', 'table_exponents', 'short_strings', 'long_texts', 'specials', 'specials_refused'])

add('C01', 'c01_hex.cpp',
    'each case encodes generated bytes to hexadecimal and decodes them back (mixed case) through every overload with exact-size input and output blocks, against a reference '
    'encoder (every byte value and every two-digit text enumerated); non-trivial = non-empty input, distinct by bytes',
    require_events=['round_trips', 'odd_refused', 'byte_values', 'digit_pairs'])
add('C02', 'c02_base64.cpp',
    'each case encodes generated bytes to base64 and decodes them back through every overload with exact-size blocks against a reference encoder (every one- and two-byte '
    'input and every letter in every position enumerated), or decodes arbitrary text for containment; non-trivial = non-empty input, distinct by bytes',
    require_events=['round_trips', 'padded', 'two_byte_inputs', 'letters', 'hostile_texts'])
add('C03', 'c03_sinks.cpp',
    'each case feeds generated (valid and corrupted) hexadecimal or base64 text to a number or string sink, re-used several times, directly, by conversion or inside a record '
    'parse, and compares verdict and target with a reference; distinct by (target size, text)',
    require_events=['hex_accepted', 'hex_refused', 'base64_accepted', 'base64_refused', 'strings_accepted', 'strings_refused', 'records_accepted', 'records_refused'])

add('B01', 'b01_roundtrip.cpp',
    'each case writes a generated stream of typed items (36 kinds: scalars, strings, containers, nested containers, user records, arrays, length-prefixed pointers, text fields) '
    'into an exactly sized block, compares bytes and positions with a reference encoding and reads everything back; or drives position control against a model; distinct by stream',
    require_events=['items_round_tripped', 'file_round_trips', 'reader_operations', 'writer_operations', 'preloaded_containers', 'length_boundaries'])
add('B02', 'b02_bounds.cpp',
    'each case writes or reads a generated stream in a block that is too short by some bytes, or reads arbitrary/corrupted bytes with an arbitrary schema, and compares verdict, '
    'values and positions with a reference decoder; distinct by (stream, capacity)',
    require_events=['writes_refused', 'writes_accepted', 'reads_refused', 'reads_accepted', 'hostile_accepted', 'hostile_refused', 'fields_accepted', 'fields_refused', 'length_limits'])
add('B03', 'b03_endian.cpp',
    'each case converts one value of one integer type between native, big- and little-endian order directly and through writer and reader against byte-wise arithmetic '
    '(all 16-bit values enumerated); distinct by bytes', require_events=['conversions', 'sixteen_bit_values'])

add('G01', 'g01_load.cpp',
    'each case loads generated text (up to 600 rows, all column split options, ragged rows, empty tokens, delimiter runs) into a token grid through every constructor and load form '
    'and compares every token (text and position) and every row accessor / row parse with a reference grid; non-trivial = at least one row, distinct by (delimiters, option, text)',
    require_events=['grids_compared', 'tokens_compared', 'files_loaded', 'ragged_grids', 'values_read', 'values_refused', 'ranges_parsed', 'ranges_refused', 'rows_parsed', 'bounded_parses', 'values_parsed'], parts=3)
add('G02', 'g02_mutate.cpp',
    'each case drives one grid through up to 15 generated loads, row/token removals, column-count enforcements and clears and compares every token, count, return value and '
    'the log of what each predicate was shown with a reference grid after every step; distinct by operation sequence',
    require_events=['steps', 'loads', 'clears', 'rows_removed', 'row_predicates', 'token_predicates', 'tokens_removed', 'enforcements'])
add('G03', 'g03_aggregate.cpp',
    'each case loads a generated grid and compares sums, widths, extracted columns (1 to 5), joins, partitions and row iteration over generated row ranges and columns '
    '(in and out of bounds, refused tokens) with a reference grid; distinct by (text, delimiters, arguments)',
    require_events=['column_sums', 'column_refusals', 'row_sums', 'row_refusals', 'columns_extracted', 'extractions_refused', 'bad_tokens_thrown', 'checked_values', 'rows_joined', 'columns_joined', 'partitions'], parts=3)
add('G04', 'g04_dquotes.cpp',
    'each case loads generated text with balanced and unbalanced double quotes under every column split option, trimmed or not, and compares every token (text and position) '
    'with a reference quote-aware tokenizer; non-trivial = contains a quote, distinct by text and options',
    require_events=['grids_compared', 'delimiters_kept_in_quotes', 'tokens_trimmed', 'files_loaded'])
add('R01', 'r01_remove.cpp',
    'each case applies every removal, trimming, run-collapsing and replacement function (string, range, adapter and sequence forms) to one generated text and set/pattern and compares '
    'content and counts with direct reference definitions; non-trivial = non-empty text, distinct by (text, set, pattern)',
    require_events=['strings_edited', 'ranges_edited', 'sequences_edited', 'indices_removed', 'containers_purged', 'patterns_replaced', 'patterns_absent'])
add('R04', 'r04_sequence.cpp',
    'each case applies the copy, cut, translate, case, replicate, bracketize, iota, canonicalize, array, fill and reverse utilities to generated input in exact-size blocks and compares '
    'with direct reference definitions; distinct by input',
    require_events=['copies', 'extremes', 'all_repeated', 'non_repeated', 'rotations', 'strings_cut', 'texts_converted', 'table_entries', 'values_built', 'views_compared'])

add('R02', 'r02_match.cpp',
    'each case matches one pattern against one text through match (strings, pointers, iterators, lists, custom symbols) and string_condition and compares the verdict with a memoized '
    'recursive definition (every pattern up to 4 over {a,b,*,?} against every text up to 5 over {a,b} is enumerated); distinct by (pattern, text)',
    require_events=['accepted', 'rejected', 'custom_symbols', 'hostile_patterns', 'conditions_met', 'conditions_unmet'])
add('R03', 'r03_search.cpp',
    'each case compares or searches one generated text with one derived pattern through every overload and compares verdicts, positions and counts with naive reference search; histories of '
    'ext_string operations are compared step by step with a std::string model; distinct by (pattern, text) or history',
    require_events=['equal_pairs', 'unequal_pairs', 'members', 'non_members', 'occurrences', 'absent', 'positions', 'prefixes', 'suffixes', 'string_operations', 'character_pairs'])

add('S01', 's01_trie.cpp',
    'each case runs one history of inserts, finds and prefix queries (keys derived from stored ones: prefixes, extensions, near misses; int, string and life-counted values; char, byte, int and 64-bit '
    'keys in exact blocks) against an ordered map; distinct by history', require_events=['keys_inserted', 'keys_found', 'keys_missed', 'prefixes_found', 'prefixes_missed', 'final_keys', 'lifetimes_closed'])
add('S02', 's02_bloom.cpp',
    'each case runs one history of insertions, copies, assignments, clears, set operations, compressions or file round trips of a filter with generated parameters, then checks every key, the bit table against a '
    'table model and the false positive count against its bound; distinct by parameters and history',
    require_events=['parameter_sets', 'insertions', 'memberships_checked', 'set_operations', 'compressions', 'compressions_refused', 'false_positive_trials', 'neighbours_tried', 'seeds_compared', 'files_read_back', 'damaged_refused'])

add('K01', 'k01_combinatorics.cpp',
    'each case enumerates or ranks the combinations or permutations of one generated multiset and shape through every entry point and compares each one, in order, with direct enumeration '
    '(128-bit Pascal triangle for the counts, independent ranking for large shapes); distinct by (elements, shape, rank)',
    require_events=['binomials', 'tables_prefilled', 'large_tables', 'combinations', 'iterator_combinations', 'conditional_runs', 'permutations', 'ranked_combinations', 'ranked_permutations'])
add('K02', 'k02_random.cpp',
    'each case generates random data, values, permutations, combinations or selections from one seed (or an adversarial generator hitting the ends of its range) and checks containment, distinctness, reproducibility, '
    'stream position and, over 3000 seeds, frequencies; distinct by (shape, seed)', cflags=(), 
    require_events=['random_bytes', 'random_values', 'small_ranges', 'arrangements', 'frequencies'])

add('V01', 'v01_keyvalue.cpp',
    'each case runs one history of registrations, re-registrations, parser copies and parses (strict and ignoring) of generated pair texts (unknown and malformed keys, keys beyond the key range, refused values, '
    'empty blocks, equal delimiters) through one key map and compares verdicts, failure counts and every registered variable with a model of the text; distinct by history',
    require_events=['pairs_applied', 'pairs_refused', 'ignoring_parses', 'strict_accepted', 'strict_refused', 'registrations', 'copies'])

add('U02', 'u02_columns.cpp',
    'each case parses one generated line into 1 to 12 selected columns (range, string and sequence forms), or drives a column selector over one to three lines (by split, by hand, copied, reset), and compares verdict and '
    'every target with a reference tokenization and conversion; distinct by (text, columns, form)',
    require_events=['records_parsed', 'conversions_refused', 'short_records_refused', 'sequences_parsed', 'sequences_refused', 'columns_selected', 'columns_refused', 'columns_absent', 'small_sequences_refused', 'sequences_selected'])

add('U01', 'u01_values.cpp',
    'each case runs one history of binding, copying, assigning and feeding values or attributes, one record parse through semantic actions, one deletion over a container of owned objects (counted live) or one round of '
    'container helpers, and compares every variable, state and survivor with a model; distinct by history',
    require_events=['values_set', 'values_refused', 'unbound_refused', 'attributes_parsed', 'attributes_refused', 'changed_states', 'unchanged_states', 'actions_accepted', 'actions_refused', 'objects_deleted', 'objects_kept', 'key_lists', 'equal_blocks', 'different_blocks'])

add('F01', 'f01_text.cpp',
    'each case aligns one text or number, classifies one character (all 256), edits one position of a text or searches a run of a character class, and compares the result with its definition; distinct by text and parameters',
    require_events=['padded', 'left_alone', 'exact_fits', 'characters', 'inside', 'outside', 'runs_found', 'runs_absent', 'anchored_runs', 'unanchored'])

add('F02', 'f02_files.cpp',
    'each case runs a history of file operations (with an injected full disk), reads a text line by line, writes and loads a container or moves PODs, reading every file back through the C library after each step; distinct by history or content',
    require_events=['histories', 'copies', 'concatenations', 'missing_source', 'one_byte_differences', 'whole_blocks', 'blocks_and_rest', 'ranges_inside', 'ranges_outside', 'impossible_paths', 'full_disks', 'fitting_writes', 'cut_by_count', 'cut_by_condition', 'by_name', 'by_stream', 'text_containers', 'pods', 'file_pods', 'short_runs', 'whole_runs', 'memory_runs', 'failed_streams', 'failed_line_streams'], plan=std_plan(3, 8))

add('O01', 'o01_bits.cpp',
    'each case runs a history of single bit writes over an exactly sized buffer, or counts, compares, combines or interleaves two byte strings, and compares with a definition working one bit at a time; distinct by the byte strings',
    require_events=['raised', 'lowered', 'kept_high', 'kept_low', 'counted', 'all_bytes', 'sizes_differ', 'distant', 'equal', 'transformed', 'refused', 'interleaved', 'lengths_differ', 'spread_bytes'])

add('H01', 'h01_hash.cpp',
    'each case hashes one generated sequence (seven element types, lengths around every block size) in every form and again with each single element changed, and with elements added, dropped or exchanged; '
    'a position without influence or more than 1 in 2000 unchanged hashes is a violation; distinct by sequence',
    require_events=['forms_agreed', 'changes_judged', 'swaps_judged', 'texts_hashed'])

# M01: every driver again, its cases dealt to threads that run at the same time, under ThreadSanitizer
_subs = [p for p in CHECKS if p != 'M01']
add('M01', 'm01_shared.cpp',
    'each case of every driver (all other properties, and readers of shared constant objects) runs in one of four threads while the others run other cases; ThreadSanitizer judges every '
    'pair of accesses and each case keeps its own oracle (a mismatch counts when the same case succeeds alone); distinct by the inputs of the cases',
    cflags=NOBOOST + ['-DVH_THREADS=4'], shards=4, skip={'K01': 'binomials large_tables'},
    plan={'quick': [('tsan@M01', 1.0)] + [('tsan@' + p, 0.4) for p in _subs], 'thorough': [('tsan@M01', 6.0, 2)] + [('tsan@' + p, 1.0, 2) for p in _subs]},
    require_events=['cases_started_while_others_ran', 'section_pairs_overlapped', 'self_checks', 'threads'])

# L01 replaces operator new and delete, so it stays out of the threaded mix
add('L01', 'l01_release.cpp',
    'each case runs one generated history (grids, filters, tries, pointer containers, splits and parses, files, binary arrays, tables) without faults and then again with each of up to 18 allocations failing and each '
    'of up to 18 calls of user code throwing; live blocks, form of delete, live objects and open files are compared after every run, and reloaded objects with what they were filled with; distinct by history',
    require_events=['allocations_failed', 'user_exceptions', 'faults_reported', 'histories_balanced', 'grids', 'filters', 'tries', 'containers', 'texts', 'file_operations', 'binary_runs'], plan=std_plan(3, 8))
