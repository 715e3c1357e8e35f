"""All property statements, in one place; gen/gen.py writes properties.jsonl and MANIFEST.json from them."""
I,H,F,C='inputs','histories','fault_sequences','configurations'
P=[]
def prop(id,title,statement,over,text,why,files,mech,bounds,na=None):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,bounds=bounds,na=na))

prop('A01','Region allocations are in-bounds, aligned, disjoint and all-or-nothing',
 'Every block a region hands out lies wholly inside the region, is word-aligned relative to its base, is zeroed when zeroing is promised, and never overlaps a block handed out before it. A request that does not fit, however large, is refused and changes nothing, and the reported remaining space is exactly what can still be handed out.',
 [I,H],'every region fill level and every 64-bit request size',
 'tests make a handful of small allocations; sizes near the end of the region and near SIZE_MAX are never tried',
 ['allocators/region/region.c'],[('bump allocation from the top of the buffer','allocators/region/region.c: harbol_region_alloc'),('remaining space','allocators/region/region.c: harbol_region_remaining')],
 'one arbitrary request on an arbitrary region state (capacity 40 and 37 bytes), and 4-request histories; request sizes are full 64-bit; 4 requests of 7 sizes on 1208 bytes')
prop('A02','Double-ended stack keeps both ends inside the buffer and apart',
 'Blocks taken from the front and from the back of a two-ended stack lie inside its buffer and never overlap each other; a request larger than the gap between the ends is refused without moving either end. Resetting an end gives back exactly that end, and resizing keeps what fits and reports the right free space.',
 [I,H],'every position of the two ends, every 64-bit request size, every mix of front/back requests',
 'tests allocate a few small objects from each end; large requests that wrap around are never tried',
 ['allocators/bistack/bistack.c'],[('front/back cursors','allocators/bistack/bistack.c: harbol_bistack_alloc_front, harbol_bistack_alloc_back')],
 'one arbitrary request on an arbitrary state, 5-step histories, resize to three sizes; 4 operations of 7 kinds on 1208 bytes')
prop('A03','Object pool hands out each slot at most once and refuses foreign pointers',
 'Every live object of a pool is one whole, zeroed slot of its buffer, distinct from all other live objects; a pool of n objects yields exactly n before refusing, and a freed slot becomes available again. Null pointers and pointers outside the pool (including the one-past-the-end pointer) are rejected by free without changing the pool.',
 [I,H],'every alloc/free history of bounded length including frees of null, foreign and one-past-the-end pointers; object sizes/counts over the full 64-bit range for creation',
 'tests free in one fixed order and never pass a foreign or interior pointer',
 ['allocators/objpool/objpool.c'],[('free list threaded through slots','allocators/objpool/objpool.c: harbol_objpool_alloc, harbol_objpool_free')],
 'histories of up to 7 steps (10 thorough) over pools of 2..4 slots; 9..20 objects of up to 136 bytes with three freed and taken again')
prop('A04','Memory pool: live blocks are in-bounds, disjoint, zeroed; contents survive',
 'At every point of any allocate/free/reallocate history, each live block of a memory pool lies inside the pool, is at least as large as requested, is word-aligned, is disjoint from every other live block and is never disturbed by the pool\'s bookkeeping of free memory; fresh blocks are zeroed and reallocation keeps the old contents up to the smaller size. Freeing null, a pointer outside the pool or one freed before is refused without changing the pool, and so are requests that do not fit, however large.',
 [I,H],'every history of bounded length of allocate, free and reallocate with symbolic choice of victim',
 'the pool test is one scripted history; corruption of the free lists needs particular orders of frees',
 ['allocators/mempool/mempool.c'],[('bucket and large-block free lists with coalescing','allocators/mempool/mempool.c: harbol_freelist_insert, harbol_mempool_free'),('allocation','allocators/mempool/mempool.c: harbol_mempool_alloc')],
 'histories of 5..10 operations (7 with mixed sizes thorough) on a pool of 320..400 bytes; sizes symbolic within 1..104 in classes of 8, contents symbolic; refused requests over the full 64-bit range')
prop('A05','Memory pool free-space accounting is exact and reclaimable',
 'The free space a memory pool reports always equals the space of its free blocks plus the space never yet handed out, it never exceeds the pool\'s capacity, and it returns to its former value when what was allocated is freed again. Once everything is released, in whatever order, the whole pool can be handed out as one block again.',
 [H],'every bounded allocate/free history',
 'the test prints the remaining space but asserts nothing about it',
 ['allocators/mempool/mempool.c'],[('accounting','allocators/mempool/mempool.c: harbol_mempool_mem_remaining'),('coalescing','allocators/mempool/mempool.c: harbol_freelist_insert')],
 'histories of 4..7 operations followed by releasing all blocks in every order; pool of 320 bytes')
prop('C01','Dynamic array behaves as a sequence of fixed-size records',
 'Insertion, deletion by index, range or value, pop, swap, reverse, fill, shuffle, append, copy and slicing of an array leave exactly the records that the same operation on a mathematical sequence leaves, in order and bit for bit. Out-of-range or wrap-around indices and ranges are refused or clamped, never touching memory outside the array.',
 [I,H],'every content, every index and every range value, over the full 64-bit range',
 'tests use one fixed content per operation and in-range indices',
 ['array/array.c','harbol_common_defines.h','harbol_common_includes.h'],[('element shifting','harbol_common_includes.h: array_shift_up'),('operations','array/array.c')],
 'arrays of up to 4..6 records of 1..3 bytes with arbitrary content; indices and ranges 64-bit; one operation on 9, 17 or 33 records of up to 24 bytes at chosen positions')
prop('C02','Array capacity covers its length through growth, shrinking and reuse',
 'Through creation, growth, shrinking, resizing, clearing and reuse, an array keeps its surviving records unchanged, its storage is always large enough for its length, and a failed or refused resize leaves it as it was. Emptying it releases its storage and leaves it usable.',
 [I,H],'every length/capacity pair and requested size',
 'tests grow arrays only; shrinking below the length and resize to zero are not exercised',
 ['array/array.c'],[('resize','array/array.c: harbol_array_resize, harbol_array_grow, harbol_array_shrink')],
 'capacities up to 6, symbolic new size up to 12; two operations over capacities up to 40')
prop('C03','Byte buffer is exactly the concatenation of what was put in',
 'After any insertion of bytes, integers, floats, objects, strings, zero runs, whole files or other buffers, a byte buffer holds exactly the previous bytes followed by the bytes of the new item, and its capacity covers its length. Deleting a range removes exactly that range, oversized requests are refused unchanged, and writing it out yields exactly its bytes.',
 [I,H],'every buffer content, every inserted value, every index/range and every block size incl. wrap-around sizes',
 'tests insert fixed values and print them',
 ['bytebuffer/bytebuffer.c'],[('growth check before copy','bytebuffer/bytebuffer.c: HARBOL_BYTEBUFFER_INSERTION')],
 'buffers of up to 6 bytes content at exact/loose/zero capacity, blocks of 0..4 bytes plus wrap-around sizes; histories of 3 operations (4 thorough) with blocks of up to 100 bytes')
prop('C04','Deque behaves as a double-ended queue and leaks nothing',
 'Any sequence of pushes and pops at either end leaves a deque reading the same from front to back as the mathematical sequence, and the reverse from back to front; popped and freed nodes are recycled without ever aliasing a live one. Resetting and clearing make it empty, reusable and free of leaks.',
 [I,H],'every operation history of bounded length with arbitrary values',
 'tests push and pop in two fixed orders; node recycling bugs need a particular mix',
 ['deque/deque.c'],[('node recycling','deque/deque.c'),('link maintenance','deque/deque.c')],
 'every history of 8 operations at either end (10 thorough), with a reset anywhere, and mixed patterns of 5..8; values symbolic; 29 pushes with values of up to 100 bytes and runs of pops')
prop('C05','Map lookups agree with a dictionary of byte-string keys',
 'After any history of insertions, updates and removals, looking a key up finds it exactly when it was inserted and not removed since, and yields the value last stored under that key, whatever the table size and however the keys collide. Keys are compared by all their bytes and their length; inserting a present key is refused and changes nothing.',
 [I,H,C],'every pair of keys/values within the bound, every collision pattern and table size incl. wrap-around of probing',
 'tests use a few string keys that hardly collide; collision and wrap-around paths depend on hash values',
 ['map/map.c'],[('open addressing over buckets','map/map.c: _get_bucket / harbol_map_get_entry_index'),('rehash','map/map.c: harbol_map_rehash')],
 'histories of 3..5 operations with 1..2-byte symbolic keys on tables of 1..8 buckets; hash replaced by an arbitrary function where noted; every history of 4..5 operations over three keys with growth; three 11-byte keys with equal hashes (4 operations), 9 or 17 keys of up to 130 bytes (24 thorough)')
prop('C06','Map keeps insertion order, index access and value search consistent',
 'Entries of a map are numbered 0..len-1 in order of insertion; access by index, by key and by value agree with each other after every removal, update and table growth, and removal closes the gap keeping the order of the rest. Updating a value through its index or its key replaces its bytes and its recorded size together.',
 [I,H],'every bounded history of insert/remove/update by key or index',
 'tests never remove from the middle and look the rest up again',
 ['map/map.c'],[('parallel key/value arrays','map/map.c: harbol_map_idx_rm, harbol_map_idx_set')],
 'histories of 3..5 operations; 9 or 17 entries of mixed sizes, two changes')
prop('C07','Tree keeps parent, child order, values and ownership consistent',
 'Inserting, removing and searching children of a tree node act on an ordered sequence of children: a removed child disappears with its whole subtree, the others keep their order, and searching by value compares size and bytes. Storing a value in a node replaces the old one completely, and freeing the tree releases every node exactly once.',
 [I,H],'every value, every index, every bounded tree shape',
 'tests build one tree and print it',
 ['tree/tree.c'],[('child array','tree/tree.c: harbol_tree_insert_*, harbol_tree_rm_*'),('value storage','tree/tree.c: harbol_tree_set')],
 'trees of up to 4 children and depth 2, values of 1..8 bytes; every history of 4 operations (5 thorough); up to 10 children; values of up to 100 bytes')
prop('C08','Tuple layout equals the C struct layout of its fields',
 'For every list of field sizes a tuple is created with, each field has its own, in-bounds, non-overlapping storage at the offset a C compiler gives a struct of those field types (or back to back when packed), and the total size is that struct\'s size. Field lists whose total cannot be represented are refused; setting one field never changes another; reading past the last field is refused.',
 [I],'every list of up to 4 field sizes (16-bit), packed or not',
 'tests use one fixed struct',
 ['tuple/tuple.c'],[('offset computation','tuple/tuple.c: harbol_tuple_init')],
 'up to 4 fields; ABI comparison for sizes 1,2,4,8,16; the single-object form; 4..9 fields of mixed natural sizes')
prop('C09','Variant returns exactly what was stored, with its size and type',
 'A variant yields exactly the bytes, size and type tag last stored in it, through creation, overwriting with smaller or larger values and clearing; it refuses reads when empty and never touches memory beyond the stored size.',
 [I,H],'every value of up to 8 bytes and every sequence of two stores',
 'tests store a few literals',
 ['variant/variant.c'],[('store/overwrite','variant/variant.c: harbol_variant_init, harbol_variant_set')],
 'values up to 8 bytes, sequences of stores; values of up to 100 bytes, three replacements')
prop('C10','Intrusive linked-list helpers keep lists well linked',
 'Inserting before or after a node, adding at the head or tail, and unlinking leave every singly and doubly linked list well formed: the nodes are exactly the expected ones in order, first and last nodes have no outward links, and next/previous are mutually inverse.',
 [I,H],'every position in lists of up to 4 nodes and arbitrary stale links in the inserted node',
 'only used indirectly by the allocator tests',
 ['harbol_common_includes.h'],[('link helpers','harbol_common_includes.h: harbol_link_*, harbol_bilink_*')],
 'lists of up to 4 nodes')
prop('S01','Strings stay terminated, with length equal to their text',
 'After every operation a string\'s length equals the number of characters in its text and the text is followed by a terminator inside its own storage; adding, repeating, copying, formatting, reversing, case changes, trimming, character removal and file reading produce exactly the text the operation names. An operation that cannot be done reports failure and leaves the text as it was.',
 [I,H],'every text and argument within the length bound, every repetition count incl. wrap-around',
 'tests apply each operation once to one literal',
 ['str/str.c'],[('storage growth','str/str.c'),('length bookkeeping','str/str.c')],
 'texts of up to 4..6 arbitrary bytes; histories of 3 operations (4 thorough) on texts of up to some 320 characters')
prop('S02','String search and replacement match their definition',
 'Counting, locating and listing occurrences of a character or substring agree with a straightforward left-to-right scan, comparison agrees with byte order, and palindrome tests with the definition. Replacing n occurrences, or a range, yields exactly the text with those parts exchanged and nothing else, never writing outside the string.',
 [I],'every text, pattern and replacement within the bounds, every count and range limit',
 'tests replace one literal in one literal',
 ['str/str.c'],[('search','str/str.c: harbol_string_count_cstr, harbol_string_cstr_offsets'),('replace','str/str.c: harbol_string_replace_cstr, harbol_string_replace_range')],
 'texts up to 4..5 bytes, patterns up to 2, replacements up to 3; five texts of up to 40 characters with repeated and overlapping parts')
prop('L01','Scanners never run past the end of the text and count lines right',
 'Every scanner that skips, clears or collects text (characters of a class, quoted strings, comments, multi-character quotes) stops at or before the terminator for every input, including unterminated quotes and comments and escapes in last position, and reports the position it reached. The text collected, the text blanked out and the number of newlines counted are exactly those of the part skipped; single-line comments continue over a line that has a backslash. Unifying line ends and expanding tabs changes nothing else in a text.',
 [I],'every text within the bound, any escape character, any class of characters',
 'tests scan well-formed literals only',
 ['lex/lex.c'],[('scanners','lex/lex.c: skip_*, lex_*_comment, lex_multiquote_string, lex_until*')],
 'texts of up to 5..6 arbitrary bytes')
prop('L02','Number scanners accept well-formed numbers whole and refuse malformed ones',
 'On a text starting with a digit or a dot, the C-style and Go-style number scanners accept every hexadecimal, octal, binary, decimal or floating literal of their language (with digit separators, exponents and, in C, suffixes) as a whole, hand back exactly its characters and say correctly whether it is a float. Whatever they accept has no doubled, trailing or misplaced separator, no digit foreign to its base, at most one dot and one exponent, an exponent with decimal digits, and no repeated, mixed-up or inner suffix. They stop inside the text for every input and report a missing prefix.',
 [I],'every text within the bound',
 'tests scan fixed literals',
 ['lex/lex.c'],[('number scanners','lex/lex.c: lex_c_style_*, lex_go_style_*')],
 'texts of up to 4..7 bytes; not claimed: a base prefix without digits, a lone dot, a separator directly behind a C prefix, C numbers of two leading zeros')
prop('L03','UTF-8 encoding and decoding are inverse and bounds-safe',
 'Encoding any valid code point and decoding it gives it back, with the length announced by its first byte; whole strings convert to code points and back unchanged. Truncated or malformed input is never read past its stated length or terminator and never decodes to more bytes than given.',
 [I],'every code point; every byte string within the bound, well-formed or not',
 'tests convert one sample text',
 ['lex/lex.c'],[('utf-8','lex/lex.c: write_utf8_cstr, read_utf8, utf8_cstr_to_rune')],
 'all code points; byte strings up to 5 bytes')
prop('L04','String-literal scanning decodes escapes exactly and stays in the text',
 'Scanning a quoted literal yields exactly its characters with every escape (control, octal of up to three digits, hexadecimal, Unicode) replaced by its meaning, and ends just past the closing quote; Go literals in back quotes keep their backslashes. Unterminated literals and escapes without digits, out of range or of code points that may not be escaped are reported as such errors without reading past the terminator.',
 [I],'every text within the bound',
 'tests scan one literal',
 ['lex/lex.c'],[('escapes','lex/lex.c: lex_hex_escape_char, lex_octal_escape_char, lex_unicode_char, _lex_str')],
 'texts of up to 5..6 bytes')
prop('L05','Digit strings convert to the integer they denote in their base',
 'Converting a digit string with a custom numeral set and base yields the integer it denotes, signed or unsigned, and reports digits outside the set; byte and code-point versions agree.',
 [I],'every digit string within the bound, bases 2..16',
 'tests convert one literal',
 ['lex/lex.c'],[('conversion','lex/lex.c: convert_cstr_to_base_int, convert_runes_to_base_uint')],
 'up to 4 digits, numeral sets of up to 16 characters')
prop('M01','Math expressions of any text parse safely and terminate',
 'Parsing any text as a math expression terminates, stays inside the text and its own buffers however long its numbers and names are, calls the variable resolver only with complete terminated names and the caller\'s data, and releases everything it allocated.',
 [I],'every text of bounded length; long digit and letter runs',
 'tests evaluate a few valid expressions',
 ['math/math_parser.c'],[('tokenizer','math/math_parser.c')],
 'texts of 4 arbitrary bytes (5 thorough), and runs of 62..140 equal characters of every class followed by an arbitrary byte')
prop('M02','Math expressions evaluate with the documented precedence',
 'The value of a well-formed expression is the one its grammar gives: brackets first, then signs (plus gives the magnitude), then powers, products and quotients, sums and differences, each level from left to right, with variables replaced by what the resolver returns and functions applied to the operand behind them. Spaces between tokens change nothing, and a decimal literal of any length denotes its digits.',
 [I,'programs'],'every expression of the bounded grammar with arbitrary operand values',
 'tests evaluate a few fixed expressions',
 ['math/math_parser.c'],[('precedence climbing','math/math_parser.c')],
 'expressions of 5..7 characters (9 thorough); operand values unknown, arithmetic operations left uninterpreted; literals of 3 digits with a dot anywhere, behind up to 70 zeros')
prop('M03','Predefined names in math expressions mean their constant or function',
 'The predefined resolver of math expressions knows exactly e, pi and the fourteen documented functions: each name gives that constant or that function of its argument, and every other name, however similar, gives neither and leaves the value alone. Used within an expression, a predefined function applies to the operand behind it.',
 [I],'every name of up to nine letters or digits, every near miss of a predefined name, every operand value',
 'the test prints a few results',
 ['math/math_parser.c'],[('resolver','math/math_parser.c: harbol_math_default_var_func')],
 'names of up to 9 characters (near misses of every predefined name, one character changed, added or missing); library functions of the C library uninterpreted except rounding')
prop('U01','Copying, hashing, reading and formatting helpers do exactly what they say',
 'The shared helpers copy exactly the bytes asked for, read a whole file into a terminated buffer of exactly its bytes, format a text of exactly the right size, choose the first alternative that equals a text, and hash every byte once in order. When memory runs out or a file is missing or empty they hand out nothing and leave nothing behind.',
 [I,F],'every content of bounded size, every stop byte, every hash seed, every choice of which memory request fails',
 'no test calls them directly',
 ['harbol_common_includes.h'],[('helpers','harbol_common_includes.h: harbol_memccpy, make_buffer_from_file, sprintf_alloc, cstr_switch, array_hash')],
 'contents of up to 6 bytes, files of up to 6 bytes')
prop('I01','Integer helpers return the mathematically exact result',
 'The helpers for digit counts, integer logarithms, alignment, powers of two, byte masks and bounds return, for every machine integer, exactly the value their definition names, including zero, the extreme values and negative numbers.',
 [I],'every 64-bit integer',
 'tests print the helpers for a few values',
 ['harbol_common_includes.h','harbol_common_defines.h'],[('helpers','harbol_common_includes.h: base_10_num_chars_int, int_log10, harbol_align_size, next_pow_of_2, bytes_bitmask')],
 'full 64-bit range; base-N logs for bases 3,7,16')
prop('R01','Mersenne Twister follows its recurrences from every seed and state',
 'For every seed the whole initial state is the documented multiplicative expansion; for every state a regeneration replaces all words by the twister recurrence, and each draw hands out the next word exactly once, tempered, without touching the rest of the state. Positions outside of the state start over with the default seed, and floating draws are the drawn word scaled to [0,1].',
 [I,H],'every seed, every state, every position',
 'nothing tests the generator',
 ['mtwister/mtwister.h'],[('generator','mtwister/mtwister.h: MT_SeedRand, MT_GenRand_UInt, MT_GenRand_F64')],
 'complete for one draw from an arbitrary state; the words are as wide as the machine word, as the code has them')
prop('G01','Config parser survives any text without memory errors',
 'Parsing any text or file as a configuration terminates, stays inside the text and leaves nothing behind but the configuration it returns, which is complete up to the first error: every entry has a name and a value of its type. A file that cannot be read is reported, or skipped when included. Printing the result and freeing it touch nothing twice and release everything.',
 [I],'every text built from a bounded number of arbitrary bytes inside section/value contexts',
 'tests parse two well-formed files',
 ['cfg/cfg.c'],[('recursive-descent parser','cfg/cfg.c: harbol_cfg_parse_section and friends')],
 '3 arbitrary bytes (4 thorough) in 21 surrounding contexts: keys, strings, math, numbers, colours, vectors, comments, nested sections, counters; files of up to 3 bytes. Not claimed: files that include themselves')
prop('G02','Config path lookups and updates address exactly the named entry',
 'A dotted path (with escaped dots) leads to exactly the entry reached by following its names through nested sections: never to a same-named ancestor, never through a value that is no section. Updating an entry through its path changes that entry alone, keeps its declared type unless conversion is allowed, and is then visible to lookups.',
 [I,H],'every path of bounded length over the name letters, dots and backslashes on trees of all name assignments; every entry updated with every type',
 'tests look up distinct names only',
 ['cfg/cfg.c'],[('path walk','cfg/cfg.c: _get_var'),('typed setters','cfg/cfg.c: harbol_cfg_set_*')],
 'nesting depth up to 3, one- and two-letter names, paths up to 5 characters (6 thorough); values arbitrary; not claimed: empty names and trailing dots')
prop('G03','Writing a configuration and parsing it back keeps structure and values',
 'Text or a file produced from a configuration parses back to a configuration with the same sections, keys, types and values, in the same order, for integers, booleans, strings, colours and null. A file that cannot be made is reported.',
 [I],'every integer/boolean/string/colour value and every key within the bound, every arrangement of entries and sections',
 'tests print the generated text only',
 ['cfg/cfg.c'],[('writers','cfg/cfg.c: harbol_cfg_to_str, harbol_cfg_build_file')],
 'integers of up to three digits and the extremes; strings of up to 3 and keys of up to 2 arbitrary bytes; arrangements of 4 entries; not claimed: the texts <math, <enum>, <include> in keys and strings, which are commands')
prop('G04','Config text yields exactly the entries it spells',
 'Integers of every base with sign, separators and suffix, booleans, null, strings, colours and nested sections are read with the names, types, values and order the text gives, whatever blanks, commas, colons and comments stand between them. Local counters count within their section, global ones through the whole text, for values and for names alike; an expression inside a string or a name is replaced by its value and nothing else changes.',
 [I],'every integer of bounded length in every base; every sequence of entries within the bound with arbitrary separators and comment texts',
 'tests parse two fixed files',
 ['cfg/cfg.c'],[('entry parser','cfg/cfg.c: harbol_cfg_parse_key_val'),('numbers','cfg/cfg.c: _lex_number, _number_to_int')],
 'integers of up to 3 digits and separators (4 thorough); sequences of 2..4 entries (5 thorough); up to 3 arbitrary characters around an expression')
prop('K01','Plugin handles are opened, closed and reported exactly once',
 'Loading a plugin either leaves it fully loaded, knowing its path and the date of its file and having run the load callback once, or leaves nothing open and reports the error. Clearing and reloading run the unload callback before closing the library and close it exactly once; a closed library is never used, and a changed file is reported once per change. Symbols come from the open library only, and clearing releases everything.',
 [F,H],'every outcome of opening, inspecting and reading the file and of allocating, every bounded load/reload/clear history',
 'the plugin test loads a good library once',
 ['plugins/plugins.c'],[('load/reload/clear','plugins/plugins.c')],
 'dlopen/stat/dlsym/dlclose and the allocator replaced by arbitrary outcomes; histories of 4 operations (5 thorough). Not claimed: loading over a loaded plugin')
prop('K02','Scanning a plugin directory hands out every matching file once',
 'Scanning a directory terminates whatever its entries are and hands out exactly the files with the requested (or default) extension, each once with its full path and name, including those of sub directories that are not hidden. Entries and directories that cannot be read are skipped, and every directory that was opened is closed.',
 [I,F],'every directory within the bound, with every outcome of opening and inspecting its entries',
 'the test directory holds readable files only',
 ['plugins/plugins.c','plugins/tinydir.h'],[('scan','plugins/plugins.c: harbol_plugin_dir_open, plugins/tinydir.h')],
 'two entries with arbitrary names of up to 4 bytes besides . and .., sub directories with one entry (two thorough); the system calls are replaced by an arbitrary tree. Not claimed: names with backslashes')
prop('D01','Diagnostics split source text into exactly its lines',
 'The line table of a diagnostic source holds exactly the lines of the text, in order and without their newlines, whatever the position and number of newlines, for the empty text and for a last line without newline; line numbers outside the table are refused.',
 [I],'every text within the bound',
 'tests use one text ending in a newline',
 ['msg_span/msg_span.c'],[('line splitting','msg_span/msg_span.c: harbol_msg_span_init')],
 'texts of up to 5..6 bytes')
prop('D02','Diagnostic spans merge to their hull; labels and notes are kept in order',
 'Merging two source spans gives the smallest span covering both, independent of argument order. Labels and notes added to a diagnostic are kept in the order added with exactly the text given, and clearing releases everything.',
 [I,H],'every pair of spans; every label span',
 'tests merge nothing and add fixed labels',
 ['msg_span/msg_span.c'],[('merge','msg_span/msg_span.c: harbol_token_span_merge'),('labels','msg_span/msg_span.c: harbol_msg_span_add_label')],
 'all 32-bit coordinates; up to 2 labels/notes')
prop('D03','Emitted diagnostics show every label, line and note, in order',
 'Printing a diagnostic writes its head, then for each label the source lines of its span numbered and aligned, a mark under exactly its columns and its message, then the notes, in the order they were added. Lines outside the source, empty lines and spans ending left of their start are printed without reading anything that is not there; afterwards the labels and notes are gone and the count of messages is one higher.',
 [I],'every span over the lines and columns of a text with arbitrary characters, present or not; every combination of the optional parts',
 'the test prints to the terminal and checks nothing',
 ['msg_span/msg_span.c'],[('output','msg_span/msg_span.c: harbol_msg_span_emit_to_stream, _output_span')],
 'a source of three lines, up to 2 labels and 1 note, lines 0..4 and far beyond, columns 0..3')
prop('D04','Plain messages are written as place, kind and text, and counted',
 'A message is written as its place (file, then line and column where given) in brackets, its kind in its colour, and its formatted text between stars, on one line, for any file name, kind and text. The count of messages rises by one where one is given; without a file no place is written.',
 [I],'every presence of the optional parts, arbitrary names and texts, extreme line numbers',
 'the test prints to the terminal and checks nothing',
 ['msg_sys/msg_sys.c'],[('output','msg_sys/msg_sys.c: harbol_write_msg')],
 'names and texts of up to 2 arbitrary characters; up to 3 messages in a row')
prop('O01','Running out of memory never corrupts, leaks or half-applies an operation',
 'When any memory request of an operation on arrays, buffers, strings, maps, deques, trees, tuples, variants or the multi-buffer helpers fails, the operation reports failure, the object keeps its previous contents and stays usable, and nothing leaks or is freed twice. Reallocation helpers zero the newly gained part and keep the old part.',
 [F,I],'every choice of which memory requests fail, within one operation or a short history',
 'no test makes an allocation fail',
 ['harbol_common_includes.h','array/array.c','bytebuffer/bytebuffer.c','deque/deque.c','map/map.c','str/str.c','tree/tree.c','tuple/tuple.c','variant/variant.c'],[('failure paths','every allocation site'),('multi-allocation helpers','harbol_common_includes.h: harbol_multi_calloc, harbol_multi_recalloc, harbol_recalloc')],
 'any subset of the allocations of a bounded operation fails')
prop('N01','Integer-log tables built at run time match the exact logarithms',
 'The tables of integer powers and logarithms built for an arbitrary base equal the exact integer values.',
 [I],'every base','tests print a table',['harbol_common_includes.h'],[('table builder','harbol_common_includes.h: make_int_log_tables')],'',
 na='the table builder computes with floating-point log/pow from libm, whose implementation is not part of the code and has no faithful SMT encoding; an over-approximated log makes every assertion undecidable')
prop('N02','Floating-point configuration values survive a text round trip',
 'A floating-point value written to configuration text and parsed back is the same value to the printed precision.',
 [I],'every floating value','tests print text only',['cfg/cfg.c'],[('writer','cfg/cfg.c: harbol_cfg_to_str')],'',
 na='goes through printf("%Lf") and strtold of libc on 80-bit long double: neither the libc code nor x87 extended arithmetic can be encoded within reach')
