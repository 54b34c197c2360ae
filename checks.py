"""Which harness modules decide which property, and in which instruction-set configurations."""
CONFIGS = {'base': [], 'popcnt': ['-mpopcnt'], 'bmi': ['-mpopcnt', '-mbmi', '-mlzcnt'], 'haswell': ['-march=haswell']}
ISA4 = ['base', 'popcnt', 'bmi', 'haswell']
TRUST = ' Trusted: clang 18 as the reading of the C++ source, the engine (self-tested against Z3; its models are replayed on the g++ -O3 build and must give identical observations), the SAT solvers.'
CHECKS = {
    'B01': {'modules': [('bits', ISA4)], 'note': 'Decided for every word and width, in four instruction-set configurations; no bound other than the word size.' + TRUST},
    'B02': {'modules': [('bits', ['base', 'popcnt'])], 'note': 'Decided for every 64-bit word, portable and POPCNT code paths.' + TRUST},
    'B03': {'modules': [('bits', ISA4)], 'note': 'Decided for every 32- and 64-bit word, in four instruction-set configurations.' + TRUST},
    'B04': {'modules': [('bits', ISA4)], 'note': 'Decided for every 64-bit word and every valid i, in four instruction-set configurations (portable, POPCNT, BMI, BMI2).' + TRUST},
    'B05': {'modules': [('bits', ['base', 'bmi'])], 'note': 'Decided for every word, start and length, portable and BMI code paths.' + TRUST},
    'B06': {'modules': [('bits256', ['base', 'popcnt', 'haswell'])], 'note': 'Decided for every 256-bit block and every mask, portable and AVX2 code paths.' + TRUST},
    'G01': {'modules': [('calc', ['base'])], 'note': 'Single values: decided for every 64-bit value. Frequency lists: up to 2 elements (thorough 3) of selected bit lengths with every value of that length, one element with every value, 4 elements below 16, and lists of 255..600 (thorough 4097) fixed elements with one symbolic, 65535..70000 (300000) bytes of two bit lengths. Outside: other longer lists.' + TRUST},
    'D02': {'modules': [('calc', ['base'])], 'note': 'Decided for 1 arbitrary element, up to 2 (thorough 3) elements of selected bit lengths, 4 (6) small elements, lists of runs up to about 15000 elements whose lengths come from a grid, and lists of 255..600 (thorough 4097) fixed elements with one symbolic; values inside a bit length are symbolic. Outside: other profiles.' + TRUST},
    'V01': {'modules': [('bitvec', ['base'])], 'note': 'Every step from every state up to 140 (thorough 200) bits, so histories of any length inside that size; observed at a symbolic index. Larger vectors, to 4097 (thorough 70001) bits, with fixed contents and selected sizes. Outside: other large contents and sizes.' + TRUST},
    'V02': {'modules': [('bitvec', ['base'])], 'note': 'Every range, start and distance within vectors of up to 140 (thorough 200) bits; larger vectors with selected ranges and any pair of iterators in 2^20 bits. Outside: other ranges of larger vectors.' + TRUST},
    'S01': {'modules': [('succinct', ['base'])], 'note': 'Every content and prefix of 0..130 bits and of selected sizes around block ends up to 1151 bits (thorough 2175); 4095..66049 (thorough 131584) bits of 4 fillings with one symbolic bit. Outside: other sizes and fillings.' + TRUST},
    'S02': {'modules': [('succinct', ['base'])], 'flags': ['--contracts'], 'note': 'Every content and k up to 127 bits; vectors up to about 2300 bits by blocks of fixed fillings with 14 symbolic bits, at the words next to block ends, and 4095..66049 (thorough 131584) bits of 4 fillings with one symbolic bit, on a grid. sel is replaced by its contract where the same run has proved it. Outside: other fillings and sizes.' + TRUST},
    'F01': {'modules': [('fit', ['base'])], 'note': 'Every width 1..64; every single step from vectors of up to 11 (thorough 66) elements and histories of 3 (4) steps from empty; 255..4096 (thorough 65537) elements of 4 widths with fixed contents and any written value. Outside: other longer vectors and histories.' + TRUST},
    'F02': {'modules': [('fit', ['base'])], 'note': 'Every content of vectors of up to 3 64-bit, 3 32-bit, 4 16-bit or 5 8-bit values (thorough 5, 5, 4, 8); 255..4096 (thorough 65537) values fixed but the largest. Outside: other longer vectors.' + TRUST},
    'M01': {'modules': [('multi', ['base'])], 'note': 'Three fields of selected (thorough: all) byte widths, up to 4 blocks, every value; 1, 2, 5 and 9 fields with 3 blocks; histories of 3 steps; 255..4096 (thorough 65537) blocks with one symbolic. Outside: other field counts, other large contents, longer histories.' + TRUST},
    'U01': {'modules': [('multi', ['base'])], 'note': 'Writes: every history of 3 (thorough 4) writes below index 150 (300). Ranks: every vector of 66/36/24 symbols, 12 symbolic symbols around word and tip boundaries of vectors up to two tips long, and vectors of 255..4097 (thorough 140000) symbols in 3 fillings with one symbolic. Outside: other fillings and sizes.' + TRUST},
    'W01': {'modules': [('composite', ['base'])], 'note': 'The empty sequence; every sequence of up to 16 (thorough 32) 1-bit, 9 (14) 2-bit and 6 (8) 3-bit symbols, 1 symbol of up to 8 bits and 2 of up to 6 (8), every position and symbol; 64..576 (thorough 1030) symbols with 4 symbolic ones at a word or block end; 300..4200 (thorough 70000) fixed symbols of 1, 4 and 8 bits with one symbolic bit. Outside: other longer sequences.' + TRUST},
    'D01': {'modules': [('composite', ['base'])], 'note': 'One element with every value; up to 3 (thorough 4) elements of selected bit lengths and 5 (7) below 16 with every value; 70 and 130 elements with 4 symbolic; 300..4200 (thorough 70000) fixed elements with one symbolic; 12 explicit layouts for up to 3 elements. Outside: other longer vectors and layouts, values that an explicit layout cannot hold.' + TRUST},
    'H01': {'modules': [('heap', ['base'])], 'note': 'Every history of 4 pushes and pops from empty and every build of up to 5 (thorough 7) elements, every 64-bit key, min and max order; heaps of 6..16 elements below 16 in heap order, then pushes and pops; heaps of 31..257 (thorough 4097) fixed elements in 5 orders, of up to 100 (thorough 1000) with any pushed value. Outside: other larger heaps, longer histories.' + TRUST},
    'H02': {'modules': [('heap', ['base'])], 'note': 'Every content of ranges of up to 4 64-bit values, 5 (signed, keyed) values, 6..8 small values, both orders; 31..257 (thorough 4097) fixed values in 5 orders. Outside: other longer ranges.' + TRUST},
    'C01': {'modules': [('hash', ['base'])], 'note': 'Every key of every width 1..64, every multiplier row used by the code. Outside: nothing within the supported widths.' + TRUST},
    'C02': {'modules': [('hash', ['base'])], 'note': 'Histories of 3..6 operations (set, erase, get, fill, reserve) over 1..8 buckets, of which 1..4 are in use, with symbolic quotients and values, growing and shrinking included; the library\'s hash and key widths up to 60 bits; fixed histories of 60..1200 (thorough 8000) sets and erases with one symbolic value. Outside: other longer histories, keys of more than 60 bits.' + TRUST},
    'C03': {'modules': [('hash', ['base'])], 'note': 'Arrays of 1..9 elements, histories of 2..4 sets of values of 0, 1, 2, 7 and 64 bits (any bit length for two), every value of that length; CDRWVector histories of 3 (thorough 4) operations; arrays and vectors of 40..1000 (thorough 5000) elements with fixed histories and one symbolic value. Outside: other longer histories and larger arrays.' + TRUST},
    'I01': {'modules': [('initarr', ['base'])], 'note': 'In place: 2..10 elements of 8 to 64 bits, integer and floating, arbitrary prior memory; histories of 2..4 operations with every index and value; 40..1000 (thorough 5000) elements with sets at selected indices. Folklore: 1..3 elements, histories of 4 or 5 operations; 255..1000 elements. Outside: longer histories, 64-bit integer elements (the header does not compile for them).' + TRUST},
    'P01': {'modules': [('match', ['base'])], 'note': 'Every key of 1..3 and text of 0..6 arbitrary bytes; every key of 2..5 and text of 5..9 letters of a 2-letter alphabet, of up to 4 and 7 letters of a 4-letter alphabet, keys of 6..8 with texts up to 3 letters longer (thorough: up to two letters more each). Also fixed texts and keys of 9..256 (thorough 301 and 600) letters with one replaced byte. Outside: empty keys, other longer keys and texts.' + TRUST},
    'P02': {'modules': [('match', ['base'])], 'note': 'Every key of 1..2 and text of 0..3 arbitrary non-NUL bytes; every key of 1..3 letters of {a, b, 0xff} in every text of 2..5 non-NUL bytes; every 2-letter-alphabet key of 2..4 in texts of 5..7 and of 6 in texts of 9 (thorough: one more each). Also fixed texts and keys of 9..256 (thorough 301 and 600) letters with one replaced byte. Outside: empty keys, NUL bytes, other longer keys and texts.' + TRUST},
    'P03': {'modules': [('match', ['base'])], 'note': 'As P01; keys of up to 100 (thorough 256) letters in the large Maximal Shift entry, whose preprocessing takes cubic time.' + TRUST},
    'O01': {'modules': [('oracle', ['base'])], 'note': 'Every text of up to 6 letters of a 2-letter or 4 of a 3-letter alphabet (thorough 8 and 5) with every query of up to one byte more; pseudo-random texts of 64..576 letters over 3 to 255 letters, where every suffix on a grid must be accepted and every byte after it is symbolic. Outside: other long texts, texts with NUL bytes.' + TRUST},
    'T01': {'modules': [('trie', ['base'])], 'note': 'Histories of 1..4 insertions of keys of up to 3, 2, 1, 1 arbitrary non-NUL bytes with any items, 3 insertions of words of up to 2 letters of {a, b}; any query one byte longer; both walks; 30 and 300 (thorough 3000) pseudo-random keys. Outside: other larger sets, longer keys, keys with NUL bytes.' + TRUST},
    'A01': {'modules': [('samc', ['base'])], 'note': 'Every subset of fixed universes of 7 or 8 short words, every set of one 1-byte key, pseudo-random sets of up to 500 words; both constructions, 32- and 8-bit codes. For each set every query of up to 3..5 arbitrary bytes. The sets are fixed or case-split, the queries are symbolic. Outside: other key sets, longer queries, keys with bytes 0 or 255, sets too large for the code type.' + TRUST},
    'A02': {'modules': [('samc', ['base'])], 'note': 'As A01, 32-bit codes.' + TRUST},
    'X01': {'modules': [('sarray', ['base'])], 'note': 'Every text of 0..2 non-NUL bytes, of 3..5 (thorough 6) letters of a 2-letter and 1..4 (5) of a 4-letter alphabet, 1..6 (8) letters of {a, b, 0xff}; pseudo-random and periodic texts of 32, 40 and 300 letters with one replaced letter (case split). Outside: other texts, texts with NUL bytes.' + TRUST},
    'R01': {'modules': [('serial', ['base'])], 'note': 'Every content of small containers (up to 130 bits, 3 integers, 2 blocks; thorough more), larger ones with up to 10 symbolic elements; into fresh, smaller and larger targets. The stream is a flat memory buffer in the engine, a std::stringstream in replays. Containers of 255..4097 (thorough 66000) elements of fixed content with at most one symbolic. Outside: other larger containers, failing streams.' + TRUST},
    'R02': {'modules': [('serial', ['base'])], 'note': 'Every content of small structures: DacVectors of up to 3 elements of selected bit lengths, wavelet trees of up to 8, 5, 4 symbols of 1, 2, 3 bits, subsets of 5 keys, suffix arrays of up to 3 letters; into fresh and non-empty targets. DacVectors, wavelet trees, key sets and suffix arrays of 100..4097 (thorough more) elements of fixed content. Outside: other larger structures, failing streams.' + TRUST},
    'D03': {'modules': [('calc', ['base'])], 'note': 'One arbitrary element, up to 4 (thorough 6) elements below 16, up to 2 (thorough 3) elements of selected bit lengths, 3 runs of selected lengths and bit lengths, 255..600 (thorough 4097) fixed elements with one symbolic, 65536 and 70000 (300000) bytes of two bit lengths; every value of those bit lengths. Compared with the minimum over all plans, computed by the harness. Outside: other profiles, a binding limit on the layers (the heuristic there promises no optimum).' + TRUST},
    'D04': {'modules': [('composite', ['base'])], 'note': 'Vectors of up to 4 elements of 1, 9 or 64 bits, and explicit layers of 4 and 60 bits; every value of those lengths, every pair of positions. Outside: longer vectors.' + TRUST},
    'H03': {'modules': [('heap', ['base'])], 'note': 'Up to 4 (thorough 5) elements of 6 (8) bits, any one made worse by any value, both orders; 31..100 (thorough 1000) fixed elements in 5 orders with one of 3 positions made worse by any 12-bit value. Outside: other larger heaps; values made better in place (Heapify only sifts down).' + TRUST},
    'I02': {'modules': [('initarr', ['base'])], 'note': 'Arrays of 100..1000 elements of 8, 32 and 64 bits and back-pointer arrays of 50 and 1000, every value, selected indices; bytes written (at most 32) and elements copied are counted. Outside: other lengths.' + TRUST},
    'T02': {'modules': [('trie', ['base'])], 'note': 'One key of up to 2, two of up to 1 non-NUL bytes, three words of up to 1 letter of {a, b, 0xff}, two (thorough three) of up to 2 letters of {a, b}; any path one byte longer. Outside: longer keys, larger sets, keys with NUL bytes.' + TRUST},
    'P04': {'modules': [('match', ['base'])], 'note': 'Keys of 1..3 letters of {a, b}, three texts in turn of 3 and 5 such letters, every content, by case split. Outside: longer keys and texts, more than three texts.' + TRUST},
    'O02': {'modules': [('oracle', ['base'])], 'note': 'Every text of up to 3 (thorough 4) letters of {a, b, 0xff} with every query of up to one byte more; pseudo-random texts of 30..300 letters with queries of 3 letters of the text and 2 arbitrary bytes. Outside: other texts and longer queries, NUL bytes.' + TRUST},
    'K01': {'modules': [('copies', ['base'])], 'note': 'One entry per structure: up to 3 elements with every content (BitVector up to 65 bits, MultiBitVector up to 30 symbols, 4 keys, texts of 3 letters); source, copy, assigned and moved objects are each changed in turn. Outside: larger contents; self-assignment.' + TRUST},
    'Q01': {'modules': [('readers', ['base'])], 'note': 'Everything outside the stack is write-protected while a query runs, in the engine as a rule of its memory model and, in replays, by mprotect; so all interleavings are covered without enumerating them. Contents and arguments: sizes up to 700 bits, 40 elements, 5 keys, texts of 5 (thorough 7) letters, as stated per entry. Outside: larger structures (size-dependent paths), ShowStatus, print_for_debug, writes below the level of the memory model (libc, allocator).' + TRUST},
    'Q02': {'modules': [('readers', ['base'])], 'note': 'As Q01, for building, changing, copying and destroying an object: one history of several operations per structure, sizes and values as stated per entry. Outside: other histories, larger structures, exceptions.' + TRUST},
    'R03': {'modules': [('bytes', ['base'])], 'note': 'Unwritten memory is a fresh unknown per object, so equality of saved bytes is decided for every memory content; histories of 2 (bit and integer vectors), contents and sizes as stated per entry. Outside: larger structures; equality of bytes between equal objects reached by different histories (not promised).' + TRUST},
    'E01': {'modules': [('faults', ['base'])], 'note': 'Every index from the size up to 2^64-1 is one symbolic value. Sizes and contents as stated per entry. Outside: operations whose misuse the library leaves undefined (operator[] and the like).' + TRUST},
    'E02': {'modules': [('faults', ['base'])], 'note': 'The allocation that fails is a symbolic choice: every one of the first ones up to the stated count, a stated stride for operations that make hundreds. One failure per operation. Leaks are judged by counting blocks; replays use a build that fails the same allocation, under AddressSanitizer. Outside: several failures in a row, larger contents, failures while saving (the streams belong to the caller).' + TRUST},
    'Z01': {'modules': [('space', ['base'])], 'note': 'Bit vectors after every history of 3 resizes, assignments and pushes up to 200 bits, integer vectors of every width with up to 9 elements, every content; rank and select vectors to 65536 bits in 4 densities with one word of any value, selected sizes of the other structures with fixed contents. Outside: other large contents, spare capacity of std::vector, memory used while building.' + TRUST},
    'Z02': {'modules': [('cost', ['base'])], 'note': 'Steps are basic blocks entered plus one per 16 bytes allocated, counted by the engine and, in replays, by a g++ build instrumented for it; limits are stated in the harness and leave several times what the code needs. Every content of 1088 (rank) and 640 bits (select), 5 elements (heap); otherwise sizes up to 70000 with fixed contents and one symbolic value or a grid of positions. Outside: BOM and Turbo-BOM (not linear as written), other contents and sizes, wall-clock time.' + TRUST},
}
NOT_APPLICABLE = {}
