#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Edit here, then run."""
import json, os
I = "include/sim_ds/"
S = I + "string_util/"
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [], "hook_needed": None},
    })

# ---- bit primitives
p("B01", "Masks and bit counts are exact for every word and width",
  "For every 8-, 16-, 32- or 64-bit word, popcnt returns its number of 1 bits, and cnt(x, len) the number of 1 bits among its low len bits. WidthMask(w) has exactly its low w bits set for every w from 0 to 64, and OffsetMask(k) only bit k. The same holds in every instruction-set configuration the header supports.",
  ["inputs", "configurations"], "every word (2^64), every width 0..64, plain / POPCNT / BMI / LZCNT builds",
  "Mask_test samples WidthMask/OffsetMask for constants below 64; no test calls popcnt directly, and 2^64 inputs cannot be enumerated.",
  [I + "bit_util.hpp"], [("popcnt8/16/32/64, popcnt, cnt", I + "bit_util.hpp"), ("WidthMask, OffsetMask, width_mask, offset_mask", I + "bit_util.hpp")],
  observe=["sim_ds::bit_util::popcnt", "sim_ds::bit_util::cnt", "sim_ds::bit_util::WidthMask"])
p("B02", "Field-pattern popcounts count exactly the matching fields",
  "popcnt11 and popcnt10 return how many of the 32 two-bit fields of a 64-bit word equal 0b11 and 0b10; popcnt111, popcnt110, popcnt101 and popcnt100 return how many of the 21 three-bit fields equal that pattern.",
  ["inputs", "configurations"], "every 64-bit word, plain and POPCNT builds",
  "Only exercised through MultiBitVector on one periodic pattern; the magic-constant folding can be wrong for rare words only.",
  [I + "bit_util.hpp"], [("popcnt11 .. popcnt100", I + "bit_util.hpp")], observe=["sim_ds::bit_util::popcnt11", "sim_ds::bit_util::popcnt111"])
p("B03", "Leading and trailing zero counts are exact, zero included",
  "ctz(x) and clz(x) return the number of trailing and leading zero bits of every 32-bit and 64-bit word, and the word width for 0.",
  ["inputs", "configurations"], "every 32- and 64-bit word, plain / POPCNT / BMI / LZCNT builds",
  "No test calls them; 64-bit clz and ctz are reached only through CHT and Samc sizes, and the 32-bit clz not at all.",
  [I + "bit_util.hpp"], [("ctz, clz binary reduction", I + "bit_util.hpp")], observe=["sim_ds::bit_util::ctz", "sim_ds::bit_util::clz"])
p("B04", "In-word select finds exactly the i-th 1 bit",
  "For every 64-bit word x and every i from 1 to popcnt(x), sel(x, i) is the 1-based position of the i-th 1 bit of x counting from the least significant bit.",
  ["inputs", "configurations"], "every 64-bit word and every valid i; plain / POPCNT / BMI2 builds",
  "Select tests use bit vectors with density between 1/4 and 1/2, so dense words, whole-word runs and the per-byte table's corners are never met.",
  [I + "bit_util.hpp"], [("sel and its table kLtSel", I + "bit_util.hpp")], observe=["sim_ds::bit_util::sel"])
p("B05", "Bit-field extraction and bit-group swaps are exact",
  "bextr(x, start, len) returns bits start..start+len-1 of x, right aligned. swap_piK(x), for K = 1, 2, 4, 8, 16, 32, moves the bit at every position j to position j XOR K and changes nothing else.",
  ["inputs", "configurations"], "every 64-bit word; every start < 64 and len with start+len <= 64; plain / BMI builds",
  "No test calls them.",
  [I + "bit_util.hpp"], [("bextr", I + "bit_util.hpp"), ("swap_pi1..swap_pi32", I + "bit_util.hpp")], observe=["sim_ds::bit_util::bextr", "sim_ds::bit_util::swap_pi8"])
p("B06", "256-bit word operations agree with bit-by-bit definitions",
  "On every 256-bit block (four little-endian words) popcnt256, ctz256, clz256 and is_zero256 return the number of 1 bits, trailing zeros, leading zeros (256 for an all-zero block) and whether all bits are 0; set256_epi1 and copy256_epi64 fill and copy exactly the block. xor_map(x, m, dst) puts bit j of x at bit j XOR m of dst for every 8-bit m, and touches nothing outside dst.",
  ["inputs", "configurations"], "every 256-bit block and every 8-bit mask; portable and AVX2 builds",
  "bit_util256.hpp is included by no test.",
  [I + "bit_util256.hpp"], [("popcnt256, ctz256, clz256, is_zero256, xor_map", I + "bit_util256.hpp")], observe=["sim_ds::bit_util::xor_map", "sim_ds::bit_util::clz256"])
# ---- calc
p("G01", "Width and frequency calculations are exact",
  "SizeFitsInBits/Bytes/Units(v) is the least positive number of units that represents v, for every 64-bit v. bit_length_frequencies(list) counts, for each bit length, the elements of that length, and cummulative_frequency_list gives for each t the number of elements longer than t bits.",
  ["inputs"], "every 64-bit value; every list within the stated length bound",
  "Tests reach values below 2^32 only, indirectly through FitVector and DacVector.",
  [I + "calc.hpp"], [("SizeFitsInUnits, SizeFitsAsList, bit_length_frequencies, cummulative_frequency_list", I + "calc.hpp")],
  observe=["sim_ds::calc::SizeFitsInBits", "sim_ds::calc::cummulative_frequency_list"])
# ---- bit vector
p("V01", "BitVector behaves as a sequence of bits under every history",
  "After any sequence of construction, indexed assignment, push_back, resize, assign, copy and move, a BitVector has the size and the bit at every index that a plain sequence of booleans would have; bits gained by resize(n, b) all equal b (0 when omitted), kept bits keep their value, and at(i) throws exactly when i >= size. No operation reads or writes outside the vector's storage.",
  ["inputs", "histories"], "every bit pattern, size and operation sequence within the stated bounds, around all word boundaries",
  "BitVector_test builds one vector of 2^24 bits and reads it back; resize, assign, shrink-then-grow and fill are never tested.",
  [I + "BitVector.hpp", I + "BitReference.hpp"], [("_resize, _assign, _fill, _make_ref", I + "BitVector.hpp"), ("BitReference", I + "BitReference.hpp")],
  [("actual_size_", "number of bits", I + "BitVector.hpp"), ("storage_", "64-bit words", I + "BitVector.hpp")],
  ["BitVector::operator[]", "BitVector::size", "BitVector::at"])
p("V02", "BitVector iterators and range fill touch exactly their range",
  "fill(first, last, b) sets every bit in [first, last) to b and leaves every other bit unchanged, for every range. Iterators are random-access: moving by any distance d lands on the bit at index i + d, it2 - it1 is the index distance, and the comparison operators order iterators by index.",
  ["inputs"], "every pair of positions in vectors of up to several words, every content, every signed distance",
  "No test calls fill or moves a BitVector iterator other than one step at a time inside std::transform.",
  [I + "BitVector.hpp", I + "BitReference.hpp"], [("_fill", I + "BitVector.hpp"), ("BitIterator::operator+=", I + "BitReference.hpp")],
  observe=["BitVector::fill", "BitVector::begin"])
# ---- succinct
p("S01", "rank counts the 1 bits of every prefix",
  "For every bit vector and every i from 0 to its size inclusive, rank(i) is the number of 1 bits at positions below i, and rank_0(i) + rank_1(i) = i. Indexing returns the bits the structure was built from. No query reads outside the structure.",
  ["inputs"], "every content and every i for sizes up to several 512-bit blocks, all word and block boundary sizes included",
  "The rank test uses one size (2^24), one density (1/7), and never queries i = size.",
  [I + "SuccinctBitVector.hpp"], [("block directory built in the constructor; rank_1", I + "SuccinctBitVector.hpp")],
  [("basic_block_", "absolute and 9-bit packed relative counts per 512 bits", I + "SuccinctBitVector.hpp")], ["SuccinctBitVector::rank", "SuccinctBitVector::rank_0"])
p("S02", "select is the inverse of rank",
  "For every bit vector built with select support and every k below its number of 1 bits, select(k) is the position of the k-th (0-based) 1 bit, so select(rank(p)) = p for every 1 bit p. No query reads outside the structure.",
  ["inputs"], "every content and every k for sizes up to several 512-bit blocks; every distribution of 1 bits over blocks",
  "The select tests use densities between 1/4 and 1/2 only; sparse-then-dense blocks, all-ones words and a last partial block are not met.",
  [I + "SuccinctBitVector.hpp", I + "bit_util.hpp"], [("select tips, binary search, second-level scan, sel", I + "SuccinctBitVector.hpp")],
  [("select_tips_", "block of every 512th 1 bit", I + "SuccinctBitVector.hpp")], ["SuccinctBitVector<true>::select"])
# ---- packed vectors
p("F01", "FitVector stores every fitting value without disturbing its neighbours",
  "For every element width w from 1 to 64, after any sequence of element assignment, push_back, resize(n, v) and assign(n, v) with values below 2^w, a FitVector has the size and element values a plain vector of integers would have. at(i) throws exactly when i >= size. No operation reads or writes outside its storage.",
  ["inputs", "histories", "configurations"], "every width 1..64, every value, every index within the stated lengths (all alignments to the word boundary)",
  "Tests use widths 17 and 18 only, filled once in order; width 64 (the default) is never tested.",
  [I + "FitVector.hpp", I + "BitsReference.hpp"], [("BitsReference read and write across the word boundary", I + "BitsReference.hpp"), ("resize, push_back, make_ref", I + "FitVector.hpp")],
  [("storage_", "packed words", I + "FitVector.hpp")], ["FitVector::operator[]", "FitVector::size"])
p("F02", "FitVector built from a vector is lossless and minimal",
  "A FitVector built from a vector of unsigned integers holds the same values in the same order, and its unit width is the bit length of the largest value (at least 1; 0 for an empty vector).",
  ["inputs"], "every vector of 64-bit values within the stated length",
  "Values in tests are below 2^18.",
  [I + "FitVector.hpp", I + "calc.hpp"], [("minimal_word_size", I + "FitVector.hpp")], observe=["FitVector::unit_width", "FitVector::operator[]"])
p("M01", "MultipleVector fields hold independent byte-width integers",
  "With fields of any byte widths from 1 to 8, writing a value that fits through any setter (set_nested_element, block().set / set_at / restricted_set, block() = {...}, push_back, resize with values) makes every getter return it for that block and field, and changes no other field or block. Nothing outside the storage is touched.",
  ["inputs", "histories", "configurations"], "every value, index and field; stated field layouts and lengths",
  "Tests use one layout {4, 1} and the two template setters only.",
  [I + "MultipleVector.hpp"], [("BlockReference, BlockConstReference, set_/get_", I + "MultipleVector.hpp")],
  [("element_table_", "position and byte width of each field", I + "MultipleVector.hpp")], ["MultipleVector::block", "MultipleVector::nested_element"])
p("U01", "MultiBitVector stores symbols and ranks non-zero symbols exactly",
  "For unit sizes 1, 2 and 3 bits, after any sequence of set(i, v) the symbol at each written index is the last value written there (0 if only implied by a larger index). After build(), rank(i) of an index holding a non-zero symbol is the number of earlier indices holding the same symbol.",
  ["inputs", "histories"], "every symbol sequence within the stated length, at word and rank-block boundaries",
  "Tests write each index once in order with one periodic pattern.",
  [I + "MultiBitVector.hpp", I + "bit_util.hpp"], [("set, build, rank, popcnt_", I + "MultiBitVector.hpp")],
  [("rank_tips_", "per-symbol absolute and relative counts", I + "MultiBitVector.hpp")], ["MultiBitVector::rank", "MultiBitVector::operator[]"])
p("W01", "WaveletTree access and rank match the source sequence",
  "For every sequence of symbols below 256 and every index, access returns the source symbol, rank(i) the number of earlier occurrences of that symbol, and AccessAndRank(i) both. rank(c, i) is the number of occurrences of c before position i for every symbol c from 0 to the largest source symbol and every i from 0 to the size.",
  ["inputs"], "every sequence within the stated length and alphabet, every query",
  "Tests use alphabets of at most 8 symbols with one distribution and never call rank(c, i) or AccessAndRank.",
  [I + "WaveletTree.hpp", I + "SuccinctBitVector.hpp"], [("level-wise bit vectors, descent by rank", I + "WaveletTree.hpp")], observe=["WaveletTree::operator[]", "WaveletTree::rank"])
p("D01", "DacVector reproduces every element",
  "A DacVector built from any vector of unsigned integers, with automatic layers or with explicit layer widths that together cover the largest value, has the source's size and returns the source's value at every index, by indexing, at() and iteration; it is empty when the source is empty. depth(i) is the number of extra layers element i occupies. Nothing outside its storage is touched.",
  ["inputs", "configurations"], "every value vector within the stated length, every stated layer layout; empty and single-element vectors included",
  "Tests use random 2^k-1 values below 2^32, one explicit layout, and never the empty vector or layouts wider than the data.",
  [I + "DacVector.hpp", I + "calc.hpp"], [("layer construction and operator[]", I + "DacVector.hpp")],
  [("layers_, paths_", "per-level units and continuation bits", I + "DacVector.hpp")], ["DacVector::operator[]", "DacVector::size", "DacVector::depth"])
p("D02", "The automatic DAC layer plan is always valid",
  "For every non-empty list, the layer widths planned for a DAC are all positive, sum to the bit length of the largest element, and number at most the allowed maximum whenever that maximum permits. Planning reads and writes nothing outside its own arrays.",
  ["inputs"], "every list within the stated length; bit lengths up to the stated width; level limits",
  "A test only sees the decoded values of two random inputs; overruns of the planning arrays are silent there.",
  [I + "calc.hpp"], [("split_positions_optimized_for_dac", I + "calc.hpp")], observe=["sim_ds::calc::split_positions_optimized_for_dac"])
# ---- heap and sort
p("H01", "A heap always yields its elements in priority order",
  "After building a heap from any elements and any sequence of push and pop, front is the smallest (MinHeap) or largest (MaxHeap) element present, size is the number of elements present, and popping until empty yields exactly the elements pushed in non-decreasing (non-increasing) order.",
  ["inputs", "histories"], "every value, every interleaving of push and pop within the stated length",
  "Heap_test uses one permutation of 0..9.",
  [I + "Heap.hpp"], [("Build, Heapify, push, pop", I + "Heap.hpp")], [("base_", "implicit binary tree", I + "Heap.hpp")], ["Heap::front", "Heap::pop"])
p("H02", "HeapSort sorts every range in place",
  "HeapSort(first, last, less) rearranges the range so that it is ordered by less and is a permutation of the original, for every range, including the empty one, and touches nothing outside it.",
  ["inputs"], "every content up to the stated length; custom comparators; empty range",
  "sort_test sorts one random array of 65536 values.",
  [I + "sort.hpp"], [("HeapSorter", I + "sort.hpp")], observe=["sim_ds::HeapSort"])
# ---- hashing
p("C01", "The bijective hash is a bijection on words of its width",
  "For every width w from 1 to 64 and every x below 2^w, hash(x) is below 2^w, ihash(hash(x)) = x and hash(ihash(x)) = x.",
  ["inputs", "configurations"], "every x of every width",
  "No test calls the hash; CHT tests use width 32 keys with zero low halves.",
  [I + "BijectiveHash.hpp"], [("xorshift and modular-inverse multiply rounds", I + "BijectiveHash.hpp")], observe=["SplitMixHash::hash", "SplitMixHash::ihash"])
p("C02", "The compact hash table is an exact map under every history",
  "For keys of up to 60 bits, after any sequence of set(k, v) and erase(k), get(k) reports found exactly for the keys set and not erased since, with the value last set, and size() is the number of such keys, whatever growth or shrinking happened in between. Every operation terminates and touches nothing outside the table.",
  ["inputs", "histories"], "every key, value and operation sequence within the stated length, with collisions, wrap-around, growth and deletion",
  "CHT_test only inserts distinct keys and reads them; erase, overwrite after erase and small-table wrap-around are never run.",
  [I + "CHT.hpp", I + "BijectiveHash.hpp"], [("set, get, erase, ToClusterHead, _resize", I + "CHT.hpp")],
  [("arr_", "quotients with occupied/continuation/shifted/deleted flags", I + "CHT.hpp")], ["CHT::get", "CHT::size"])
p("C03", "CDRWArray and CDRWVector hold the last value written at each index",
  "In a CDRWArray, get(i) is the value last set at i (0 if never set), whatever widths the successive values have. A CDRWVector, starting empty or sized, behaves under push_back, pop_back, set, resize, reserve, shrink_to_fit and clear like a vector of integers for every index written since it came into range.",
  ["inputs", "histories"], "every value and operation sequence within the stated length",
  "One test fills an array once in order with values of at most 18 bits; rewriting with another width and CDRWVector are untested.",
  [I + "CDRWArray.hpp", I + "CHT.hpp", I + "FitVector.hpp"], [("set/get through one hash table per width", I + "CDRWArray.hpp"), ("CDRWVector::_allocate", I + "CDRWArray.hpp")], observe=["CDRWArray::get", "CDRWVector::get"])
p("I01", "Initializable arrays equal a plainly filled array under every history",
  "Both initializable arrays, after any sequence of init/fill(v) and set(i, x), return at every index the value set since the last fill, or the fill value otherwise, independently of what their memory held before.",
  ["inputs", "histories"], "every operation sequence, index, value and prior memory content within the stated lengths",
  "The tests use one element type and random fills over 4096 slots; adversarial values that look like internal links, and prior memory content, are not controlled.",
  [I + "InitializableArray.hpp"], [("block chaining between written and unwritten areas", I + "InitializableArray.hpp"), ("Folklore back pointers", I + "InitializableArray.hpp")],
  [("b_", "number of blocks in the unwritten-chain area", I + "InitializableArray.hpp")], ["InitializableArray::get", "InitializableArrayFolklore::get"])
# ---- strings
_pm = [S + "PatternMatching.hpp", S + "FactorOracle.hpp"]
p("P01", "KMP, naive and Boyer-Moore search report every occurrence",
  "For every non-empty key and every text, over all 256 byte values, the naive, KMP and Boyer-Moore matchers return exactly the positions at which the key occurs in the text, in increasing order, overlapping occurrences included, and read nothing outside key and text.",
  ["inputs"], "every key and text within the stated lengths over all byte values",
  "Tests search one lower-case key in texts built from one lower-case string, and one matcher is the oracle for the others.",
  _pm, [("Simple::find_all, Kmp, Bm", S + "PatternMatching.hpp")], observe=["PatternMatchSimple", "PatternMatchKMP", "PatternMatchBM"])
p("P02", "Oracle-based search (BOM, Turbo-BOM) reports every occurrence",
  "For every non-empty key and every text of non-NUL bytes, the BOM and Turbo-BOM matchers return exactly the positions at which the key occurs, in increasing order, overlapping occurrences included; they terminate and read nothing outside key and text.",
  ["inputs"], "every key and text within the stated lengths", "As P01: one key, one text family.",
  _pm, [("Bom::find_all, TurboBom::find_all", S + "PatternMatching.hpp")], observe=["PatternMatchBOM", "PatternMatchTurboBOM"])
p("P03", "Sunday search (Quick Search, Maximal Shift) reports every occurrence",
  "For every non-empty key and every text, over all 256 byte values, the Sunday quick-search and maximal-shift matchers return exactly the positions at which the key occurs, in increasing order, overlapping occurrences included, also when the text is shorter than the key, and read nothing outside key and text.",
  ["inputs"], "every key and text within the stated lengths over all byte values", "As P01: one key, one text family, text always longer than the key.",
  _pm, [("SundayQS, SundayMS shift tables", S + "PatternMatching.hpp")], observe=["PatternMatchSundayQS", "PatternMatchSundayMS"])
p("O01", "The factor oracle accepts every factor and nothing longer than its text",
  "The oracle of a text of non-NUL bytes accepts every substring of the text (the empty one included), rejects every string longer than the text, accepts a string of the text's length only if it is the text, and rejects any string with a byte absent from the text. Queries read nothing outside the structure.",
  ["inputs"], "every text and query within the stated lengths", "Tests use texts over at most 5 letters and only query strings that are factors.",
  [S + "FactorOracle.hpp"], [("FactorOracleBaseCTAFOBuilder, FactorOracle::image", S + "FactorOracle.hpp")], observe=["FactorOracle::accept", "FactorOracle::image"])
p("T01", "A trie is an exact map from keys to items",
  "After any sequence of insertions, traverse(key) returns the item last inserted for that key and null for every other key, proper prefixes and extensions included, for keys of non-NUL bytes. dfs and bfs visit every node exactly once with its depth, so exactly the distinct keys appear as leaves.",
  ["inputs", "histories"], "every set of keys, items and queries within the stated lengths", "Tests insert five fixed keys and never query an absent key or update an item.",
  [S + "graph_util.hpp"], [("Trie::insert, _traverse, dfs, bfs", S + "graph_util.hpp")], observe=["Trie::traverse", "Trie::dfs", "Trie::bfs"])
p("A01", "Samc accepts exactly the keys it was built from",
  "A Samc built from any sorted, duplicate-free list of keys of bytes 1..254 accepts exactly those keys: every key is accepted and every other query string is rejected, with either construction algorithm. Queries read nothing outside the structure.",
  ["inputs"], "every key set within the stated lengths and alphabets; every query string within the stated length", "Tests build one set of five keys and never query an absent key.",
  [S + "Samc.hpp"], [("level-wise code assignment (y_check_), accept", S + "Samc.hpp")], observe=["Samc::accept"])
p("A02", "SamcDict numbers its keys bijectively",
  "A SamcDict built from any sorted, duplicate-free list of n keys of bytes 1..254 maps the keys one-to-one onto 0..n-1; lookup of any other string returns the search-error value; access(lookup(k)) = k for every key.",
  ["inputs"], "every key set within the stated lengths and alphabets; every query string", "Tests use one set of five keys and check only that ids are distinct.",
  [S + "Samc.hpp", I + "SuccinctBitVector.hpp"], [("leaf bit vector, lookup, access", S + "Samc.hpp")], observe=["SamcDict::lookup", "SamcDict::access"])
p("X01", "The suffix array is sorted and its LCP values are exact",
  "For every string of non-NUL bytes the suffix array is the permutation of all positions that orders the suffixes lexicographically by unsigned byte value, and its LCP entry for each adjacent pair is the length of their longest common prefix.",
  ["inputs"], "every string within the stated length over the stated alphabets, high bytes included", "SuffixArray.hpp is included by no test.",
  [S + "SuffixArray.hpp"], [("SA-IS construction, Kasai LCP", S + "SuffixArray.hpp")], observe=["SuffixArray::WriteSA", "SuffixArray::WriteLCP", "SuffixArray::suffix"])
# ---- serialisation
p("R01", "Saving and loading bit and integer containers loses nothing",
  "For BitVector, SuccinctBitVector, FitVector, MultipleVector, MultiBitVector and the vector/string stream helpers, loading what was saved yields a container with the same size and the same answer to every query, whatever the loading object held before, and consumes exactly the bytes that were saved.",
  ["inputs", "histories"], "every content within the stated sizes, empty containers included, into fresh and non-empty targets", "No test writes or reads a container.",
  [I + "basic.hpp", I + "BitVector.hpp", I + "SuccinctBitVector.hpp", I + "FitVector.hpp", I + "MultipleVector.hpp", I + "MultiBitVector.hpp"],
  [("read_val/write_val/read_vec/write_vec", I + "basic.hpp"), ("Read/Write, StoreTo/LoadFrom", I + "MultipleVector.hpp")], observe=["BitVector::Read", "SuccinctBitVector::Read", "MultipleVector::LoadFrom"])
p("R02", "Saving and loading composite indexes loses nothing",
  "For DacVector, WaveletTree, Samc, SamcDict and SuffixArray, loading what was saved yields a structure with the same answer to every query, whatever the loading object held before, and consumes exactly the bytes that were saved; an empty DacVector included.",
  ["inputs", "histories"], "every content within the stated sizes, into fresh and non-empty targets", "No test writes or reads a structure.",
  [I + "DacVector.hpp", I + "WaveletTree.hpp", S + "Samc.hpp", S + "SuffixArray.hpp"],
  [("Read/Write", I + "DacVector.hpp"), ("Read/Write", I + "WaveletTree.hpp")], observe=["DacVector::Read", "WaveletTree::Read", "Samc::Read"])

# ---- further guarantees
p("D03", "The automatic layer plan of a DAC vector is the cheapest one",
  "When its limit on the number of layers does not bind, split_positions_optimized_for_dac returns a plan that covers the longest element and whose cost under the library's model (layer width times the elements that reach the layer, plus 1.25 n + 191 bits of rank dictionary for every layer of n elements but the last) is not above that of any other plan.",
  ["inputs"], "every list within the stated lengths and profiles against every alternative plan",
  "Tests only check that values read back; any plan that covers the longest element passes them.",
  [I + "calc.hpp", I + "DacVector.hpp"], [("split_positions_optimized_for_dac dynamic programme, additional_bit_size_of_rank", I + "calc.hpp")], observe=["calc::split_positions_optimized_for_dac", "DacVector(values)"])
p("D04", "DacVector iterators are random access over its elements",
  "begin() and end() of a DacVector delimit size() positions; it[k], *(it + k), advancing, stepping, +=, -=, differences and comparisons agree with the indices, and *it equals operator[] there.",
  ["inputs"], "every pair of positions of every vector within the stated sizes", "Tests only run a range-for loop.",
  [I + "DacVector.hpp", I + "basic.hpp"], [("DacVector::iterator operators", I + "DacVector.hpp")], observe=["DacVector::begin", "DacVector::end"])
p("H03", "The array behind a heap is heap-ordered after every operation",
  "After construction, push, pop, and after a value changed through value_reference has been reported to Heapify, no element of a heap lies before its parent in the heap's order; parent, left, right and is_leaf describe one tree over the positions, and the multiset of elements is the expected one.",
  ["inputs", "histories"], "every content and change within the stated sizes", "Tests only pop everything once; the array, the navigation functions and changed values are not looked at.",
  [I + "Heap.hpp"], [("Heapify, push, pop, parent/left/right", I + "Heap.hpp")], observe=["Heap::value", "Heap::value_reference", "Heap::Heapify"])
p("I02", "Initializable arrays are filled in constant time and space",
  "Constructing, initialising and filling an in-place initializable array writes a constant number of bytes and set changes a constant number of elements, whatever the array's length; the object takes a constant number of bytes more than its elements. The back-pointer array copies a constant number of elements in fill and set.",
  ["inputs", "histories"], "every value and index for the stated lengths", "A fill that writes every element behaves the same in every functional test.",
  [I + "InitializableArray.hpp"], [("fill, set, init of both arrays", I + "InitializableArray.hpp")], observe=["InitializableArray::fill", "InitializableArrayFolklore::fill"])
p("T02", "Trie nodes can be walked one labelled edge at a time",
  "From the root, following target(c) byte by byte reaches a node exactly when the bytes so far are a prefix of a key; a node has the leaf edge exactly when its path is a key, and the item stored there is that key's; for_each_edge visits exactly the outgoing labels, each once, in increasing order, with their targets.",
  ["inputs", "histories"], "every set of keys and every path within the stated lengths", "No test uses nodes or edges directly.",
  [S + "graph_util.hpp"], [("_Node::target, item_index, for_each_edge; Trie::root, node, item", S + "graph_util.hpp")], observe=["Trie::root", "Trie::node", "_Node::target", "_Node::for_each_edge"])
p("P04", "A matcher object can search any number of texts",
  "A matcher built once for a key (naive, KMP, Boyer-Moore, BOM, Turbo-BOM, both Sunday searches) returns, for every text of any sequence of texts searched with it, exactly the positions of the key in that text: searching leaves no state behind.",
  ["inputs", "histories"], "every key and sequence of three texts within the stated lengths", "Tests build a fresh matcher for each search.",
  _pm, [("find_all / const state of the matcher objects", S + "PatternMatching.hpp")], observe=["Kmp::find_all", "Bm::find_all", "TurboBom::find_all"])
p("O02", "Factor oracle states are walked one letter at a time",
  "Walking a factor oracle from state 0 over any string, each accepted byte leads forward to a state i whose text letter i - 1 is that byte, a refused byte leaves the state where it was, the letters of the text itself lead through the states in order, and whether a string is accepted equals whether every step is; both constructors and an explorer handed to accept stops behind the longest accepted prefix.",
  ["inputs"], "every text and query within the stated lengths", "Tests only call accept on factors.",
  [S + "FactorOracle.hpp"], [("FactorOracle::image, Exproler, accept", S + "FactorOracle.hpp")], observe=["FactorOracle::image", "FactorOracle::accept", "FactorOracle::Exproler"])
p("K01", "Copies and moves of every structure are equal and independent",
  "A copy of any structure of the library answers every query as its source does, and later changes to either leave the other as it was; the same holds for copy assignment over other contents, for move construction and move assignment; an object moved from can be assigned to.",
  ["inputs", "histories"], "every content within the stated sizes of every structure", "Tests copy only the vectors they pass to constructors and never touch source and copy afterwards.",
  [I + "BitVector.hpp", I + "SuccinctBitVector.hpp", I + "FitVector.hpp", I + "MultipleVector.hpp", I + "MultiBitVector.hpp", I + "DacVector.hpp", I + "WaveletTree.hpp", I + "Heap.hpp", I + "CHT.hpp", I + "CDRWArray.hpp", I + "InitializableArray.hpp", S + "FactorOracle.hpp", S + "Samc.hpp", S + "SuffixArray.hpp", S + "graph_util.hpp"],
  [("copy and move constructors and assignments", I)], observe=["copy construction", "move construction", "assignment"])
p("Z01", "Every structure takes the space it promises, and saves that many bytes",
  "size_in_bytes of BitVector, SuccinctBitVector, FitVector, MultiBitVector and WaveletTree is the number of bytes saved (DacVector: within 16 bytes). That number is the payload rounded up to 64-bit words plus a constant and: for rank 16 bytes per 512 bits; for select 4 bytes more per 512 ones; for FitVector nothing; for MultiBitVector 24 bytes per occurring symbol for every 4U words (U the symbol width); for wavelet trees a quarter of the payload plus a constant per node; for automatic DacVectors at most a quarter more than the same elements at full width, plus a constant per layer; for MultipleVector one byte per field byte; for suffix arrays text plus two arrays of bit-packed positions. A CHT has at most 8 buckets per key of the largest number it held.",
  ["inputs", "histories"], "every content, size and history within the stated bounds", "No test looks at a size in bytes; a structure twice as large behaves the same.",
  [I + "BitVector.hpp", I + "SuccinctBitVector.hpp", I + "FitVector.hpp", I + "MultipleVector.hpp", I + "MultiBitVector.hpp", I + "DacVector.hpp", I + "WaveletTree.hpp", I + "CHT.hpp", I + "CDRWArray.hpp", S + "SuffixArray.hpp", S + "Samc.hpp"],
  [("size_in_bytes, Write", I), ("expand, LoadFactor limits", I + "CHT.hpp")], observe=["size_in_bytes", "Write", "CHT::bucket"])
p("Z02", "Operations take the number of steps the structures exist for",
  "Access, rank (SuccinctBitVector, MultiBitVector) and FitVector reads take a constant number of steps whatever the size; select a logarithmic one; wavelet trees a constant per level, DacVectors per layer; appending is amortised constant; heap push and pop are logarithmic, HeapSort and draining a heap O(n log n); CHT operations are constant on average; a KMP search is linear in text and key; building a suffix array is near linear; trie and Samc lookups depend on the key only; a factor oracle query is linear in the query.",
  ["inputs", "histories"], "every content or index within the stated bounds, sizes from small to several thousand", "Tests never count steps; an index walked from the front returns the same answers.",
  [I + "BitVector.hpp", I + "SuccinctBitVector.hpp", I + "FitVector.hpp", I + "MultiBitVector.hpp", I + "DacVector.hpp", I + "WaveletTree.hpp", I + "CHT.hpp", I + "Heap.hpp", I + "sort.hpp", S + "PatternMatching.hpp", S + "FactorOracle.hpp", S + "SuffixArray.hpp", S + "Samc.hpp", S + "graph_util.hpp"],
  [("rank, select", I + "SuccinctBitVector.hpp"), ("Heapify", I + "Heap.hpp"), ("find, set, erase", I + "CHT.hpp"), ("KMP failure function", S + "PatternMatching.hpp"), ("SA-IS", S + "SuffixArray.hpp")], observe=["executed basic blocks and allocated bytes"])

_all = [I + "BitVector.hpp", I + "SuccinctBitVector.hpp", I + "FitVector.hpp", I + "MultipleVector.hpp", I + "MultiBitVector.hpp", I + "DacVector.hpp", I + "WaveletTree.hpp", I + "Heap.hpp", I + "sort.hpp", I + "CHT.hpp", I + "CDRWArray.hpp", I + "InitializableArray.hpp", I + "BijectiveHash.hpp", I + "bit_util.hpp", I + "calc.hpp", S + "PatternMatching.hpp", S + "FactorOracle.hpp", S + "Samc.hpp", S + "SuffixArray.hpp", S + "graph_util.hpp"]
p("Q01", "Queries write nothing shared, so readers may run concurrently",
  "Const member functions of every structure (access, rank, select, get, lookup, accept, find_all, size queries, iteration, saving to a stream, being copied), Trie::traverse, and the bit and size helpers write to no memory that another thread can reach: neither to the object, nor to what it owns, nor to globals. Any number of threads can therefore query one object at the same time under every schedule. Initialisation of function-local statics, which the language synchronises, does not count.",
  ["inputs", "schedules"], "every query argument and content within the stated bounds; every interleaving, because no query writes shared memory", "A cache filled by a query gives right answers in every sequential test; only a schedule of two readers breaks it.",
  _all, [("const member functions; no mutable members, no static scratch memory", I)], observe=["every const member function"])
p("Q02", "Distinct objects share no state, so threads may each use their own",
  "Building, changing, copying, assigning, moving and destroying an object (and the sorts and one-shot pattern searches) write only to memory the operation allocated or that the object owns: a copy made from a shared object leaves that object untouched, and no operation writes to globals. Threads that work on different objects therefore never disturb each other under any schedule.",
  ["inputs", "histories", "schedules"], "the stated histories of each structure with every value; every interleaving, because the objects share no memory that is written", "Tests are single-threaded; scratch memory shared by all objects works there.",
  _all, [("constructors, modifiers, assignments", I)], observe=["every constructor and modifier"])
p("R03", "The saved bytes are a function of the operations applied",
  "Two objects of a structure built by the same operations save the same bytes, in every process and whatever the memory held before; saving again saves the same bytes; so do a copy (constructed or assigned over other contents), an object moved to, and an object read back from those bytes over other contents.",
  ["inputs", "histories"], "every content and history within the stated bounds", "Indeterminate bytes in a file are read back without a difference; tests never compare two files.",
  [I + "basic.hpp", I + "BitVector.hpp", I + "SuccinctBitVector.hpp", I + "FitVector.hpp", I + "MultipleVector.hpp", I + "MultiBitVector.hpp", I + "DacVector.hpp", I + "WaveletTree.hpp", S + "Samc.hpp", S + "SuffixArray.hpp"],
  [("Write, StoreTo, Read, LoadFrom", I), ("write_val, write_vec", I + "basic.hpp")], observe=["bytes written to the stream"])

p("E01", "Requests that are refused throw and change nothing",
  "at() with an index outside a BitVector, FitVector or DacVector throws (for reading and for writing), choosing the value width of a hash table that holds keys or has a fixed width throws, and select on a vector built without its index throws; none of them changes anything, and requests that may be granted are granted.",
  ["inputs"], "every out-of-range index up to 2^64-1 and every width, contents within the stated bounds", "Tests contain no refused request.",
  [I + "BitVector.hpp", I + "FitVector.hpp", I + "DacVector.hpp", I + "CHT.hpp", I + "SuccinctBitVector.hpp"],
  [("at", I), ("CHT::set_value_width", I + "CHT.hpp"), ("SuccinctBitVector<false>::select", I + "SuccinctBitVector.hpp")], observe=["exception thrown", "contents afterwards"])
p("E02", "A failed allocation leaks nothing and loses nothing",
  "When one memory allocation fails inside an operation, the operation throws (or does without it); after a throw, adding, setting, erasing, growing or reserving (BitVector, FitVector, MultipleVector, MultiBitVector, heap push, hash table, CDRWArray, CDRWVector, trie insert) leaves the structure with the contents it had, readable and ready to take the same change when it is asked again; no operation, building, copying and loading of every structure included, leaks memory or touches memory it does not own.",
  ["fault_sequences", "inputs"], "every k-th failing allocation within the stated bounds, contents within the stated bounds", "Tests never make an allocation fail.",
  [I + "BitVector.hpp", I + "FitVector.hpp", I + "MultipleVector.hpp", I + "MultiBitVector.hpp", I + "Heap.hpp", I + "CHT.hpp", I + "CDRWArray.hpp", S + "graph_util.hpp"],
  [("CHT::_resize", I + "CHT.hpp"), ("CDRWArray::set", I + "CDRWArray.hpp"), ("CDRWVector::push_back, _allocate", I + "CDRWArray.hpp"), ("Trie::insert", S + "graph_util.hpp"), ("push_back, resize, reserve", I)], observe=["contents after the exception", "blocks on the heap"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
