#!/usr/bin/env python3
"""Rewrites the per-property and planted-bug sections of DESIGN.md (between the markers) from properties.jsonl, checks.py and seeded/."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from checks import CHECKS, NOT_APPLICABLE, TRUST
ORACLE = {
 'B01': 'a bit-by-bit loop over the word (masks, shifts) in the harness', 'B02': 'sum of the 64 bits / of the bits before i', 'B03': 'first set bit by scanning from either end', 'B04': 'the position is a 1 bit with exactly i - 1 ones before it',
 'B05': 'bit-by-bit construction of the word', 'B06': 'per-lane comparison, bit by bit', 'G01': 'bit length by counting shifts; counts by a direct loop', 'D02': 'widths positive, sum = longest bit length, at most the maximum',
 'D03': 'minimum over all plans by an independent dynamic programme over cut positions', 'V01': 'std::vector of expected bits, observed at a symbolic index', 'V02': 'bit-wise fill of the reference; iterator arithmetic on indices', 'S01': 'running count of ones',
 'S02': 'rank of the result is k and the bit is 1', 'F01': 'std::vector of expected values', 'F02': 'source vector; narrowest width that holds the maximum', 'M01': 'array of field values per block', 'U01': 'vector of symbols; running count per symbol',
 'W01': 'source sequence; running count per symbol', 'D01': 'source vector; depth from the planned layer widths', 'D04': 'index arithmetic over the source', 'H01': 'sorted multiset kept by the harness', 'H02': 'order and equal multiset (count of every value)', 'H03': 'parent/child comparison at every position; equal multiset',
 'C01': 'decode(encode(x)) = x, and injectivity as inequality of two symbolic keys', 'C02': 'association list', 'C03': 'vector of values', 'I01': 'vector of values; prior memory symbolic', 'I02': 'bytes of the storage compared before and after, counting element type',
 'P01': 'direct comparison at every offset', 'P02': 'direct comparison at every offset', 'P03': 'direct comparison at every offset', 'P04': 'direct comparison at every offset, three texts in turn', 'O01': 'direct factor test for factors; walk never accepts a byte that does not occur in the text', 'O02': 'the definition of a step: letters of the text, refusals leave the state',
 'T01': 'association list of keys', 'T02': 'set of prefixes of the keys', 'A01': 'membership in the key list', 'A02': 'membership; bijection onto 0..n-1', 'X01': 'permutation, pairwise byte comparison of neighbours, direct common prefix', 'R01': 'the saved object itself, plus a marker behind it in the stream', 'R02': 'the saved object itself, plus a marker behind it in the stream',
 'K01': 'the contents the source had, judged through every query', 'Q01': 'write protection of everything outside the stack', 'Q02': 'write protection of everything that existed before', 'R03': 'the bytes of the first save', 'E01': 'the exception, and the contents before', 'E02': 'the contents before, count of heap blocks',
 'Z01': 'bytes written to the stream; the stated formula', 'Z02': 'basic blocks entered and bytes allocated, copied or filled, counted by the engine; the stated limit'}
def entries(mod):
    s = open(f'{R}/harness/{mod}.cpp').read()
    return [m for m in re.findall(r'ENTRY\((\w+)', s) if '##' not in m]
out = ['| property | oracle | decided for, and what is outside | entries (module) |', '|---|---|---|---|']
for l in open(R + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i not in CHECKS: out.append(f"| {i} {p['title']} | | not applicable: {NOT_APPLICABLE.get(i)} | |"); continue
    note = CHECKS[i]['note'].replace(TRUST, '').strip().replace('|', '\\|'); mods = [m for m, _ in CHECKS[i]['modules']]; n = sum(len([e for e in entries(m) if e.startswith(i + '_') or e == i]) for m in mods)
    out.append(f"| **{i}** {p['title']} | {ORACLE.get(i, '')} | {note} | {n or 'by macro'} ({', '.join(mods)}) |")
seeds = ['| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open(R + '/tools/seeds.json')) if os.path.exists(R + '/tools/seeds.json') else {}
for d in sorted(os.listdir(R + '/seeded')) if os.path.isdir(R + '/seeded') else []:
    m = json.load(open(f'{R}/seeded/{d}/meta.json')); seeds.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d, m['property'])} |")
p = R + '/DESIGN.md'; s = open(p).read()
def put(s, tag, lines):
    a, b = f'<!-- {tag} begin -->', f'<!-- {tag} end -->'
    i, j = s.index(a) + len(a), s.index(b); return s[:i] + '\n' + '\n'.join(lines) + '\n' + s[j:]
s = put(s, 'properties', out); s = put(s, 'seeds', seeds); open(p, 'w').write(s)
