#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.tmpl, the obligation generators and seeded/*/meta.json"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/engine')
import props
HOW = {
 'P01': 'each output lane term = scalar operator term of the two lanes (poly mod 2^w, IEEE operators); panic condition = false under the divisor precondition; overflow-checked build included',
 'P02': 'bitwise lanes as decision diagrams over whole lanes; shifts as wires/variable-shift operators under count < width; masks as boolean functions of the lane bits',
 'P03': 'funnel-shift term of (x, x, count mod w) for every count value; the count is a free lane variable',
 'P04': 'min/max = select on the type\'s own order; float min/max against minnum/maxnum (NaN and signed-zero latitude); neg = 0 - x mod 2^w or sign-bit flip',
 'P05': 'every mask lane = fill of the predicate atom of that lane pair (all-ones/all-zeros representation is part of the comparison)',
 'P06': 'result = conjunction diagram over the lane equality atoms; != its negation; per feature level',
 'P07': 'decision diagram of the lexicographic comparison of the lane arrays over eq/lt atoms; all of cmp, partial_cmp, <, <=, >, >=, ==, !=, max/min views',
 'P08': 'all/any/none/and/or/xor as diagrams over the mask lanes at each feature level (movemask/testc/ptest intrinsics modelled bit-wise)',
 'P09': 'each lane = ite(mask lane, a lane, b lane) for every mask × vector type of equal lane count',
 'P10': 'sum/product = polynomial of all lanes mod 2^w; and/or/xor = bitwise diagram; min/max = order-statistics by comparison-network normalisation; Iterator Sum/Product = fold',
 'P11': 'operator multiset: each lane is a leaf exactly once of a tree of the right operator (any association)',
 'P12': 'new/splat/default/null/lanes/extract/replace (checked: panic condition = index ≥ lanes; unchecked: precondition) and the untouched lanes',
 'P13': 'slice of symbolic length, address and content: lanes loaded = elements, panic condition = len < n or misaligned, every load inside [0, len) and sufficiently aligned',
 'P14': 'as P13 for stores; bytes outside the vector unchanged; at every panic site the slice content is the initial one',
 'P15': 'From/Into arrays: wire identity of lanes both ways',
 'P16': 'every pair of types related by FromCast/Cast: lane = scalar `as` term (trunc, sext/zext, saturating float→int, int→float, ≠0 → mask)',
 'P17': 'every From between vectors: lane = value-preserving extension',
 'P18': 'every FromBits/IntoBits pair (incl. arch vector types with `into_bits`): output bits = input bits wire by wire; 0/all-ones for masks sources',
 'P19': 'bit i of the bitmask = mask lane i, all higher bits zero, at every feature level',
 'P20': 'shuffle! with one and two operands for enumerated index lists per type: output lane k = lane idx[k] of the concatenation (thorough: rotations that together contain every (output lane, index) pair, for every pair of input and output lane count)',
 'P21': 'shuffle1_dyn: output lane = in-range index picks that lane (specified for out-of-range too where documented), at every feature level (pshufb, vpermd, … modelled)',
 'P22': 'ctpop/ctlz/cttz terms per lane, zero defined',
 'P23': 'byte wires of the whole vector reversed (as documented and tested: lane order is reversed too); to/from_le the identity',
 'P24': 'each lane = the named function symbol of the same lane; constants compared with the correctly rounded value from 80-digit decimals; estimate functions by structural error bound',
 'P27': 'address lanes = base + count × size; distances = exact signed division; pointees of 0, 1, 3, 4, 8 bytes (0: offsets are the identity, the wrapping distance panics)',
 'P28': 'guarded loads/stores: for each lane, condition = mask lane, address = pointer lane, value = lane, program order of stores = lane order; no access under a cleared mask lane',
 'P33': 'mask element new/test/default/comparison as boolean functions',
}
def seeds():
    out = ['| seed | property | needs | breaks | check |', '|---|---|---|---|---|']
    d = ROOT + '/seeded'
    res = json.load(open(ROOT + '/tools/seed_results.json')) if os.path.exists(ROOT + '/tools/seed_results.json') else {}
    for s in sorted(os.listdir(d)):
        m = json.load(open('%s/%s/meta.json' % (d, s)))
        out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], res.get(s, 'caught')))
    return '\n'.join(out)
def main():
    extra = os.path.join(ROOT, 'tools', 'design_extra.py')
    wit = '(none yet)'
    ns = dict(HOW=HOW)
    if os.path.exists(extra):
        exec(open(extra).read(), ns)
        wit = ns.get('WITNESS', wit)
    rows = ['| %s | %s | %d |' % (p, HOW[p], len(props.GENS[p]())) for p in sorted(props.GENS)]
    t = open(ROOT + '/tools/DESIGN.tmpl').read()
    t = t.replace('@TABLE@', '\n'.join(rows)).replace('@WITNESS@', wit).replace('@SEEDS@', seeds())
    open(ROOT + '/DESIGN.md', 'w').write(t)
main()
