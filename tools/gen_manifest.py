#!/usr/bin/env python3
"""Writes MANIFEST.json; CHECKS lists the claimed properties."""
import json, os
T = {
 'C01': ('symbolic execution of the LLVM IR and inline assembly of every operation; SMT proof of stored value and result', 'other'),
 'C02': ('symbolic execution under arbitrary interference; SMT proof that one indivisible access carries the effect', 'model_checking'),
 'C03': ('symbolic execution; SMT proof of the compare-exchange contract', 'other'),
 'C04': ('symbolic execution; SMT proof of bit-exact value transport and padding handling', 'other'),
 'C05': ('symbolic execution; SMT proof with uninterpreted IEEE arithmetic', 'other'),
 'C06': ('symbolic execution with exact object bounds and alignment checks', 'other'),
 'C19': ('symbolic execution, stable and under interference; SMT proof', 'other'),
 'C20': ('symbolic interpretation of inline assembly against its operand constraints', 'other'),
}
NOTE = {
 'C01': 'All prior values, operands and orders for 1-16 byte integers in the listed build configurations; x86-64 only; trusts the IR generator and the instruction model (validated natively on sampled inputs each run).',
 'C02': 'All interference by other threads at every access; at most 2 (thorough 4) failed compare-and-swap attempts per operation; hardware access sizes taken as indivisible as documented for x86-64.',
 'C03': 'All values, all order pairs, integer/fp/pointer/enum/struct types of 1-40 bytes with and without padding; alone and under interference (2-4 failed attempts).',
 'C04': 'All values and orders; listed types; x86-64.',
 'C05': 'All operands and states; IEEE arithmetic itself is uninterpreted; alone and under interference.',
 'C06': 'All values; every access of every operation of the listed types, in owned and referenced form.',
 'C19': 'Both flag kinds, all orders, with and without interference; waits, timed waits and notifications as in C14-C16.',
 'C20': 'All register assignments within constraints are covered by worst-case rules on early writes and clobbers; statements reached by the operations and by the processor query.',
}
NA = []
try:
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'manifest_more.py')).read())
except FileNotFoundError:
    pass
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'))]
m = dict(version=1, setup_cmd='sh setup.sh', checks=[], not_applicable=[])
for i in ids:
    if i in T:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                                technique=T[i][0], level=T[i][1], level_note=NOTE[i]))
    else:
        r = dict(NA).get(i, 'check not built yet')
        m['not_applicable'].append(dict(property=i, reason=r))
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
