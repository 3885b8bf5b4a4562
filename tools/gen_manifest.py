#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 'C01': '', 'C02': '', 'C03': '', 'C04': '',
 'H04': 'SHA-NI', 'S02': 'SSSE3, AVX2', 'K01': '', 'K02': '', 'S01': '', 'M01': '', 'M02': '', 'M03': '', 'A01': '', 'A02': '', 'A03': '', 'X01': '', 'X02': '', 'X03': '', 'X04': '',
 'H01': 'SHA-1', 'H02': 'SHA-224/256', 'H03': 'SHA-384/512/512-t', 'H05': 'digest forms',
}
NOTES = {}
NA = {
 'P01': 'std::string based glob matching of the benchmark CLI: the libstdc++ string internals are outside the verifier\'s reach',
}
TECH = 'contract-based deductive verification (irvc: function contracts, loop invariants and lemmas discharged on the LLVM IR of the real sources by a term normaliser and z3)'
GEN = ('every contract is discharged for all inputs from the IR of /repo\'s current sources; trusted: clang front end, irvc\'s IR semantics and normaliser, z3, '
       'the specification file irvc/spec.py (self-tested each run). An undecided contract is reported and covered only by the labelled bounded differential run.')
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt checks/run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt checks/run.py ' + i,
                            'technique': TECH, 'level': 'proof', 'level_note': NOTES.get(i, '') + GEN})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
