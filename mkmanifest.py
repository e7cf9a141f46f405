#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand)."""
import json
NA = {
 'N01': 'Convergence to a requested accuracy quantifies over floating-point values of all matrices; no static argument in reach bounds it. The structural parts (S01-S06) are claimed separately.',
 'N02': 'Asymptotic convergence statement over problem families; not decidable from the source.',
 'N03': 'Round-trip equality of run-time values (decimal formatting and parsing in libstdc++); the static part (index checks, keyword agreement) is I01.',
 'N04': 'Convergence of eigenvalue iterations quantifies over run-time values of all matrices and start vectors.',
}
COMMON = 'Decides the rule instances listed in the evidence file on the current source, for all inputs, within the analysed instantiations; trusts clang 18, the IR analysis in lib/, and the stated behaviour of dune-common and of external libraries.'
NA['D01'] = 'The ownership of library handles over all sequences of public calls is within reach of a typestate analysis, but none that is sound for these wrappers was completed: they differ in when handles are valid (raw SuperLU structures, UMFPACK void pointers, SPQR/CHOLMOD objects created lazily) and are copyable by default, so the property as stated is known not to hold on the current tree (see Findings in DESIGN.md). What the other claims decide about these classes: nothing process-wide is written and verbosity changes nothing (M04, S05), registration and refusal for distributed operators (F02), the storage of their column-compressed matrices (M03).'
C = {}
def claim(id, technique, note): C[id] = (technique, note)
exec(open('/verif/claims.py').read())
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
man = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)" && clang++-18 --version && llvm-cxxfilt-18 --version',
  checks=[dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, technique=C[p][0], level='other', level_note=C[p][1] + ' ' + COMMON) for p in props if p in C],
  not_applicable=[dict(property=p, reason=NA.get(p, 'Not claimed (yet): see DESIGN.md.')) for p in props if p not in C],
  notes='Static analysis only. Every check compiles driver units that include the library headers from /repo to LLVM IR and decides rules on that IR (or on the headers\' declarations); nothing of the library is executed.')
json.dump(man, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(man['checks']), 'claimed;', [x['property'] for x in man['not_applicable']])
