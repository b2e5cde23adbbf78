#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import props

SUMMARY = ("semantic comparison of function summaries (all-paths dataflow: gated value terms, loops as recurrences) with a "
           "reviewed reference, decided by normal forms")
RULE = {
    'ctypes': 'C integer width and exception-propagation rules',
    'noexcept': 'exception-propagation rule for C functions',
    'directives': 'rule on the compiler directives of the compiled modules',
    'lattice_reset': 'typestate analysis of the reused lattice over all normal and exceptional paths',
    'ordering': 'unordered-iteration analysis',
    'nondeterminism': 'who-may-call rule for clocks, random sources, addresses and the environment',
    'writes': 'effect analysis of file-opening and mapping call sites (who may write what)',
    'closing': 'typestate analysis of every opened file over all normal and exceptional paths',
    'protocols': 'special-method analysis of the classes whose objects are compared or tested implicitly',
    'diagnostics': 'effect and ownership analysis of the functions that only describe state (every store and call)',
    'resources': 'well-formedness and cross-reference analysis of the shipped definition files and settings',
}
NOTE = ("Static only, all paths of the functions the property rests on (sa/props.py). 'Equal' means equal normal forms of "
        "outcome and state changes for every input, given that callees keep their own obligations; a proof relative to the "
        "reviewed reference in spec/ (read and repaired by hand, see DESIGN.md) and to the summariser in sa/. A function the "
        "summariser cannot decide is recorded as undecided in the evidence, raises no alarm and proves nothing.")
RNOTE = ("Static only, every site of the current tree (counted in the evidence). Sites the rule cannot classify are recorded "
         "as undecided and raise no alarm.")
NA = {
    'N01': "Equality of the normalized form with the number a numeral denotes is a numerical result over unbounded digit strings with scaling and zero filling; no static rule in reach bounds it. That the parser's code is the reviewed one is checked under C29.",
    'N02': "Termination of the joining loop depends on run lengths and parser states at run time; no ranking argument in reach covers the rewinding index of JoinNumericPlugin.rewrite.",
    'N03': "The package takes no locks and shares a memory-map cursor between tokenizers; whether interleavings agree is a property of schedules that the code does not claim or protect, so there is nothing for a lock or effect rule to hold on to.",
    'N04': "The builders write the output in place, header first, with no commit step; whether a partial file is refused depends on how many bytes reached the disk.",
    'N05': "The trie is the native dartsclone library; its source is not part of this repository.",
}
props_list = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
checks = []
for p in props_list:
    i = p['id']
    if i in NA:
        continue
    tech = []
    if props.FUNCS[i]:
        tech.append(SUMMARY)
    tech += [RULE[r] for r in props.RULES.get(i, ())]
    checks.append({
        'property': i,
        'quick_cmd': '/opt/venv/bin/python run.py %s --tier quick' % i,
        'thorough_cmd': '/opt/venv/bin/python run.py %s --tier thorough' % i,
        'technique': '; '.join(tech),
        'level': 'other',
        'level_note': NOTE if props.FUNCS[i] else RNOTE,
    })
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -c "import Cython, ast; print(Cython.__version__)"',
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks: /repo carries no instrumentation. The checks read the sources of /repo/sudachipy only and run none of them.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write('\n')
print(len(checks))
