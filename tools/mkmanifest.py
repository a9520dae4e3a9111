#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has an entry in props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
LEVEL = {'C14': 'fault_enumeration'}
BASE = 'runtime monitoring: '
T = {
 'C01': ('ASan+UBSan+coil asserts+allocation ledger+valgrind over hostile and coverage-guided command texts', 'Every access of the real code is watched on the executed texts; inputs are sampled (grammar, mutation, libFuzzer), not enumerated. Uninitialised reads are judged by valgrind on a subset.'),
 'C02': ('online comparison of every parse with an independent reference lexer, under ASan+UBSan, random and libFuzzer texts', 'Exact oracle; sampled texts and character sets. Assumes the reference lexer states the grammar.'),
 'C03': ('address monitor on parsed views in freed/poisoned exact-size buffers, allocation accounting', 'Exact on the executed texts; sampled inputs.'),
 'C04': ('model-based trace monitor (std::map) over long random registry histories with colliding names', 'Every lookup and dispatch judged after every step; histories are sampled.'),
 'C05': ('instance ledger of callables (construct/copy/move/destroy/invoke events) against the model of bindings', 'Exact on executed histories; sampled.'),
 'C06': ('call monitor against a model of overload choice', 'Exact per execution; overload sets and arguments sampled, small sets enumerated.'),
 'C07': ('call recorder compared with a conversion model, over a matrix of callable kinds and signatures', 'Fixed matrix of signatures (compile time), sampled arguments.'),
 'C08': ('differential monitor against exact integer arithmetic; short texts enumerated', 'All texts up to 4 characters over a 10-character alphabet plus sampled ones; exact oracle.'),
 'C09': ('differential monitor against an independent syntax recogniser and libc rounding', 'Trusts libc strto{f,d,ld} for correct rounding; sampled.'),
 'C10': ('differential monitor against a conversion model', 'Sampled; letter cases and short bool texts enumerated.'),
 'C11': ('differential monitor against a conversion model', 'Sampled element types and fields.'),
 'C12': ('result-consistency monitor over random scripts, with snapshots re-checked after every later execution', 'Exact per execution; scripts sampled.'),
 'C13': ('fault injection by exceptions at every throw site, ledger and registry model after each', 'All sites of the matrix in both configurations; surroundings sampled.'),
 'C14': ('fault injection: every allocation of every operation of sampled histories fails once, ledgers and models judge the state', 'Allocation points of each sampled operation are enumerated completely; operations are sampled.'),
 'C15': ('model-based monitor of objects, setter calls and results', 'Sampled histories over a fixed set of types.'),
 'C16': ('model-based monitor of named argument lookups', 'Sampled.'),
 'C17': ('transcript monitor: output and errors against what the command logged', 'Sampled scripts; printf formatting judged by libc snprintf.'),
 'C18': ('ThreadSanitizer with injected scheduling delays, results compared with the single-threaded run', 'Races visible to TSan on the executed schedules.'),
 'C19': ('model-based monitor over random trees of nested executions and registry changes, under ASan', 'Sampled trees, up to the given depth.'),
 'C20': ('model-based monitor with instance ledger of elements under ASan+UBSan', 'Sampled histories.'),
 'C21': ('model-based monitor (std::string) under ASan+UBSan', 'Sampled histories.'),
 'C22': ('model-based monitor (std::map) with instance ledger and adversarial hashes', 'Sampled histories.'),
 'C23': ('model-based monitor with instance ledger and throwing copies/moves', 'Sampled histories. One known finding (see known_findings.json).'),
 'C24': ('offline comparison of transcripts of the same workload from differently built and memory-filled runs', 'gcc and clang, -O0..-O3, asserts and exception catching on/off, heap and stack fill patterns.'),
 'C25': ('recording lexer monitor and comparison of text with prepared executions', 'Sampled.'),
 'C26': ('monitor of metadata over registry histories against the compile-time signatures', 'Fixed matrix of signatures, sampled histories.'),
 'C27': ('recording serializers compared with the arguments and results they should see', 'Sampled.'),
}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 -c "import props"', checks=[], not_applicable=[])
for p in props:
    if p in PROPS:
        m['checks'].append(dict(property=p, quick_cmd='python3 run.py %s' % p, thorough_cmd='python3 run.py %s --tier thorough' % p,
                                technique=BASE + T[p][0], level=PROPS[p].get('level', 'exploration'), level_note=T[p][1]))
    else:
        m['not_applicable'].append(dict(property=p, reason='monitor not built yet'))
if not m['not_applicable']:
    m['not_applicable'] = []
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed')
