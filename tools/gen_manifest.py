#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = 'online oracle: every observed call of the real library is judged against independent IEEE 1788 semantics in high-precision MPFR'
TECH = {p: ORACLE for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13')}
TECH.update({
    'P06': 'runtime monitor: well-formedness and flag oracle over calls with valid and ill-formed operands',
    'P14': 'runtime monitor: construction/conversion outcomes and flags judged by an exact reference hull',
    'P15': 'trace monitor: random walks over flag/trap calls judged against a reference state machine',
    'P16': 'ThreadSanitizer plus per-thread replay monitors over concurrent warm and cold-start workloads',
    'P17': 'runtime monitor: printed text is parsed exactly and judged for enclosure, tightness and layout',
    'P18': 'runtime monitor: text input judged by an independent exact grammar/value oracle on valid and mutated literals',
    'P19': 'runtime monitor: stream histories (manipulators, writes, reads, failures) judged against a model stream',
    'P20': 'runtime monitor: reductions judged by exact integer summation under hostile sequences and permutations',
    'P21': 'AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer (gcc and clang), checked C library calls, heap accounting and pattern-initialised builds over workloads on every part of the library',
    'P22': 'differential runtime monitor: each action in a pristine process versus after random histories under perturbed MPFR, processor rounding and locale settings',
    'P23': 'metamorphic runtime monitor: nested inputs must give nested results',
    'P24': 'multi-unit and shared-library programs with cross-unit state monitors, programs acting in every phase of their life (also under ASan), outcome logs compared between compilers and options',
    'P26': 'runtime monitor: exact values followed through random programs, sub-boxes and constraint propagation',
    'P27': 'runtime monitor: allocator hooks (operator new, GMP, MPFR) and the processor clock measure every single action against its bound',
    'P25': 'runtime monitor: error-free transformation judged in exact arithmetic',
})
NOTE = ('Holds on the executions observed: the number of judged calls, distinct non-trivial cases and states is in the evidence file. '
        'Trusts the reference semantics in harness/ref.cpp, MPFR at high precision and g++.')
def main():
    import importlib.util
    spec = importlib.util.spec_from_file_location('run', os.path.join(V, 'run.py'))
    run = importlib.util.module_from_spec(spec); spec.loader.exec_module(run)
    have = set(run.RUNS) | set(run.SPECIAL)
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': []}
    for p in props:
        if p in have:
            m['checks'].append({'property': p, 'quick_cmd': 'python3 run.py %s --tier quick' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
                                'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[p], 'level': 'exploration', 'level_note': NOTE})
        else:
            m['not_applicable'].append({'property': p, 'reason': 'the monitor for this property is still being built'})
    m['notes'] = 'No hooks are needed in /repo: the library is header-only and every monitored event is visible at its API, so all commits in /repo are fix: commits.'
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1); f.write('\n')
main()
