"""Writes MANIFEST.json (run by hand when the checks change)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEARCH = 'property-based testing: generated expression programs (Hypothesis) '
TECH = {
 'C01': SEARCH + 'against a NumPy reference evaluator, and metamorphically against the realised parent',
 'C02': 'property-based testing: generated histories of keys over recording sources, against successive selection in NumPy and the set of elements read',
 'C03': SEARCH + 'of stacks and mosaics against the assembled array',
 'C04': SEARCH + 'of elementwise operations against NumPy',
 'C05': SEARCH + 'of masked elementwise operations against numpy.ma',
 'C06': SEARCH + 'of aggregations under generated chunk limits against NumPy in extended precision',
 'C07': SEARCH + 'of masked aggregations under generated chunk limits against a per-lane reference',
 'C08': 'property-based testing, metamorphic: the same program under several chunk limits',
 'C09': 'property-based testing, metamorphic: generated joint requests against individual evaluation and the reference',
 'C10': SEARCH + 'comparing declarations with realised results and the reference',
 'C11': SEARCH + 'over recording sources against a provenance model of the elements needed',
 'C12': SEARCH + 'over recording sources, with an invariant on the sizes and order of the reads',
 'C13': SEARCH + 'saved to checking targets which count writes and record the order of reads and writes',
 'C14': 'property-based testing with generated fault injection: each program fails at a generated read, then is evaluated again',
 'C15': 'property-based testing with generated delays, switch intervals and concurrent requests, against the reference',
 'C16': 'property-based testing, differential: the dask engine against the threaded engine and the reference; key groups against a set model',
 'C17': 'property-based testing, stateful: generated histories over a pool of arrays with snapshots of every source after each step',
 'C18': 'property-based testing: generated invalid requests against generated arrays, which must be refused before any read',
 'C19': SEARCH + 'of masked data with fill values against a reference model of fill values',
 'C20': 'property-based testing: generated huge arrays against a lazy index-function model, with memory limited',
}
NOTE = {
 'C12': 'The read-ahead bound is checked as "does not grow with the number of chunks" (at most 8 per level of the graph).',
 'C14': 'Faults are injected at every kind of read position (first, middle, last), one at a time; a second fault in the same evaluation is not.',
 'C15': 'Schedules are sampled through delays, switch intervals and concurrent callers; the harness does not own the scheduler, so a narrow race may be missed.',
 'C16': 'Only the expressions which the dask engine supports (sources, elementwise operations and aggregations).',
 'C20': 'Memory is limited with RLIMIT_AS while each case runs.',
}
GENERAL = ('Every case is judged by an oracle independent of biggus; assurance is '
           'statistical, over the generated domain described in DESIGN.md. ')


def main():
    checks = []
    for pid in sorted(TECH):
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 run.py --property %s --tier quick' % pid,
            'thorough_cmd': 'python3 run.py --property %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH[pid],
            'level': 'exploration',
            'level_note': (GENERAL + NOTE.get(pid, '')).strip(),
        })
    manifest = {
        'version': 1,
        'setup_cmd': 'bash tools/setup.sh',
        'checks': checks,
        'not_applicable': [],
        'notes': 'biggus is imported from /repo by a PyPy worker process; '
                 'nothing needs to be built and there are no hooks. Cases are '
                 'generated and shrunk by Hypothesis in /opt/veriftools/pyvenv. '
                 'Repaired defects are listed in known-findings.txt.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
