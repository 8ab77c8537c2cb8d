"""Writes MANIFEST.json."""
import json

from checks import PROVED

COMMON = ('Trusted: the verifier in engine/ (symbolic execution of the Python source in /repo, its models of Python and library '
          'operations), z3, and the contracts in spec/. Data of at most 2**50 bytes; memory is not exhausted. ')
REPORT = ('File system, ElementTree, minidom, argparse, re and struct are functions of their arguments (engine/world.py) and the file system does not '
          'change during a run. ')
PART = {
    'C14': 'The analysis of every structure, and the conversion of values, MIX and report around it. ',
    'C16': 'Verbose, null-XML and packet-marker options by comparing the code with itself (with and without the option), parts of a structure '
           'by induction; MIX from the contract of the report. ',
    'C17': REPORT,
    'C18': 'Any error at any of: opening, mapping, analysing, converting. ' + REPORT,
    'C19': 'That the serialisation of one element is well-formed is a property of ElementTree and minidom, assumed; tested by the bounded search. ' + REPORT,
    'C20': 'What a wildcard matches is what glob gives. ' + REPORT,
    'C21': 'Which strings of the command line set which option is a property of argparse, assumed for the declarations that the code makes. ' + REPORT,
    'C22': 'Requires the entries that the contracts of the validators give for every valid file. ' + REPORT,
    'C23': 'No object that outlives the analysis or the making of the report is written; a fresh process is compared on bounded inputs as well. ',
}
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for p in props:
    c = {'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p}
    if p in PROVED:
        c.update(technique='contract-based deductive verification (own verification-condition generator over the real source, z3)',
                 level='proof',
                 level_note=PART.get(p, '') + COMMON + 'If changed source leaves the supported subset, the check falls back on a bounded search and says so in its evidence.')
    else:
        c.update(technique='bounded stand-in: contracts checked at run time on the real code for generated inputs', level='exploration',
                 level_note='Bounded: the contract in spec/report.py (and the judgements in harness/judge.py) evaluated on the real code for generated inputs; nothing proved beyond those.')
    checks.append(c)
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}, open('MANIFEST.json', 'w'), indent=1)
