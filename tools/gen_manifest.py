#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks the harness has."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
have = subprocess.run([f'{here}/harness/target/release/sdp-harness', 'list'], capture_output=True, text=True, check=True).stdout.split()
T = {
 'C01': ('structured and mutation fuzzing of every public entry point', 'no panic, overflow, or mis-sliced character in any call on generated, mutated and arbitrary text, with the built-in overflow checks and debug assertions on'),
 'C02': ('round-trip property over generated and mutated descriptions', 'parse, print, parse, print: acceptance, equality of all fields and equality of the texts'),
 'C03': ('generated descriptions against the generator\'s own record of their meaning', 'every line of the description is generated together with the value it must give'),
 'C04': ('generated attributes against the generator\'s record of their meaning, plus round-trip', 'the grammar is written down independently of the parser'),
 'C05': ('generated attributes against the generator\'s record of their meaning, plus round-trip', 'the grammar is written down independently of the parser'),
 'C06': ('generated attributes against the generator\'s record of their meaning, plus round-trip', 'the grammar is written down independently of the parser'),
 'C07': ('generated attributes against the generator\'s record of their meaning, plus round-trip', 'the grammar is written down independently of the parser'),
 'C08': ('differential property: lenient against strict parsing of arbitrary text', 'both modes are run on every text and the outcomes related'),
 'C09': ('metamorphic property: descriptions with and without unsupported lines', 'warnings are compared with the list of inserted lines, the session with the generator\'s record'),
 'C10': ('generated descriptions with one injected broken or misplaced line', 'the injected line is known, so the report is compared with it; a reference model decides which line is misplaced'),
 'C11': ('metamorphic property: the same lines in two presentations', 'outcomes must agree up to line numbers'),
 'C12': ('reference model of section rules over permuted, cut and enriched descriptions', 'a small model judges each line sequence; parser and editing interface are compared with it'),
 'C13': ('reference model of cross-line rules over descriptions that keep or break them', 'a small model judges each description'),
 'C14': ('boundary and fault generation over a table of all bounded fields', 'the table of fields, ranges and closed word sets is written down independently'),
 'C15': ('generated addresses in every place against an independent reading', 'std parsing of literals is trusted'),
 'C16': ('generated complete and damaged fingerprints through every constructor', 'an independent recogniser decides each text'),
 'C17': ('stateful model-based histories of anonymiser calls', 'a map-based model of a stable one-to-one mapping follows each history'),
 'C18': ('generated sessions with marked secrets against an expected masked copy', 'expected values come from the same anonymiser, and no secret may occur in the printed copy'),
 'C19': ('stateful model-based sequences of editing calls', 'a list model follows each sequence; every getter is compared after every call'),
 'C20': ('generated builder sequences, printed and parsed back', 'the session built and the session parsed are compared'),
 'C21': ('generated media lines against the generator\'s record, plus enumeration of formats', 'the set of allowed formats is written down independently'),
 'C22': ('metamorphic scaling property over repeated elements, with counted allocation and instructions', 'growth from n to 4n repetitions is bounded by counted bytes, calls and retired instructions, not by wall-clock time'),
 'C23': ('generated sessions and errors: JSON against the values, error fields against the error', 'a generic walk over both representations'),
 'C25': ('generated histories and thread schedules, differential against fresh processes', 'each text is run in several orders, threads and processes and all its outcomes compared'),
 'C26': ('round-trip property over anonymised copies', 'mask, print, parse: acceptance and equality of all fields but fingerprints'),
 'C27': ('differential property over the public entry points', 'the same value or text is given to every entry point that reads it'),
 'C28': ('metamorphic property: media sections alone and together, lines removed, repeated and exchanged', 'the outcome for the whole is composed of those for the parts'),
 'C29': ('property-based testing over sessions of every origin, differential against an independent strict reader', 'printed text decoded by a second reader written from the RFC grammars, compared with the values held'),
 'C24': ('differential property over builds with each feature combination', 'the same corpus is run through four builds and the outputs compared'),
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': f'bash tools/run.sh check {i}', 'thorough_cmd': f'bash tools/thorough.sh {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': 'property-based testing: ' + T[i][0], 'level': 'exploration',
                       'level_note': T[i][1] + '; a sample of the inputs, not all of them. Trusts the generators, the projection of values to text and std.'})
    else:
        na.append({'property': i, 'reason': 'its check is being built'})
m = {'version': 1, 'setup_cmd': 'bash tools/run.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks use the public interface only. Fixes and findings: known_findings.json. Quick tiers do a fixed amount of work for a given VERIF_SEED.'}
json.dump(m, open(f'{here}/MANIFEST.json', 'w'), indent=1)
open(f'{here}/MANIFEST.json', 'a').write('\n')
