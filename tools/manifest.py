#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every check that the model checker knows."""
import json, os, subprocess
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(d + '/properties.jsonl')]
have = subprocess.run([d + '/mc/target/release/mc', 'list'], capture_output=True, text=True).stdout.split()
E1 = "explicit-state model checking of the implementation: breadth-first exploration of all reachable states of the real cursor against a bit-sequence model"
E2 = "exhaustive bounded model checking of the implementation: every %s within the bounds is generated, executed on the real code and compared with an independent reference model"
TECH = {}
for i in ids:
    if i[0] == 'C': TECH[i] = E1
W = dict(B01='tree of blocks and records and encoding choice', B02='sequence of scope and abbreviation actions', B03='abbreviation definition, record and bit offset',
 B04='interleaving of the steps of two or three parsers',
 B05='placement of a violation in a context and every 1- and 2-bit corruption', B06='short byte string, corruption and claimed count or length in every context', B07='wrapper layout and enclosed stream',
 B08='cut point of every stream and file', M01='sequence of top-level blocks', M02='record content, encoding and surrounding records', M03='string table, offset and size',
 M04='sequence of type table records', M05='sequence of attribute records', M06='field value, record length and encoding of function records', M07='field value, record length and encoding of alias records',
 M08='COMDAT record list and reference', M09='sequence of data layout specifications', M10='sequence of module-level records and blocks', M11='field value, record length, corruption, truncation and nesting',
 M12='pair of encodings of a file', M13='sequence of modules in a file', M14='function body and its place in a file', M15='order of the parts of a module', S01='alignment representation', S02='type construction up to the depth bound', S03='history of specification updates', S04='numeric code', S05='pair of opcode and operand type',
 S06='specification string', S07='limit and source type')
for i, w in W.items(): TECH[i] = E2 % w
git = lambda *a: subprocess.run(['git', '-C', '/repo', *a], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in git('log', '--format=%H %s', '--grep=^verif:').splitlines()]
m = dict(version=1, setup_cmd="bash run.sh build",
 hooks=dict(guard="cfg(mollusc_verif)", enable='RUSTFLAGS="--cfg mollusc_verif" (run.sh sets it; without the hook the checks fall back to what is publicly observable)', source_commits=hooks),
 checks=[dict(property=i, quick_cmd=f"bash run.sh {i} --tier quick", thorough_cmd=f"bash run.sh {i} --tier thorough", technique=TECH[i], level="model_checking",
   level_note="Exhaustive within the bounds stated in DESIGN.md and in the evidence file; the real code is executed on every case, so there is no model-to-code gap except the stated assumptions.") for i in ids if i in have],
 not_applicable=[dict(property=i, reason="check under construction: model checking applies, but it is not built yet") for i in ids if i not in have],
 notes="Levels, bounds, oracles, known findings and fixed defects: DESIGN.md. Fixed defects and known findings: known-findings.txt.")
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
open(d + '/MANIFEST.json', 'a').write('\n')
