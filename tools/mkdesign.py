#!/opt/veriftools/pyvenv/bin/python
"""Writes /verif/DESIGN.md."""
import ast, json, os
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import sys
sys.path.insert(0, os.path.join(H, 'tools'))

ORACLE = dict(
 P01='The four representations of a receipt are written by the harness from the regulation (not with the code under test) and read by the code; every representation is converted to every other and compared with the expected text and fields.',
 P02='A recogniser for each element written by hand from the regulation (`fmt.py`), evaluated symbolically on the same characters: accepted by the code if and only if accepted by the recogniser.',
 P03='Outcome is a receipt or one of the documented errors; anything else that is raised is a violation.',
 P04='The harness knows what was signed with which key and what the store contains; expected verdict from the rules in the statement.',
 P05='Round trip, and a reference construction of IV and counter written from the regulation.',
 P06='Running total computed by the harness in integer cents; verdict of the code must be equal, the state afterwards must hold the total.',
 P07='Chaining values computed by the harness from texts; accepted iff equal.',
 P08='Three state automaton (well, unsigned, restore outstanding) in `dep.py`.',
 P09='Conjunction of the conditions of the statement, evaluated by the harness.',
 P10='Set membership (and a hand-written natural order for the sorted backend) by the harness.',
 P11='Comparison of the symbolic identifiers, kinds and timestamps by the harness.',
 P12='Independent walk over serials, fingerprints and signing relations.',
 P13='Every way of verification is run on the same symbolic DEP and compared with the one-by-one model; relation between runs plus model.',
 P14='Snapshots taken before and after by the harness; an independent description of the stored format decides what is well formed.',
 P15='Relation: state after verification equals state after update, element by element.',
 P16='Model of the continuation.',
 P17='The groups the JSON text was made from; expected flattening per chunk size.',
 P18='The groups put in; merge rule written by the harness.',
 P19='A dictionary kept by the harness alongside the sequence of operations.',
 P20='Digest of the QR text computed by the harness; token rule written by hand.',
 P21='Verification itself (real relation between two halves of the library) and integer totals.',
 P22='Relation: the unpickled exception equals the raised one.',
 P23='Hand-written amount grammar giving integer cents.',
 P24='Snapshots of all registers; only the addressed one may change.',
 P26='The list of receipts put in.',
 P27='The same content without the mark.',
 P25='The register model of `dep.py` for the verdict and the state that has to be printed.',
 P28='The state file as a Python structure changed by the harness the way the documentation says.',
 P29='The receipts and groups the harness wrote the input from.',
 P30='A dictionary of keys and certificates kept by the harness.',
 P31='The harness knows which receipts it signed, changed or broke.',
 P35='The codes and pixels the harness planned; stand-ins for both decoding libraries find them only if they are given the right size and pixels.',
 P34='The fault the harness injected; the payload it asked to sign; verification of the DEP.',
 P33='Whether the harness built the DEP to obey the rules (model of P05-P07) and what it put into it; a real run of the tool with a stand-in for kivy.',
 P32='The specification itself; counters and chaining values computed by the harness.',
)

LESSONS = '''## 4. Findings in the library

Repaired (`fix:` commits in /repo, all found by these checks; the checks report them again
when the commit is reverted):

%(fixed)s

Known finding (not repaired, listed in `known-findings.json`):

%(known)s

It is not a small repair: the chunk interface hands out lists of groups, and a group that
was split into two chunks cannot be told from two groups there, so whether a DEP has several
groups is not known when the first chunk is verified. Which of both behaviours is wanted is a
decision for the maintainer. The entry matches this case and label only; everything else P13
says is checked without exception.

## 5. False alarms met and corrected

* P02: Base64 with unused bits set or with superfluous padding is accepted by the standard
  decoder; the regulation does not exclude it, so the oracle is the standard decoder with a
  checked alphabet. `_` separates in CSV as well, by design of the library.
* P04: a serial that reads as one certificate in hexadecimal and as another in decimal: the
  library prefers hexadecimal; the statement says so now.
* P13: which of several errors is reported first depends on the split; the property is about
  the verdict.
* P14: a JSON `true` in place of the integer total is accepted (Python booleans are integers).
* P16: an entry receipt that is a training or cancellation receipt does not tell the total.
* P17: `StreamDEPParser` cannot deliver certificates that follow the receipts at a chunk
  boundary and refuses; the statement allows it.
* P27: a file that cannot be positioned keeps its mark (the library cannot peek); stated.

## 6. Planted bugs

`tools/seeds.py` defines them, `tools/mkseeds.py write|test|check` writes `/verif/seeded`,
confirms each (804 tests pass with it, the demonstration fails with it and passes without)
and runs the check. Each was written from the statement of the property, before looking at
the check. Result of the last run:

%(seeds)s

Changes that were tried and are *not* in the list because the existing tests notice them:
removing the ValueError handling of timestamps, the serial collision check inside the loop,
merging only the last identifiers of a package, ignoring `isDummy` in the update, leaving out
`round` in the cash register, `if not registerIdx`.

## 7. Edits that keep the behaviour

%(refactor)s
'''

def defs(pid):
    t = ast.parse(open(os.path.join(H, 'harness', pid.lower() + '.py')).read())
    docs, cases, texts = {}, [], {}
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            docs[n.name] = (ast.get_docstring(n) or '').split('\n\n')[0].replace('\n', ' ')
        elif isinstance(n, ast.Assign):
            name = getattr(n.targets[0], 'id', '')
            if name == 'CASES':
                for e in n.value.elts:
                    d = {k.arg: k.value for k in e.keywords}
                    cases.append((ast.literal_eval(d['name']), getattr(d['fn'], 'id', ''), 'thorough_only' in d))
            elif name in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
                texts[name] = ast.literal_eval(n.value)
    return docs, cases, texts

def main():
    import seeds
    out = [open(os.path.join(H, 'tools', 'design_head.md')).read()]
    out.append('## 3. The properties\n')
    for line in open(os.path.join(H, 'properties.jsonl')):
        p = json.loads(line)
        pid = p['id']
        docs, cases, tx = defs(pid)
        out.append('### %s %s\n' % (pid, p['title']))
        out.append(p['statement'] + '\n')
        out.append('*Oracle.* ' + ORACLE[pid])
        out.append('*Code.* ' + ', '.join('`%s`' % m['name'] for m in p['anchors']['mechanism'])
                   + ' and everything they call (the evidence file lists the functions executed).')
        out.append('*Bounds.* ' + tx['BOUNDS'] + '.')
        out.append('*Outside.* ' + tx['OUTSIDE'] + '.')
        if tx.get('ASSUMPTIONS'):
            out.append('*Assumptions.* ' + '; '.join(tx['ASSUMPTIONS']) + '.')
        cs = []
        for name, fn, th in cases:
            cs.append('`%s`%s%s' % (name, ' (' + docs[fn] + ')' if docs.get(fn) else '', ' [thorough only]' if th else ''))
        out.append('*Cases.* ' + '; '.join(cs) + '.\n')
    k = json.load(open(os.path.join(H, 'known-findings.json')))
    rows = ['| bug | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
    notes = getattr(seeds, 'NOTES', {})
    for sid in sorted(seeds.SEEDS):
        s = seeds.SEEDS[sid]
        rows.append('| %s | %s | %s | %s | %s |' % (sid, s['prop'], s['breaks'], s['needs'], notes.get(sid, 'yes')))
    out.append(LESSONS % dict(
        fixed='\n'.join('* ' + x[len('fixed: '):] for x in k['fixed']),
        known='\n'.join('* %s: %s' % (x['id'], x['what']) for x in k['findings']),
        seeds='\n'.join(rows), refactor=open(os.path.join(H, 'tools', 'design_refactor.md')).read().strip()))
    with open(os.path.join(H, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))

main()
