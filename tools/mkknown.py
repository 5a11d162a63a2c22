#!/usr/bin/env python3
"""Writes /verif/known-findings.json: open findings (edited here by hand) and the list of repairs."""
import json, os, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
FINDINGS = [
    dict(id='P13-mixed', property='P13', case='mixed', label='several groups, one without certificate: rejected for every chunk size', choices={},
         what='DEP of several groups of which one has no certificate: verifyDEP and chunks that span groups reject it '
              '(NoCertificateGivenException), verifyParsedDEP accepts it when every chunk lies within a single group '
              '(e.g. DictDEPParser with chunk size 0 or any parser with chunk size 1)'),
    dict(id='P32-start', property='P32', case='start', label='run_test.py installs its translations', choices={},
         what='run_test.py (and test_verify.py) do not start on Python 3.11 and later: gettext.install() is called with a third '
              'positional argument (TypeError). The other tools are repaired (499c996); these two are named like test files, '
              'which may not be changed'),
]
FIXES = {   # commit subject -> (property, what failed)
 'decode OCR codes': ('P01', 'every OCR code was refused: b32decode was called with text padding on bytes'),
 'make InvalidKeyException survive': ('P22', 'InvalidKeyException could not be unpickled in the parent process'),
 'give every verification package': ('P13', 'packages shared one receipt ID set: without a process pool a later package reported its own IDs as duplicates'),
 'accept empty Signaturzertifikat': ('P17', 'streaming a DEP without certificate failed when a chunk ended inside the group'),
 'compare certificate chains when': ('P18', 'MergingDEPStream compared the chain with the wrong variable: groups with other chains were merged or equal ones kept apart'),
 'report receipt lists of the wrong': ('P17', 'a Belege-kompakt that is no list of strings raised TypeError/AttributeError'),
 'report missing or malformed certificates found by look-ahead': ('P17', 'FileDEPParser raised other exceptions for certificates behind the receipts'),
 "tolerate an empty serial": ('P19', "strSerialToKeyIds('') raised IndexError"),
 'record a start receipt only': ('P15', 'updateFromDEPGroup recorded a start receipt for registers resumed at an arbitrary receipt'),
 'do not accept trailing newlines': ('P02', 'trailing newlines and non-ASCII digits were accepted in receipt elements'),
 'accept timestamps in the exact': ('P02', 'timestamps with one-digit fields or blanks were accepted'),
 'accept only plain digits': ('P02', 'certificate serials with signs, blanks or underscores were accepted'),
 'reject receipts with lone': ('P03', 'lone surrogates in receipts raised UnicodeEncodeError'),
 'sort receipt IDs with non-ASCII': ('P10', 'int() of a non-ASCII digit (superscript) raised ValueError in the sorted backend'),
 'treat keys of other types': ('P04', 'RSA or EdDSA keys raised TypeError/AttributeError instead of failing verification'),
 'treat certificates with other signature': ('P12', 'certificates signed by EdDSA or with unknown hash raised TypeError/UnsupportedAlgorithm'),
 'report certificates with an unusable': ('P19', 'certificates whose public key cannot be loaded raised ValueError'),
 'start the command line tools': ('P25', 'every command line tool crashed at start on Python 3.11 and later (gettext.install with three positional arguments)'),
 'read URL receipts in': ('P28', 'verification_state.py raised NameError for receipts given as URL'),
 'accept AES key files': ('P28', 'key files that end with a newline were refused'),
 'show receipts of a DEP in the graphical': ('P33', 'pressing a receipt of a loaded DEP raised TypeError'),
 'report malformed key stores in the graphical': ('P33', 'importing a malformed key store raised NameError (configparser not imported) or KeyStoreException'),
 'report unusable AES keys when verifying in the graphical': ('P33', 'an AES key of the wrong length ended the task without a result: the tool stayed in "Verifying..."'),
 'report crypto containers without a dictionary in the graphical': ('P33', 'loading a crypto container that is no JSON object raised TypeError'),
 'leave the register unchanged': ('P34', 'a receipt that could not be made (failing device, unusable key, counter too large) had already changed the turnover counter'),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [v for k, v in FIXES.items() if k in s]
    if not m:
        print('no entry for', l)
        continue
    fixed.append('fixed: property=%s %s %s' % (m[0][0], h, m[0][1]))
json.dump(dict(findings=FINDINGS, fixed=fixed[::-1]), open(os.path.join(H, 'known-findings.json'), 'w'), indent=1)
print(len(fixed))
