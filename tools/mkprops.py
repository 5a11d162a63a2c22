#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays reviewable)."""
import json, os, re
P = []
def where(name, files):
    """the file that defines the last part of the name"""
    base = name.split('.')[-1]
    cls = name.split('.')[0] if '.' in name else None
    files = sorted(files, key=lambda f: '/' not in f)
    for strict in (True, False):
        for f in files:
            t = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), f)).read()
            if strict and cls and cls != 'utils' and not re.search(r'^class %s\b' % cls, t, re.M):
                continue
            if re.search(r'\b(def|class) %s\b' % base, t) or re.search(r'\b%s\b' % base, t) and not strict:
                return f
    return files[0]

def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=where(m, files)) for m in mech])))

R='librksv/receipt.py'; A='librksv/algorithms.py'; U='librksv/utils.py'; V='librksv/verify.py'
VR='librksv/verify_receipt.py'; VS='librksv/verification_state.py'; DP='librksv/depparser.py'
DE='librksv/depexport.py'; KS='librksv/key_store.py'; CR='librksv/cashreg.py'; SS='librksv/sigsys.py'
URL='librksv/url_receipt_helpers.py'; RT='librksv/run_test.py'

p('P01','Receipt format conversions are lossless',
  'Every signed receipt that is accepted in one of the representations (JWS, QR code, OCR code, CSV line) can be converted to each of the other representations and read back, and yields a receipt with the same content, timestamp and amount strings, turnover counter bytes, chaining value and signature (for CSV as far as identifiers contain no semicolon and no white space at their ends). Converting a receipt with canonical Base64 elements to a representation and back reproduces exactly the original JWS and QR code text, so signatures and chaining values stay valid after conversion.',
  ['inputs'],'every receipt with arbitrary field values inside the accepted grammar, every ordered pair of representations',
  'Tests convert a handful of sample receipts; encodings depend on every byte value, on padding lengths and on the alphabet actually used.',
  [R,U],['Receipt.fromJWSString','Receipt.toJWSString','Receipt.fromBasicCode','Receipt.toBasicCode','Receipt.fromOCRCode','Receipt.toOCRCode','Receipt.fromCSV','Receipt.toCSV'])
p('P02','Only well-formed receipts are accepted',
  'A receipt in any textual representation is accepted if and only if it has exactly the required elements and every element is well formed: algorithm and provider identifiers, non-empty register and receipt identifiers, an ISO timestamp, five amounts with two decimals and a comma, Base64 turnover counter of 5 to 16 bytes or a training/cancellation marker, a certificate serial or key identifier that matches the kind of system (provider AT0 exactly for tax number, UID or GLN), and an 8 byte chaining value. Everything else is rejected with the receipt parse error family.',
  ['inputs'],'every element replaced by arbitrary text within the length bound, all other elements well formed',
  'Tests list a few malformed values per field; the accepted language is an infinite set described by regular expressions and length checks.',
  [R,U],['Receipt.__init__','CertSerialType.getCertSerialType','zdaRegex','algRegex','receiptFloatRegex','_getEmptyOrB64','_getTimestamp'])
p('P03','Hostile receipt text never causes an unexpected error',
  'Reading arbitrary text as a JWS, QR code, OCR code or CSV receipt either yields a receipt or fails with one of the documented receipt errors; no other exception type ever escapes. The same holds for verifying such a text against a key store.',
  ['inputs'],'arbitrary unicode text in every position of every representation, within the length bound',
  'Hostile input is unbounded; tests contain a few dozen malformed strings.',
  [R,U,VR],['Receipt.fromJWSString','Receipt.fromBasicCode','Receipt.fromOCRCode','Receipt.fromCSV','utils.b64decode','utils.b32decode','ReceiptVerifier.verify'])
p('P04','A receipt verifies only with a signature by the right key',
  'Verification of a receipt succeeds only if its signature was made by the key registered for the receipt (for open systems the certificate with the serial named in the receipt, read as hexadecimal or, if no such certificate is known, as decimal; for closed systems the key identifier named in the receipt; inside a DEP group the group certificate) over exactly the content of that receipt, and it succeeds for every receipt signed that way. A receipt marked as made during a signature device failure is never reported as successfully verified, an unknown key or mismatching certificate is reported as such.',
  ['inputs'],'every receipt content, every key store content with up to two keys, every signature relation (valid, by another key, over other content, failure marker)',
  'Tests use one fixed key pair and a few tampered receipts; the guarantee is about every possible modification and key selection.',
  [VR,A,KS],['ReceiptVerifier.verify','R1.verify','KeyStore.getKey','strSerialToKeyIds','Receipt.isSignedBroken'])
p('P05','Turnover counter encryption round-trips for every value',
  'Decrypting an encrypted turnover counter with the same key and receipt identifiers yields the original signed amount for every counter size from 5 to 16 bytes and every value that fits, negative ones included. The ciphertext has exactly the requested size and depends on register identifier and receipt identifier (both enter the initialisation vector), and keys that are not 32 bytes are refused.',
  ['inputs'],'every counter value of every size, every key, every pair of identifiers within the length bound',
  'Tests use counter sizes 5, 8 and 16 with small positive values and one key.',
  [A,R,U],['R1.encryptTurnoverCounter','R1.decryptTurnoverCounter','Receipt.decryptTurnoverCounter','utils.aes256ctr','R1.verifyKey'])
p('P06','Every turnover counter in a DEP is checked against the running total',
  'When the AES key is given, a DEP is accepted only if the decrypted counter of every normal receipt equals the previous running total plus the exact sum of its five amounts in cents, where cancellation receipts add their amounts to the running total without carrying a counter and training receipts are ignored; a DEP whose counters obey this rule is never rejected for its counters. Without a key, counters are not examined.',
  ['inputs','histories'],'every previous running total, every combination of receipt kinds, amounts and counters, every counter size, sequences up to the bound and one step from an arbitrary state',
  'Tests contain short DEPs with a few amounts; an accounting error can need a special combination of receipt kinds, signs and amounts.',
  [V,A,R],['verifyGroup','CashRegisterState.lastTurnoverCounter','Receipt.decryptTurnoverCounter'])
p('P07','Receipts are chained without gaps',
  'A DEP is accepted only if the chaining value of every receipt equals the first 8 bytes of the SHA-256 hash of the complete previous receipt of the register (of the register identifier for the first receipt of the first register, of the start receipt of the previous register for a further cluster register, or an explicitly configured value). Removing, inserting, reordering or altering any receipt, signed or unsigned, is therefore reported, at that receipt.',
  ['inputs','histories'],'every chaining value and every previous receipt, one step from an arbitrary register state, plus bounded sequences with a removed, duplicated or swapped receipt',
  'Tests break the chain at one fixed place with one fixed value.',
  [V,A],['verifyChain','verifyChainValue','R1.chain','verifyGroup','CashRegisterState.chainNextTo'])
p('P08','Signature device outages must end with a signed zero receipt',
  'After a receipt that could not be signed, the next properly signed receipt may carry turnover or be a special receipt only if the receipt right after it is a signed, normal zero receipt; while that zero receipt is outstanding any other receipt is rejected as missing restore receipt. DEPs obeying the rule are never rejected for it.',
  ['inputs','histories'],'every sequence up to the bound of signed/unsigned, zero/turnover, normal/training/cancellation receipts, and one step from an arbitrary state',
  'The rule is a state machine over receipt histories; tests contain about a dozen of the histories.',
  [V],['verifyGroup','CashRegisterState.needRestoreReceipt','Receipt.isSignedBroken','Receipt.isNull'])
p('P09','Every register starts with a proper start receipt',
  'The first receipt of a cash register is accepted only if it is signed by a working device, has zero turnover, is neither a training nor a cancellation receipt, and is chained to the register identifier, or in a cluster to the start receipt of the previous register, where clusters are accepted only for closed systems. It is then recorded as the start receipt of the register.',
  ['inputs','histories'],'every kind of first receipt, with and without a previous cluster register, every chaining relation',
  'Tests contain one DEP per single violation; combinations and the cluster variants are not covered.',
  [V,VS],['verifyGroup','prevStartReceiptJWS','ClusterState.getCashRegisterInfo'])
p('P10','No receipt identifier is used twice',
  'Verification accepts a receipt only if its identifier was not used before in the same DEP, in earlier DEPs recorded in the state, or by other registers of the cluster, no matter how the work is split; a duplicate is reported with its identifier. With the space-saving sorted backend only strictly increasing identifiers (in natural order) are accepted, which also excludes duplicates.',
  ['inputs','histories'],'every set of previously used identifiers and every new identifier within the bounds, both backends, check, add, merge and stored form',
  'Tests have one DEP with one duplicate; natural ordering and merging depend on arbitrary identifier text.',
  [VS,V],['UsedReceiptIdsUnique','UsedReceiptIdsSortedNatural','UsedReceiptIdsBackend.merge','verifyGroup'])
p('P11','Register id, system type and time order are invariant in a DEP',
  'Within the receipts of one register (and towards the previous cluster register) a receipt is accepted only if it has the same register identifier as its predecessor, belongs to the same kind of system (open or closed), and is not dated before its predecessor; equal timestamps are accepted.',
  ['inputs','histories'],'every predecessor and every receipt, one step from an arbitrary register state',
  'Tests contain one DEP per rule with one pair of values.',
  [V],['verifyGroup','ChangingRegisterIdException','ChangingSystemTypeException','DecreasingDateException'])
p('P12','Group certificates are accepted only through an intact chain to a trusted one',
  'A group certificate is accepted only if walking from it along the supplied chain every certificate is signed by the next one until a certificate is reached whose serial is in the key store, and the stored certificate has the same fingerprint; otherwise the group is rejected as untrusted, as broken chain or as serial collision. Certificates reached this way are never rejected.',
  ['inputs'],'every chain of up to three certificates with arbitrary serials, signing relations and key store contents',
  'Tests contain a few chains with one defect each.',
  [V,U,KS],['verifyCert','utils.verifyCert','KeyStore.getCert','certFingerprint','packageChunkWithVerifiers'])
p('P13','The verdict does not depend on chunking or parallelism',
  'For a DEP and a start state the verdict (acceptance or rejection, not which of several errors is reported, and after acceptance the resulting state) is the same for every chunk size, for every number of work packages, with or without a process pool, and for in-memory or streaming verification.',
  ['inputs','schedules'],'every sequence of receipt kinds and defects up to the bound, every chunk size and package count up to the bound, from fresh and from arbitrary register states',
  'The tests run each DEP with one random chunk size and two workers.',
  [V,VS,DP],['verifyParsedDEP','verifyDEP','prepareVerificationTuples','CashRegisterState.fromDEPGroup','getChunksForProcs','UsedReceiptIdsBackend.merge'])
p('P14','Verification state survives storage and failed runs',
  'Writing the cluster state to JSON and reading it back yields an equal state, reading anything else than a well-formed state fails with a state parse error only, and a verification that fails leaves the state that was passed in unchanged apart from a possibly added empty register.',
  ['inputs','histories'],'every register state and set of used identifiers within the bounds, every JSON value with one element replaced by a value of arbitrary type',
  'Tests do not store states and never look at the state after a failed run.',
  [VS,V],['ClusterState.readStateFromJson','ClusterState.writeStateToJson','CashRegisterState.fromDict','UsedReceiptIdsBackend.readFromJson'])
p('P15','Updating a state without verification equals verifying',
  'For every DEP group that verifies successfully from a register state, updating that register state from the group without verification yields the same state as verification: last receipt, start receipt, running turnover total, outstanding restore receipt and pending chaining value.',
  ['inputs','histories'],'every register state and every group up to the bound of signed/unsigned, normal/training/cancellation receipts with arbitrary amounts',
  'Tests compare the two for complete sample DEPs only.',
  [VS,V],['CashRegisterState.updateFromDEPGroup','CashRegisterState.fromDEPGroup','verifyGroup'])
p('P16','Verification can resume at an arbitrary receipt',
  'A state created from an arbitrary receipt accepts exactly a DEP that starts with that very receipt, provided the remainder of the DEP is valid, including its turnover counters when the key is given (if the first receipt is a training or cancellation receipt, which shows no counter, the running total starts at zero); a state created from an arbitrary start receipt accepts that start receipt although its chaining predecessor is unknown.',
  ['inputs','histories'],'every receipt (open and closed system, all kinds, all amounts and counters) and every modified chaining value',
  'No test exercises these entry points.',
  [VS,V],['ClusterState.fromArbitraryReceipt','ClusterState.fromArbitraryStartReceipt','CashRegisterState.chainNextTo'])
p('P17','All DEP parsers deliver the same receipts for every chunk size',
  'For a well-formed DEP every parser variant and every chunk size delivers every receipt exactly once, in order and attributed to the certificate and chain of its group, in chunks of at most the requested size (a parser for files that cannot be positioned may refuse a DEP whose certificates follow the receipts of a chunk boundary, and one that does not need certificates may omit them); a structurally malformed DEP is rejected with a DEP parse error by every parser, never with another exception.',
  ['inputs','schedules'],'every DEP of up to three groups and four receipts, every element order, every chunk size, every single structural defect',
  'Tests compare two parsers at a few chunk sizes on well-formed sample DEPs.',
  [DP],['DictDEPParser.parse','FileDEPParser.parse','StreamDEPParser.parse','CertlessStreamDEPParser.parse','FullFileDEPParser.parse'])
p('P18','Exporting, splitting and merging DEPs preserves all receipts and certificates',
  'Exporting receipt groups and parsing the result gives back the same receipts in the same order with the same certificate and chain per group; splitting a DEP and merging the parts gives the original sequence. Adjacent groups are merged only if both certificate and chain match, and are then always merged.',
  ['inputs'],'every sequence of up to four groups with up to three receipts each and arbitrary certificate and chain relations',
  'No test exercises the merging stream or export followed by parsing of several groups.',
  [DE,DP],['DEPStream','MergingDEPStream','DEPExporter.export','JSONExporter.export','CSVExporter.export','receiptGroupAdapter'])
p('P19','Key stores store, find and restore keys faithfully',
  'A key or certificate put into a key store is found under its identifier or serial and nothing else is, deleting removes only the named entry, and writing the store to JSON and reading it back yields the same keys, certificates and AES key. A serial is found in hexadecimal as well as in decimal notation, and a malformed store is rejected with key store parse errors only.',
  ['inputs','histories'],'every serial and identifier within the bounds, every sequence of up to three operations, every JSON value with one element replaced by a value of arbitrary type',
  'Tests use a single key per store and never read a malformed store.',
  [KS,U],['KeyStore','numSerialToKeyId','strSerialToKeyIds','KeyStore.readStoreFromJson','KeyStore.writeStoreToJson','utils.loadKeyFromJson'])
p('P20','URL hashes identify the receipt they were made for',
  'Checking a receipt against a URL hash succeeds exactly if the hash equals the first 8 bytes of the SHA-256 hash of the QR code text in unpadded URL-safe Base64, and the hash produced for a receipt always passes this check. The hash is taken from the fragment of a URL if there is one and otherwise is its last stand-alone 11 character token.',
  ['inputs'],'every receipt content, every presented hash, every URL within the length bound',
  'No test exercises URL verification.',
  [VR,URL,R],['verifyURLHash','Receipt.toURLHash','getURLHashFromURL'])
p('P21','Receipts produced by the cash register always verify',
  'Every sequence of receipts produced by the cash register and signature system classes that starts with a zero start receipt and ends outages with a zero receipt passes verification with the same key, and the final state holds the turnover counter of the cash register.',
  ['inputs','histories'],'every amount, counter start, counter size and receipt kind sequence within the bounds',
  'Tests produce DEPs from fixed test case files.',
  [CR,SS,V],['CashRegister.receipt','SignatureSystemWorking.sign','SignatureSystemBroken.sign','verifyGroup'])
p('P22','Verification errors survive the way out of worker processes',
  'Every verification error raised by a worker arrives in the parent process with the same type, the same message and the same receipt reference.',
  ['inputs'],'every exception class of the library and arbitrary constructor arguments within the length bound',
  'Only errors provoked by the test cases cross a process boundary in the tests.',
  [U,R,V,VR,VS,DP,KS],['RKSVException.__reduce__','_initargs'])
p('P23','Amounts are read and totalled exactly to the cent',
  'The amounts of a receipt are taken exactly as printed: totals of five amounts are exact to the cent for every sign, a receipt counts as zero receipt exactly if all five amounts are zero, and training and cancellation receipts are recognised exactly by their markers.',
  ['inputs'],'all amounts with up to 9 digits before the comma, all sign combinations',
  'Floating point conversion errors appear only for particular digit combinations.',
  [U,R,V],['getReceiptFloat','Receipt.isNull','Receipt.isDummy','Receipt.isReversal','verifyGroup'])
p('P24','Registers of a cluster are addressed and updated independently',
  'Verifying or updating one register of a cluster changes only that register and the shared set of used identifiers; the start receipt of the preceding register is used as chaining anchor, a new register can be added only after the last one has a start receipt, and an index that does not exist is refused.',
  ['inputs','histories'],'every cluster of up to three registers with arbitrary states, every index, every operation',
  'Tests address registers only in the order of creation.',
  [VS,V],['ClusterState.getCashRegisterInfo','ClusterState.updateCashRegisterInfo','ClusterState.addNewCashRegister'])
p('P26','Work packages partition the receipts',
  'Distributing receipts over worker processes keeps every receipt exactly once, in order and with its own verifier, never creates more packages than requested and never an empty one.',
  ['inputs','schedules'],'every number of groups, group sizes and package counts within the bounds',
  'Tests use two workers.',
  [V,DP],['balanceGroupsWithVerifiers','getChunksForProcs','DictDEPParser.parse'])
p('P27','A byte order mark never changes what is read',
  'A JSON input (DEP, state, key store) in a file that can be positioned and that starts with a UTF-8 byte order mark is read exactly like the same input without it, from text and binary files alike, and nothing else is skipped.',
  ['inputs'],'every file content within the length bound, text and binary files',
  'No test contains a byte order mark.',
  [U,DP],['skipBOM','readJsonStream','IncrementalDEPParser.__init__'])
p('P25','verify.py reports verdict and resulting state',
  'The DEP verification tool ends successfully exactly if the DEP obeys the rules given the key store, key, state, register index and options; the options for parallel processes and chunk sizes never change the verdict, a violation is printed and ends the tool with an error status. With a state, exactly the state that follows the DEP is printed as JSON and can be used for the next part; a register is added exactly if asked for, other registers are untouched, no file is changed and wrong arguments never look like success.',
  ['inputs','histories'],'every DEP, state and combination of options within the bounds',
  'No test runs the command line tools.',
  ['verify.py',V,VS],['usage','verifyParsedDEP','verifyDEP','ClusterState.readStateFromJson','ClusterState.writeStateToJson'])
p('P28','verification_state.py changes only what a command names',
  'Every command of the state tool changes exactly the element it names of exactly the register it names and leaves every other register, element and the set of used identifiers as it was; a command that cannot be carried out (wrong index, wrong arguments, malformed file or receipt) leaves the state file unchanged. A register created from a receipt (in any format) or updated from a DEP continues at exactly that point.',
  ['inputs','histories'],'every state of up to three registers with arbitrary contents, every command with every index and arguments within the bounds',
  'No test runs the command line tools.',
  ['verification_state.py',VS],['usage','ClusterState.updateCashRegisterInfo','CashRegisterState.updateFromDEPGroup','CashRegisterState.fromArbitraryReceipt'])
p('P29','Conversion tools lose no receipt and no certificate',
  'receipt.py turns every line into the same receipt in the format asked for and refuses anything else; convert.py turns a JSON DEP into one CSV line per receipt and back, in order; split.py writes parts of at most the requested number of receipts and no more parts than needed, and merge.py joins DEPs, so that splitting and merging give the original receipts with their certificates and chains; cert_extract.py writes every certificate of a DEP to a file named after its serial number; receipt_host.py serves exactly the receipts of its DEP under their URL hash. Input files are never changed.',
  ['inputs'],'DEPs and receipt lists of every shape within the bounds, all formats, chunk sizes and options',
  'No test runs the command line tools.',
  ['receipt.py','convert.py','split.py','merge.py','cert_extract.py','receipt_host.py',DE,DP],['Receipt.fromCSV','JSONExporter','CSVExporter','MergingDEPStream','receiptGroupAdapter'])
p('P30','key_store.py keeps the key store consistent',
  'Every command of the key store tool that can be carried out has exactly the described effect on the key store file (create, add, del, setSymmetricKey, delSymmetricKey, conversion from and to the old format) and keeps all other keys, certificates and the AES key; list and showSymmetricKey show exactly the content and change nothing; a command that cannot be carried out leaves the file alone and does not look like success; other files are never touched.',
  ['inputs','histories'],'every store within the bounds, every command and every sequence of two commands',
  'No test runs the command line tools.',
  ['key_store.py',KS,U],['usage','KeyStore.readStoreFromJson','KeyStore.writeStoreToJson','KeyStore.readStore','KeyStore.writeStore','utils.loadB64Key'])
p('P31','verify_receipt.py judges every receipt it is given',
  'The receipt verification tool reports exactly those receipts (in any format) that do not verify against the key store, with the line they stand in, and its summary counts exactly those that do.',
  ['inputs'],'every list of up to three receipts in every format, each valid, invalid, changed, unsigned or malformed',
  'No test runs the command line tools.',
  ['verify_receipt.py',VR,R],['usage','ReceiptVerifier.verifyJWS','ReceiptVerifier.verifyBasicCode','ReceiptVerifier.verifyOCRCode','ReceiptVerifier.verifyCSV'])
p('P32','Generated test DEPs are what the specification says',
  'A test case specification is turned into exactly the receipts it lists, in order, with the amounts, times, types, devices and overrides it names, correct chaining and turnover counters in every register, and DEPs that begin, refer to each other and carry certificates as specified; the returned key store holds the keys of the devices, so that a specification that obeys the rules gives DEPs that verify. run_test.py writes these to the directory of the test case and touches nothing else. demo.py prints a DEP of a new register with the requested number of receipts that verifies.',
  ['inputs','histories'],'every specification within the bounds',
  'The tests use the generator but only observe whether verification gives the expected result.',
  [RT,CR,SS,DE,'run_test.py','demo.py'],['runTest','CashRegister.receipt','MangledReceipt','DEPExporter.addExtra'])
p('P33','The graphical tool shows what verification says',
  'The tool shows a DEP as valid exactly if it verifies with the key store and AES key in use when it was verified, and a receipt as correctly signed exactly if its signature verifies; it shows every group, certificate, receipt, amount and decrypted counter as they are; the result of a verification that was stopped, or of a DEP that was replaced meanwhile, is never shown for another one. The key store window keeps the keys shown and the keys in use the same. Files, keys and receipts that cannot be used are reported and leave the tool usable.',
  ['inputs','histories','schedules'],'every DEP, receipt, sequence of actions and interruption within the bounds',
  'No test runs the graphical tool; which task ends between which user actions is a matter of scheduling.',
  ['rktool.py',V,VR,KS],['VerifyDEPWidget','VerifyReceiptWidget','ViewReceiptWidget','KeyStoreWidget','verifyDEP_main_Task','verifyReceiptTask'])
p('P34','Signing failures never cost a register its continuity',
  'If the signing service cannot be reached or refuses, the receipt is issued with the same contents and the outage marker instead of a signature, and otherwise it carries the signature of the service over exactly its contents; the service is asked only for the configured user, with the configured server certificate, and nothing is signed with another algorithm. A receipt that cannot be made at all (failing device, unusable key, counter that does not fit, unusable amount) leaves turnover counter and last receipt of the register as they were, so that the following receipts form a DEP that verifies.',
  ['inputs','histories','fault_sequences'],'every failure at every request within the bounds',
  'The tests neither use the service nor let a device fail in the middle of a receipt.',
  [CR,SS],['SignatureSystemATrustMobile','SignatureSystemBroken','CashRegister.receipt'])
p('P35','The image decoder reports every QR code of every image',
  'img_decode.py prints the contents of all QR codes in the images it is given, in the order of the images and of the codes in them, and of no other kind of code, whatever the colour mode of an image, however many codes it contains and whichever decoding library is there.',
  ['inputs'],'every list of images and codes within the bounds',
  'No test runs the tool; one library or the other is there, and images in other colour modes are rare.',
  ['img_decode.py'],['read_qr_codes','img_to_bytes'])
P.sort(key=lambda x: x['id'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
