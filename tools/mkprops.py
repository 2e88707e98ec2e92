"""Writes properties.jsonl (run by hand after editing)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [dict(name=a, where=b)
            for a, b in mech], 'observe_at': list(observe),
            'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
            'hook_needed': None}})


p('C01', 'Parallel and chunked verification equals one sequential pass',
  'Verifying a journal gives the same verdict and, if accepted, the same '
  'resulting verification state, no matter how the journal is cut into chunks '
  'and work packages, how many worker processes or threads there are, and in '
  'which order their tasks run and finish. If the journal is rejected, every '
  'such run ends with an error for a rule the journal really breaks, and with '
  'the same error if it breaks only one. Verification through a pool always '
  'terminates.',
  ['schedules', 'configurations', 'inputs'],
  'All journals (legal, and with faults of the register or its device), all '
  'starting states, all chunk sizes, package counts, pool kinds, and task and '
  'result orders.',
  'The 804 tests run each small sample DEP with one pool of two processes and '
  'one chunk size; the OS picks the schedule, and the samples are shorter than '
  'one chunk.',
  ['librksv/verify.py', 'librksv/verification_state.py',
   'librksv/depparser.py', 'librksv/utils.py', 'verify.py'],
  [('start state of each package computed from the preceding receipts',
    'librksv/verify.py prepareVerificationTuples, librksv/verification_state'
    '.py CashRegisterState.updateFromDEPGroup'),
   ('merging of the receipt IDs of all packages',
    'librksv/verification_state.py UsedReceiptIdsBackend.merge'),
   ('pickling of certificates, keys and errors', 'librksv/utils.py')],
  ['return value and error of verifyDEP() and verifyParsedDEP()'],
  [('ClusterState', 'result of a verification',
    'librksv/verification_state.py')])

p('C02', 'An accepted journal is genuine and from a trusted device',
  'A journal is accepted only if every signed receipt in it carries a valid '
  'signature of a device whose key or certificate, or an issuer of that '
  'certificate through an unbroken chain of signatures, is in the key store. '
  'Whatever happens to a stored or transmitted journal - flipped bytes, lost, '
  'repeated, swapped, foreign, re-signed or inserted receipts, missing '
  'beginning, exchanged or damaged certificates - it is rejected unless its '
  'receipts are exactly the register\'s own in the original order, at most '
  'shortened at the end or changed only in unsigned receipts after the last '
  'signed one. A genuine journal with a complete chain to a trusted '
  'certificate is accepted.',
  ['inputs', 'fault_sequences', 'configurations'],
  'All journals, all sequences of storage and transmission faults and of '
  'manipulations by someone who does not hold a trusted key, all key stores '
  'and certificate chains.',
  'The tests hold about 15 hand-made broken DEPs, one manipulation each, and '
  'self-signed certificates only.',
  ['librksv/verify.py', 'librksv/verify_receipt.py', 'librksv/algorithms.py',
   'librksv/receipt.py', 'librksv/key_store.py', 'librksv/utils.py'],
  [('signature check', 'librksv/verify_receipt.py ReceiptVerifier.verify'),
   ('chaining check', 'librksv/verify.py verifyChain'),
   ('certificate chain check', 'librksv/verify.py verifyCert')],
  ['outcome of verifyDEP() and verifyParsedDEP()'])

p('C03', 'The verdict on a register history follows the RKSV rules',
  'For every history of a cash register - sales, reversals, training and zero '
  'receipts, signature device outages and recoveries, device, key and clock '
  'changes, restarts from lost memory - the journal is accepted exactly if it '
  'keeps all rules: valid start receipt, signatures, receipt chain, turnover '
  'counter, receipt IDs used once, non-decreasing times, constant register ID '
  'and kind of system, zero receipt after an outage, cluster start chaining. '
  'If it breaks a rule, the error names a rule broken by the first offending '
  'receipt, and that receipt.',
  ['histories', 'fault_sequences', 'inputs'],
  'All histories of one register or the registers of a cluster, with any '
  'sequence of device, clock, memory and operator faults.',
  'The tests sample 35 fixed receipt sequences of at most 16 receipts.',
  ['librksv/verify.py', 'librksv/verify_receipt.py', 'librksv/receipt.py',
   'librksv/algorithms.py', 'librksv/verification_state.py'],
  [('rules per receipt', 'librksv/verify.py verifyGroup'),
   ('receipt rules', 'librksv/verify_receipt.py, librksv/receipt.py')],
  ['outcome of verifyDEP()', 'resulting ClusterState'])

p('C04', 'Verification in sessions with saved state equals one verification',
  'Cutting the journals of the registers of a cluster into any number of '
  'segments and verifying them in separate program runs - each continuing from '
  'the state the previous one printed, in any interleaving of the registers '
  'that keeps each register\'s own order, with crashed runs simply repeated '
  'from the last saved state - ends with the same verdict per journal and the '
  'same saved state as verifying each journal as a whole. The saved state '
  'survives being written and read without any change in meaning.',
  ['histories', 'crash_points', 'configurations'],
  'All cut points, interleavings, crash points between and during runs, and '
  'options of the verification program.',
  'A few sample journals are split once at one fixed receipt and verified in '
  'order without any crash.',
  ['librksv/verification_state.py', 'librksv/verify.py', 'verify.py',
   'verification_state.py'],
  [('state written to and read from JSON', 'librksv/verification_state.py '
    'ClusterState.readStateFromJson, writeStateToJson'),
   ('continuing a register', 'librksv/verification_state.py '
    'ClusterState.getCashRegisterInfo, updateCashRegisterInfo')],
  ['output of verify.py state', 'ClusterState JSON'])

p('C05', 'A failed verification changes nothing and can be repeated',
  'If a verification fails - because of a rejected journal, unreadable input, '
  'an unsuitable key or a failing worker - the caller\'s verification state '
  'and key store are exactly as before. A later verification with that state, '
  'of a repaired input or after the fault is gone, gives the result it would '
  'have given without the failed attempt.',
  ['fault_sequences', 'histories', 'schedules'],
  'All sequences of failing and successful verifications on one state, with '
  'read errors, worker failures and broken journals at any point.',
  'No test verifies again after a failure.',
  ['librksv/verify.py', 'librksv/verification_state.py'],
  [('work on copies, update at the end', 'librksv/verify.py '
    'verifyParsedDEP, verifyDEP')],
  ['ClusterState and KeyStore objects after the call'])

p('C06', 'State and key store files are replaced completely or not at all',
  'Each command of the state and key store tools either has exactly its '
  'documented effect on the file, leaving all other entries as they were, or '
  'leaves the old file readable and unchanged - also when the program is '
  'killed at any point, the machine loses power, the disk is full or the disk '
  'reports errors.',
  ['crash_points', 'fault_sequences', 'histories'],
  'All sequences of commands, all crash points and disk faults between any two '
  'file operations, all orders in which unsynced data may reach the disk.',
  'The tools have no tests.',
  ['verification_state.py', 'key_store.py', 'librksv/utils.py',
   'librksv/key_store.py', 'librksv/verification_state.py'],
  [('write to a temporary file, sync and rename',
    'librksv/utils.py writeJsonFile')],
  ['contents of the file after each command or crash'])

p('C07', 'Every parser delivers exactly the receipts of the DEP',
  'Whatever the read sizes of the underlying file, pipe or socket, the chunk '
  'size, the order of elements, white space and unknown extra elements, a '
  'parser delivers all receipts of the DEP once, in order, each with the '
  'certificate and certificate chain of its group, and no chunk exceeds the '
  'requested size. All parsers agree with each other, and a parser can be used '
  'again.',
  ['inputs', 'schedules', 'configurations'],
  'All DEPs and layouts, all sequences of short reads, all chunk sizes.',
  'The tests read small regular files with the default chunk size of 100000.',
  ['librksv/depparser.py', 'librksv/utils.py'],
  [('incremental state machine', 'librksv/depparser.py IncrementalDEPParser'),
   ('second pass for certificates', 'librksv/depparser.py FileDEPParser'),
   ('dictionary parser', 'librksv/depparser.py DictDEPParser')],
  ['chunks yielded by parse()'])

p('C08', 'Damaged or unreadable input ends in a documented error',
  'If a DEP, a key store or a saved state is truncated, has damaged bytes or '
  'elements of the wrong type, is empty, or cannot be read to its end, loading '
  'it fails with an error of the documented kind; it is never silently '
  'accepted as complete, never reported by an unrelated internal error and '
  'never makes the program hang. A DEP cut off anywhere before its end is '
  'always rejected, and so is a DEP read as a stream in which an element of a '
  'group occurs twice.',
  ['fault_sequences', 'inputs'],
  'All truncation points, byte and element damage and read errors at any '
  'point, for all parsers and loaders, read in any portions.',
  'The tests hold about 25 malformed DEPs, one defect each, read as a whole.',
  ['librksv/depparser.py', 'librksv/key_store.py',
   'librksv/verification_state.py', 'librksv/receipt.py', 'librksv/utils.py'],
  [('error classes', 'librksv/depparser.py DEPParseException, '
    'librksv/key_store.py KeyStoreException, librksv/verification_state.py '
    'StateException')],
  ['exception raised'])

p('C09', 'Splitting and merging keep the journal',
  'Splitting a DEP into pieces and merging pieces in order - both with any '
  'chunk size, through files or pipes, merged into larger groups or not, and '
  'repeatedly - keeps every receipt, its position and the certificate and '
  'certificate chain it belongs to. Every piece has at most the requested '
  'number of receipts, and the journal keeps its verdict (without '
  'certificates, the format allows one group only, so only if groups are '
  'merged again). If reading or '
  'writing fails, the tool ends with an error and never with an incomplete '
  'result that it reports as success.',
  ['histories', 'fault_sequences', 'configurations'],
  'All journals, all sequences of split and merge, all chunk sizes and read '
  'patterns, write and read errors at any point.',
  'The tests compare a few fixed splits; split.py and merge.py themselves are '
  'not run.',
  ['split.py', 'merge.py', 'librksv/depexport.py', 'librksv/depparser.py'],
  [('lazy merging of groups', 'librksv/depexport.py MergingDEPStream'),
   ('streamed export', 'librksv/depexport.py JSONExporter')],
  ['files written and output printed by split.py and merge.py'])

p('C10', 'Conversion and extraction tools keep every receipt and certificate',
  'Converting a DEP whose IDs contain no CSV separators to CSV and back keeps '
  'every receipt in order, bit for bit; '
  'the receipt converter turns every line into the requested form of the same '
  'receipt, in order; certificate extraction writes every certificate of the '
  'DEP under its serial. This holds for any portions in which input arrives, '
  'and when input or output fails midway the tool ends with an error instead '
  'of reporting a partial result as complete.',
  ['inputs', 'fault_sequences', 'configurations'],
  'All journals, chunk sizes, read patterns, and read and write errors at any '
  'point.',
  'The tools have no tests.',
  ['convert.py', 'cert_extract.py', 'receipt.py', 'librksv/depexport.py',
   'librksv/receipt.py'],
  [('CSV export and import', 'librksv/depexport.py CSVExporter, '
    'librksv/receipt.py Receipt.fromCSV')],
  ['output of convert.py, receipt.py, cert_extract.py'])

p('C11', 'A register with a failing signing service keeps a valid journal',
  'However the signing service fails - refused or broken connections, '
  'timeouts, server errors, unusable answers - and recovers, a cash register '
  'using it either creates a receipt or stays exactly as it was, so that the '
  'attempt can be repeated. The receipts it created always form a journal '
  'with gapless chain and correct turnover counter that the verifier accepts '
  'as long as the register issues a zero receipt after each outage. While the '
  'service cannot be reached or answers with an error status, every attempt '
  'creates a receipt, marked as unsigned.',
  ['fault_sequences', 'histories'],
  'All sequences of receipts and network or device faults, including faults '
  'in every single request.',
  'The tests use local signature devices that never fail by themselves; the '
  'remote service has no test.',
  ['librksv/cashreg.py', 'librksv/sigsys.py', 'librksv/receipt.py',
   'librksv/algorithms.py'],
  [('fallback to the broken-device signature', 'librksv/sigsys.py '
    'SignatureSystemATrustMobile.sign'),
   ('state changed after signing', 'librksv/cashreg.py CashRegister.receipt')],
  ['receipts returned by CashRegister.receipt()', 'attributes of the register'])

p('C12', 'A receipt from a URL or list is reported valid only if it is',
  'A receipt fetched by its URL is reported as verified only if the answer is '
  'exactly the receipt the URL\'s hash stands for and its signature is valid, '
  'whatever the network and the server deliver: other, stale, altered or '
  'partial answers, errors, or none. The receipt server answers each hash with '
  'exactly the receipt it was loaded with, and nothing for unknown hashes. The '
  'receipt checking tool counts and names exactly the receipts that fail.',
  ['fault_sequences', 'inputs', 'histories'],
  'All lists of receipts in all input forms and all sequences of network and '
  'server faults.',
  'URL receipts, the server and the tool have no tests.',
  ['librksv/url_receipt_helpers.py', 'receipt_host.py', 'verify_receipt.py',
   'librksv/verify_receipt.py', 'librksv/receipt.py'],
  [('URL hash check', 'librksv/verify_receipt.py verifyURLHash'),
   ('receipt server', 'receipt_host.py get_url_hash')],
  ['output of verify_receipt.py', 'answers of receipt_host.py'])

p('C13', 'The GUI shows a journal as valid only if it is',
  'In the graphical tool a journal or receipt is shown as valid only after a '
  'complete successful verification of exactly that journal or receipt with '
  'the key and key store it was started with, whatever the order of user '
  'actions, aborts, and background results. A verification that ends always '
  'leaves the display usable: either valid, or an error shown and the journal '
  'ready to be verified again. Journals, receipts and key stores are displayed '
  'as they are, and a file that cannot be read shows an error and changes '
  'nothing else.',
  ['schedules', 'histories'],
  'All interleavings of user actions with background tasks and their '
  'callbacks.',
  'The graphical tool has no tests.',
  ['rktool.py', 'librksv/verify.py'],
  [('background tasks and callbacks', 'rktool.py VerifyDEPWidget')],
  ['widget texts and error popups'])

p('C14', 'A lost state can be rebuilt from the journal',
  'A verification state rebuilt from a journal without verifying it - from all '
  'receipts so far, in any portions - equals the state a complete verification '
  'of the same receipts produces, apart from the record of used receipt IDs. '
  'A state created from an arbitrary genuine receipt or start receipt accepts '
  'the rest of the journal from that receipt on, and after it equals the state '
  'of a full verification in every respect that matters for continuing.',
  ['histories', 'crash_points', 'configurations'],
  'All journals, all points at which the state is lost, all portions in which '
  'it is rebuilt, including outages and reversals around these points.',
  'The tests never rebuild a state.',
  ['librksv/verification_state.py', 'verification_state.py'],
  [('rebuilding', 'librksv/verification_state.py '
    'CashRegisterState.updateFromDEPGroup, ClusterState.fromArbitraryReceipt')],
  ['state JSON', 'outcome of the following verification'])

p('C15', 'Concurrent users of the library in one process do not interfere',
  'Threads of one process that verify journals and receipts, parse, export and '
  'run cash registers at the same time, each on its own data but sharing key '
  'stores and verifiers, get exactly the results they would get alone, under '
  'every interleaving.',
  ['schedules', 'inputs'],
  'All interleavings of library calls of up to four threads at the granularity '
  'of single source lines.',
  'The tests use the library from one thread.',
  ['librksv/verify.py', 'librksv/verify_receipt.py', 'librksv/receipt.py',
   'librksv/depparser.py', 'librksv/depexport.py', 'librksv/cashreg.py',
   'librksv/key_store.py', 'librksv/algorithms.py', 'librksv/utils.py'],
  [('no shared mutable state', 'librksv/')],
  ['results of all calls'])

p('C16', 'No receipt ID is accepted twice in a cluster',
  'Over all registers of a cluster, all verification sessions, chunks and '
  'workers, a receipt ID that was already used is always rejected and an '
  'unused one never is; the saved state holds exactly the IDs of the accepted '
  'receipts. With the space-saving record of IDs, a receipt is accepted '
  'exactly if its ID comes after all earlier ones in natural order.',
  ['histories', 'schedules', 'configurations'],
  'All distributions of IDs, including repeated ones, over receipts, chunks, '
  'workers, sessions and registers; both kinds of record.',
  'The tests repeat one ID within one small journal.',
  ['librksv/verification_state.py', 'librksv/verify.py'],
  [('record of used IDs', 'librksv/verification_state.py '
    'UsedReceiptIdsUnique, UsedReceiptIdsSortedNatural')],
  ['outcome of verifyDEP() and verifyParsedDEP()', 'state JSON'])

p('C17', 'Verdicts do not depend on when or where verification happens',
  'The same journal, state and key store give the same verdict and state at '
  'any time, in any time zone and with any system clock, including clocks that '
  'jump or run backwards during the verification, certificates that are '
  'expired or not yet valid by that clock, and any hash seed or random source.',
  ['configurations', 'fault_sequences'],
  'All clock values, jumps, time zones and random values during a '
  'verification.',
  'The tests run at one time in one zone.',
  ['librksv/verify.py', 'librksv/utils.py', 'librksv/receipt.py',
   'librksv/verification_state.py'],
  [('no use of the clock', 'librksv/verify.py')],
  ['outcome and state'])

p('C18', 'Receipt formats convert without loss',
  'A receipt read from any of its forms (JWS, QR code, OCR code, CSV) and '
  'written in any other keeps all its fields and its signature.',
  ['inputs'], 'All receipts.',
  'The tests convert a few samples.',
  ['librksv/receipt.py'],
  [('conversion', 'librksv/receipt.py Receipt')])

p('C19', 'Certificate serials map to the right key',
  'A certificate serial in a receipt, in decimal or hexadecimal notation and '
  'with or without sign, selects exactly the keys stored under that number.',
  ['inputs'], 'All serials.', 'The tests hold four serials.',
  ['librksv/key_store.py'],
  [('conversion', 'librksv/key_store.py strSerialToKeyIds')])

p('C20', 'Turnover counters decrypt to what was encrypted',
  'Decrypting an encrypted turnover counter with the same key yields the '
  'counter for every counter and every size from 5 to 16 bytes.',
  ['inputs'], 'All counters and sizes.', 'The tests use three sizes.',
  ['librksv/algorithms.py'],
  [('encryption', 'librksv/algorithms.py')])

p('C21', 'Generated test and demonstration journals are as specified',
  'For every legal history written as a test specification (devices that fail '
  'and recover, trainings, reversals, several DEPs, continued and cluster '
  'registers, groups, certificate chains, counter sizes), open or closed, '
  'run_test.py writes the specified DEP files and a key container: every '
  'receipt in order with the specified ID, date, amounts, kind, device, '
  'serial, counter and chain, each DEP with the specified groups, chains and '
  'remarks (previous DEP, continued DEP, total), and verification of the DEPs '
  'with that container succeeds, or fails for the reason the specification '
  'asks for (broken chain, colliding serial, missing root). demo.py prints as '
  'many receipts as asked for, correctly chained, summed up and signed '
  '(or marked as unsigned while the service fails), and valid if the clock did '
  'not go back and no signature failed. This holds for all random numbers, '
  'keys, clocks and zones; a run that is killed or meets disk, output or '
  'network errors never reports success with incomplete output and works when '
  'it is repeated.',
  ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
  'All specifications and random sources; every operation of the programs as '
  'crash or fault point.',
  'The tests use fixed specifications with one chance source and no faults, '
  'and never start the programs.',
  ['run_test.py', 'librksv/run_test.py', 'demo.py', 'librksv/cashreg.py',
   'librksv/sigsys.py', 'librksv/depexport.py', 'librksv/utils.py'],
  [('journal from a specification', 'librksv/run_test.py runTest'),
   ('demonstration register', 'demo.py receiptGen')],
  ['files in the output directory', 'standard output', 'exit status'])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
