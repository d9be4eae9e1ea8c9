#!/usr/bin/env python3
"""The one source of properties.jsonl and MANIFEST.json (run after editing).

P(id, title, statement, over, quantifier, why, files, mechanisms, note)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
TX, SH = 'riemann/tx/tx.py', 'riemann/tx/shared.py'
SP, OV, SA = ('riemann/tx/sprout.py', 'riemann/tx/overwinter.py',
              'riemann/tx/sapling.py')
ZS, DC, TB = ('riemann/tx/zcash_shared.py', 'riemann/tx/decred.py',
              'riemann/tx/tx_builder.py')
AD, B58, B32, CA = ('riemann/encoding/addresses.py',
                    'riemann/encoding/base58.py',
                    'riemann/encoding/bech32.py',
                    'riemann/encoding/cashaddr.py')
SER, OPC = 'riemann/script/serialization.py', 'riemann/script/opcodes.py'
NET, NETI, STD = ('riemann/networks/networks.py',
                  'riemann/networks/__init__.py',
                  'riemann/networks/standard.py')
UT, BL, SI, RI = ('riemann/utils.py', 'riemann/blake256.py',
                  'riemann/simple.py', 'riemann/__init__.py')


def P(id, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, title
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files, 'mechanism': [
            {'name': n, 'where': w} for n, w in mech]}, note=note))


P('C01', 'Bitcoin-family transactions survive the wire in both directions',
  'On every Bitcoin-like network, a transaction built from legal parts '
  'serializes to exactly the consensus wire format, and parsing those bytes '
  '(as bytes or hex, with or without trailing data) gives back a transaction '
  'with the same fields and the same bytes. The same holds for each part on '
  'its own: outpoint, input, output, witness item and witness.',
  ['inputs', 'configurations'],
  'all numbers of inputs/outputs/witness items, all field values, script '
  'lengths and signature script shapes, every Bitcoin-like network',
  'The tests parse a few captured transactions; the field combinations, '
  'count-prefix widths and offsets that multiply across inputs, outputs and '
  'witnesses are never crossed.',
  [TX, SH, SER], [('Tx/TxIn/TxOut/Outpoint/InputWitness', TX),
                  ('VarInt, ByteData', SH)],
  'Every transaction within the deviation bound and small products is built, '
  'serialized, compared with an independent serializer and parsed back.')

P('C02', 'Zcash transactions survive the wire in both directions',
  'On every Zcash-like network, a Sprout, Overwinter or Sapling transaction '
  'built from legal parts serializes to exactly the consensus wire format, '
  'and parsing those bytes gives back the same fields and bytes, wherever '
  'joinsplits, shielded spends and shielded outputs are present or absent. '
  'The same holds for joinsplits, proofs, shielded spends and shielded '
  'outputs on their own.',
  ['inputs', 'configurations'],
  'all counts of transparent and shielded parts, all field values, all three '
  'formats on their networks',
  'The tests round-trip a handful of main-net transactions per format; the '
  'presence/absence combinations and field offsets are not crossed.',
  [SP, OV, SA, ZS], [('SproutTx', SP), ('OverwinterTx', OV),
                     ('SaplingTx, shielded parts', SA),
                     ('Sprout/Sapling joinsplit parsing', ZS)],
  'Same technique as C01, with an independent transcription of the three '
  'Zcash formats.')

P('C03', 'Truncated or malformed transaction bytes are never accepted',
  'Bytes that are not the encoding of a transaction — cut short anywhere, '
  'with a count or length that claims more or less than is there, a wrong '
  'magic number, version group or flag, or a count not in shortest form — '
  'are refused with an error, never silently read as a different '
  'transaction. If parsing succeeds, serializing the result reproduces '
  'exactly the bytes that were consumed.',
  ['inputs', 'fault_sequences'],
  'every truncation point and every structural byte corruption of every '
  'transaction shape, every format',
  'The tests try two or three malformed inputs; silent misreads need a '
  'specific byte at a specific offset.',
  [TX, SH, SP, OV, SA, ZS, DC],
  [('from_bytes parsers', TX), ('VarInt.from_bytes', SH),
   ('zcash parsers', ZS)],
  'All truncations and all single structural byte changes of a family of '
  'transactions are parsed and compared with an independent strict parser.')

P('C04', 'Variable-length integers are the canonical CompactSize code',
  'Every number from 0 to 2^64-1 encodes to its unique shortest CompactSize '
  'form and decodes back to itself, consuming exactly its own bytes; a '
  'requested wider form uses the matching prefix. Negative or oversized '
  'numbers and truncated or non-shortest encodings are refused.',
  ['inputs'], 'all numbers (boundaries and all small values), all byte '
  'strings of small length, all truncations and trailing data',
  'Tests sample a few numbers and check a few prefixes.',
  [SH], [('VarInt', SH)],
  'All one- and three-byte encodings exhaustively, five- and nine-byte ones '
  'on boundary sets; compared with an independent codec.')

P('C05', 'A transaction id commits to exactly the right bytes',
  'The transaction id is the double SHA-256 of the serialization without '
  'witnesses and the witness id that of the full serialization, each shown '
  'in both byte orders; legacy transactions have no witness id. Changing '
  'any non-witness byte changes the id, changing only witnesses changes only '
  'the witness id.',
  ['inputs', 'configurations'],
  'all transactions of all formats, and every single-field change of them',
  'Tests compare ids of a few captured transactions; they cannot show that '
  'every field is covered and no witness byte is.',
  [TX, DC, SP, OV, SA], [('tx_id computation in constructors', TX),
                         ('zcash tx_id', SA)],
  'Ids compared with independent hashing of the reference serialization; '
  'every leaf field flipped in turn.')

P('C06', 'Legacy signature hashes match the original Bitcoin algorithm',
  'For an unflagged transaction, the hash to sign for an input with ALL or '
  'SINGLE, each with or without ANYONECANPAY, equals the original Bitcoin '
  'signature hash of that transaction, input and script. It does not depend '
  'on signatures already present.',
  ['inputs', 'configurations'],
  'all transaction shapes, input indexes, scripts, hash types',
  'Tests check a few vectors with one or two inputs; SINGLE and '
  'ANYONECANPAY index handling needs every (inputs, outputs, index) triple.',
  [TX], [('sighash_all/sighash_single/_adjusted_script_sigs', TX)],
  'Product of shapes x index x type, plus k-deviations; compared with an '
  'independent implementation.')

P('C07', 'Segwit and fork-replay signature hashes are the BIP143 digests',
  'For a segwit-flagged transaction the hash to sign equals the BIP143 '
  'digest of transaction, input, script and spent value, for ALL and SINGLE '
  'with or without ANYONECANPAY. On networks with replay protection the '
  'network\'s fork id enters the digest for flagged and unflagged '
  'transactions alike, and on networks without it never does. A spent '
  'value that is not 8 bytes is refused.',
  ['inputs', 'configurations'],
  'all transaction shapes, indexes, scripts, values, hash types, networks',
  'Tests replay the BIP143 examples and one fork vector.',
  [TX, NET], [('segwit_sighash', TX), ('forkid networks', NET)],
  'As C06 on every Bitcoin-like network, with fork ids from an independent '
  'table.')

P('C08', 'Zcash signature hashes match the Sprout, ZIP143 and ZIP243 rules',
  'For Sprout, Overwinter and Sapling transactions, the hash to sign for a '
  'transparent input or for the shielded part equals the one defined by the '
  'original algorithm with joinsplits, by ZIP143 and by ZIP243, for each '
  'hash type with or without ANYONECANPAY. A spent value that is not 8 '
  'bytes is refused.',
  ['inputs', 'configurations'],
  'all shapes of transparent and shielded parts, indexes, hash types, '
  'scripts, values',
  'Tests replay a few published vectors; which hash is zeroed under which '
  'hash type is a product of conditions.',
  [SP, OV, SA], [('sighash and hash_* helpers', OV), ('sighash', SA),
                 ('sighash_all/single', SP)],
  'Products and k-deviations compared with an independent transcription.')

P('C09', 'Decred transactions, ids and signature hashes follow Decred rules',
  'A Decred transaction serializes as prefix plus witness exactly as Decred '
  'defines, its ids and signature hashes are the BLAKE-256 ones for ALL and '
  'SINGLE with or without ANYONECANPAY, and transactions outside Decred\'s '
  'limits are refused.',
  ['inputs', 'configurations'],
  'all shapes, tree and version values, indexes, hash types',
  'Tests use one captured transaction.',
  [DC, BL], [('DecredTx', DC), ('blake256', BL)],
  'Products and k-deviations compared with an independent implementation '
  'including an independent BLAKE-256.')

P('C10', 'Script text and script bytes translate both ways without loss',
  'On every network, script text made of that network\'s opcode names and '
  'hex pushes encodes to the expected bytes, with the shortest push opcode, '
  'and decoding script bytes gives text that encodes back to them when '
  'their pushes are minimal. Malformed or truncated scripts and unknown '
  'opcodes are refused, never shortened or skipped.',
  ['inputs', 'configurations'],
  'all opcode sequences, push lengths, truncations, networks',
  'Tests use a few scripts; each opcode byte and push boundary on each '
  'network has its own table entry or branch.',
  [SER, OPC], [('serialize/deserialize', SER), ('opcode tables', OPC),
               ('Decred opcodes', NET)],
  'All opcodes on all networks, all short byte strings, all push lengths, '
  'against an independent coder.')

P('C11', 'Addresses and output scripts correspond one to one per network',
  'On every network, each standard output script (key hash, script hash, '
  'and their witness forms where the network has them) becomes the address '
  'with that network\'s prefix and encoding, and that address leads back to '
  'the same script and hash. Scripts that are not exactly one of those forms '
  'are refused, and addresses made from keys or scripts commit to their '
  'hash.',
  ['inputs', 'configurations'],
  'all hashes, all address kinds and spellings, all networks, all '
  'near-miss scripts',
  'Tests use a few addresses on a few networks; each network has its own '
  'prefixes and encoders.',
  [AD, NET, B58, B32, CA], [('to_output_script/from_output_script', AD),
                            ('parse/parse_hash/make_*_address', AD)],
  'All 72 networks x kinds x hash patterns against an independent address '
  'coder and network table.')

P('C12', 'A mistyped address never decodes to a script',
  'If an address is altered by any single-character substitution, deletion, '
  'insertion, swap, case change, truncation or extension, reading it is '
  'refused unless the altered text is itself a valid address by the '
  'published encoding rules. No payment script or hash is ever produced from '
  'text whose checksum or structure is wrong.',
  ['inputs', 'fault_sequences'],
  'all single and double character edits of addresses of every kind on '
  'every network',
  'Tests try a few bad strings; a dropped checksum check on one path shows '
  'only for particular edits.',
  [AD, B58, B32, CA], [('checksum verification', B58),
                       ('bech32 verify/convertbits', B32),
                       ('cashaddr decode', CA)],
  'All single edits (and pairs) evaluated against an independent decoder.')

P('C13', 'An address of another network is not accepted',
  'Reading an address on the selected network succeeds only if that network '
  'uses exactly that encoding, prefix, version and length; the script '
  'produced is then of the kind that prefix denotes. Networks without segwit '
  'never produce or accept witness addresses and scripts.',
  ['configurations', 'inputs'],
  'all ordered pairs of networks, all address kinds, all one-byte prefixes, '
  'witness versions and lengths',
  'Tests stay on a handful of networks; 72 x 72 pairs and prefix tables are '
  'not crossed.',
  [AD, NET], [('prefix comparison per network', AD), ('tables', NET)],
  'All pairs of networks against an independent decoder parameterised with '
  'the independent network table.')

P('C14', 'Base58, bech32 and cashaddr codecs are exact inverses',
  'Every payload encodes to its published text form and decodes back '
  'unchanged, including leading zeros and every payload length the encoding '
  'allows. Text with characters outside the alphabet, mixed case, wrong '
  'padding, wrong length or wrong checksum is refused.',
  ['inputs'], 'all payload lengths and leading-zero counts, all short texts, '
  'all single-bit changes', 'Tests use published vectors only.',
  [B58, B32, CA], [('b58/b58check', B58), ('segwit bech32', B32),
                   ('cashaddr', CA)],
  'Exhaustive small domains plus all lengths with boundary patterns, '
  'against independent codecs.')

P('C15', 'Transaction parts never change; copies differ only as asked',
  'Once built, a transaction or any of its parts never changes: assigning or '
  'deleting attributes, appending, and mutating the arguments it was built '
  'from or the collections it exposes leave its bytes and fields as they '
  'were. A copy with some fields replaced equals an object freshly built '
  'with those fields — also when the replacement is zero or empty — and '
  'leaves the original alone.',
  ['histories', 'inputs'],
  'all sequences of mutation attempts on all classes, all subsets of copy '
  'overrides',
  'Tests try one assignment and one copy per class.',
  [SH, TX, DC, SP, OV, SA], [('ByteData immutability', SH), ('copy', TX)],
  'All operation sequences up to the depth bound on every class, state '
  'compared after every step; all subsets of overrides.')

P('C16', 'Results depend only on the selected network, not on history',
  'After any sequence of operations and network selections, every result is '
  'the same as in a fresh process that selected that network; selecting an '
  'unknown network fails and leaves the current one in force.',
  ['histories', 'configurations'],
  'all sequences of network selections and operations up to a depth',
  'Tests reset the network in setUp and never interleave operations across '
  'networks.',
  [NETI, NET, RI, SH, AD], [('select_network/get_current_network', NETI),
                            ('module-level network object', RI)],
  'All operation sequences up to the bound over an alphabet covering every '
  'module, each result compared with that of a fresh interpreter state.')

P('C17', 'Concurrent use from several threads gives sequential results',
  'With the network fixed, operations running in several threads — '
  'building, parsing, hashing, encoding, signing digests — each return '
  'exactly what they return when run alone, whatever the interleaving.',
  ['schedules'],
  'all interleavings of pairs of operations up to a preemption bound',
  'The test suite is single threaded.',
  [SH, TX, SER, AD, BL, UT], [('absence of shared mutable state', SH),
                              ('per-object hash state', BL)],
  'Real threads of the implementation are run under a controlled '
  'line-granular scheduler; all schedules with at most the bound of '
  'preemptions are executed.')

P('C18', 'Hash functions give the standard digest for every input',
  'SHA-256, double SHA-256, RIPEMD-based and BLAKE-based hashes give the '
  'published function\'s digest for every message length and salt, and '
  'hashing in pieces gives the same digest as hashing at once. The address '
  'and transaction hash helpers pick the function the selected network uses.',
  ['inputs', 'histories', 'configurations'],
  'all message lengths over several blocks, all two- and three-way splits, '
  'all four BLAKE variants, salts, all networks',
  'Tests use a few vectors; padding boundaries and split points are special '
  'cases.',
  [BL, UT], [('BLAKE', BL), ('hash160/hash256/sha256/...', UT)],
  'All lengths, splits and operation sequences against independent '
  'implementations.')

P('C19', 'Fees are inputs minus outputs in every format',
  'The fee computed for a transaction is the total of the given input values '
  'minus the total of its outputs; for Zcash, value moved into and out of '
  'the shielded pools counts with the right sign, and for Decred the values '
  'recorded in the witnesses are used.',
  ['inputs', 'configurations'],
  'all numbers of inputs/outputs/joinsplits, extreme values, signed shielded '
  'balance', 'Tests check one or two fees.',
  [TX, ZS, SP, SA, DC], [('calculate_fee', TX), ('calculate_fee', SA)],
  'Products of shapes and boundary values against plain integer arithmetic.')

P('C20', 'Builders produce what explicit assembly produces',
  'On every network, the convenience builders and the simple interface give '
  'byte for byte the objects obtained by assembling the documented parts '
  'explicitly, with documented defaults, and outputs built from an address '
  'pay exactly that address. Witness outputs are refused on networks '
  'without segwit, and numbers that do not fit their field are refused.',
  ['inputs', 'configurations'],
  'all networks, all builder functions, values and counts',
  'Tests call each builder about once on one network.',
  [TB, SI], [('make_* builders', TB), ('simple.*', SI)],
  'Every builder on every network with boundary arguments, compared with '
  'the reference serialization.')

P('C21', 'Standardness and finality verdicts follow the relay rules',
  'A transaction is judged standard exactly when version, weight, size, '
  'signature scripts and every output meet the relay rules, and final '
  'exactly when its lock time and sequences say so. No legal transaction '
  'makes the judgement fail.',
  ['inputs'], 'all script templates and near misses, sizes at the limits, '
  'lock times and sequences', 'Tests check a few transactions per rule.',
  [STD], [('check_is_standard/check_final/...', STD)],
  'Templates x near misses x limits against an independent statement of the '
  'rules.')

P('C22', 'Every supported network has its own correct parameters',
  'Selecting a network by name puts exactly that network\'s address prefixes, '
  'encodings, segwit support and fork id in force, and no others.',
  ['configurations'], 'all 72 networks and all names outside the list',
  'Tests select a few networks.',
  [NET, NETI, RI], [('network classes', NET), ('SUPPORTED table', NETI)],
  'All networks x parameters against an independent table.')

P('C23', 'Number and byte-order helpers are exact and never wrap',
  'Conversions between integers, little- and big-endian bytes and script '
  'numbers give exactly the standard encoding and invert each other for '
  'every value; out-of-range values are refused, never wrapped or truncated.',
  ['inputs'], 'all values to 2^16 and every boundary, all padded widths',
  'Tests use a few numbers.',
  [UT], [('i2le/i2le_padded/le2i/be2i/i2be/change_endianness', UT)],
  'Exhaustive over small values and boundaries against integer arithmetic.')

P('C24', 'Zcash joinsplit proof inputs are bound to their transaction',
  'For every Zcash transaction with joinsplits, each joinsplit\'s binding '
  'hash and primary input are those of the Zcash protocol, computed from '
  'that joinsplit and the transaction\'s own joinsplit key.',
  ['inputs'], 'all formats, numbers of joinsplits, field values',
  'Tests look at one captured value.',
  [SP, OV, SA, ZS], [('hsigs/primary_inputs', OV)],
  'Products and leaf flips against an independent implementation.')

P('C25', 'A signature script splits into stack and redeem script losslessly',
  'Splitting a signature script into stack script and redeem script never '
  'loses, adds or moves a byte: the parts re-assemble to the original '
  'script, and a redeem script is only reported where the final push is one.',
  ['inputs'], 'all signature scripts over an alphabet of pushes and '
  'opcodes', 'Tests parse one P2SH input.',
  [TX], [('TxIn script_sig parsing', TX)],
  'All token sequences to a bound, against an independent splitter.')

P('C26', 'Ill-formed parts are refused when built, never truncated',
  'Building a transaction or any part of it from a field of the wrong width, '
  'type, range or number is refused with an error. Whatever is '
  'built, within the documented size limits, serializes and parses back.',
  ['inputs'], 'every field of every class x every wrong width and type',
  'Tests cover the error branches they know of, one value each.',
  [SH, TX, DC, SP, OV, SA, ZS], [('validate_bytes', SH),
                                 ('constructors', TX)],
  'Every field x every width 0..n and wrong type; pairs of faults.')

P('C27', 'Transaction formats are only usable on their own networks',
  'A Decred, Sprout, Overwinter or Sapling transaction or part can be built '
  'or parsed only while a network of that kind is selected, and asking the '
  'generic entry points for a transaction yields the selected network\'s '
  'format.',
  ['configurations'], 'all classes x all 72 networks',
  'Tests select one wrong network per class.',
  [DC, SP, OV, SA, ZS, TB], [('network checks in constructors', SA),
                             ('make_tx dispatch', TB)],
  'Full product of classes, entry points and networks.')

P('C28', 'Each signature hash type commits to exactly what it should',
  'For every format, changing a field that a hash type covers changes the '
  'hash to sign, and changing a field it leaves open does not: ALL covers '
  'everything unsigned, SINGLE only the matching output, ANYONECANPAY only '
  'the signed input.',
  ['inputs', 'configurations'],
  'every leaf field x every hash type x every input x every format',
  'Tests compare whole digests of a few transactions.',
  [TX, SP, OV, SA, DC], [('sighash functions', TX)],
  'Every leaf of a family of transactions is changed in turn and the digest '
  'compared with the commitment table.')

P('C29', 'Every object behaves exactly like the bytes it serializes to',
  'Wherever a transaction, one of its parts or a byte accumulator is used as '
  'bytes - compared, measured, indexed, sliced, iterated, searched, shown as '
  'hex, appended to - it behaves exactly like its own serialization; '
  'appending or validating anything that is not bytes-like, or of another '
  'length than required, is refused and changes nothing.',
  ['inputs', 'histories'],
  'all append histories, all pairs of short strings and representations, '
  'all slices and searches, every part class with every field changed',
  'Tests call each operator once.',
  [SH, TX, DC, SP, OV, SA], [('ByteData operators, VarInt', SH)],
  'Histories, pairs, slices and searches against Python bytes.')

P('C30', 'Inputs can be signed one at a time, in any order',
  'Between drafting a transaction and completing it, placing a signature, '
  'copying, and serializing and parsing again change nothing but what was '
  'asked and no hash to sign. A signature stays valid exactly as long as '
  'what its hash type covers is unchanged: appended inputs only invalidate '
  'those without ANYONECANPAY, appended outputs only those under ALL. The '
  'order of signing does not matter.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of signing, copying, parsing and appending to a depth; all '
  'orders and hash types',
  'Tests sign at most one input and never continue.',
  [TX, SP, OV, SA, DC], [('copy, sighash_all, sighash_single, from_bytes',
                          TX)],
  'Operation sequences on the real objects, every state compared with a '
  'model and an independent signature-hash implementation.')


P('C31', 'A spend built with the library passes exactly when it should',
  'For coins locked to a key, to two of two keys or by a hashed time-lock '
  'with the script templates and builders, bare, under a script hash and '
  'under a witness program, on every kind of network: a transaction '
  'assembled with the builders and signed over the hash the library reports '
  'is accepted by the network\'s script rules exactly when the keys, secret '
  'and lock time the lock asks for are there, and no other stack is '
  'accepted. Changing it after signing makes it fail exactly when the hash '
  'type covers what was changed.',
  ['inputs', 'configurations', 'histories'],
  'all stacks of items to a depth; all transaction shapes, indexes, hash '
  'types, time combinations and later changes',
  'The tests compare fragments with captured bytes; no test evaluates the '
  'scripts, so a lock nobody can open, or anybody can, would pass them.',
  ['riemann/script/examples.py', SER, OPC, TB, SI, AD, TX, SP, OV, SA, DC],
  [('script templates', 'riemann/script/examples.py'),
   ('make_*_output, make_*_input, make_script_sig', TB)],
  'The built bytes go through an independent parser and script interpreter; '
  'the verdict is compared with the meaning of the lock.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            if not has(p):
                continue
            q = {k: v for k, v in p.items() if k != 'note'}
            f.write(json.dumps(q) + '\n')
    checks = []
    for p in PROPS:
        if not has(p):
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': './check {} quick'.format(p['id']),
            'thorough_cmd': './check {} thorough'.format(p['id']),
            'evidence_file': 'evidence/{}.json'.format(p['id']),
            'technique': TECH.get(p['id'], TECH['default']),
            'level': 'model_checking',
            'level_note': p['note'] + ' ' + NOTE.get(p['id'],
                                                     NOTE['default'])})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q mc >/dev/null '
         '2>&1; ./check C23 quick', 'checks': checks, 'not_applicable': [],
         'notes': 'Explicit-state bounded exhaustive exploration of the real '
         'code against independent reference models (mc/ref); C17 explores '
         'thread schedules. No hooks in /repo. known_findings.txt lists the '
         'defects repaired by fix: commits.'}
    m['setup_cmd'] = 'python3 -c "import mc.core, mc.ref.tx"'
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


def has(p):
    return os.path.exists(os.path.join(
        HERE, 'mc', 'checks', p['id'].lower() + '.py'))


TECH = {
    'default': 'bounded exhaustive enumeration of executions of the real '
               'code, each step compared with an independent reference model',
    'C15': 'exhaustive exploration of mutation/copy operation sequences on '
           'the real objects against a model of their state',
    'C30': 'exhaustive exploration of signing histories of the real objects, '
           'every state compared with a model',
    'C31': 'explicit-state exploration of all stacks and spends of the real '
           'builders, decided by an independent script interpreter',
    'C16': 'exhaustive exploration of operation histories of the real code '
           '(state = selected network) against fresh-state results',
    'C17': 'stateless model checking: all thread interleavings of the real '
           'code up to a preemption bound under a controlled scheduler',
}
NOTE = {
    'default': 'Complete within the stated bounds; trusts the reference '
               'model, which shares no code with riemann.',
    'C17': 'Complete up to the preemption bound: quick is one preemption at '
           'every distinct source line and call depth; thorough adds bytecode '
           'granularity, two preemptions and three threads.',
}

if __name__ == '__main__':
    main()
