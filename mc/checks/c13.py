from riemann.tx import tx_builder as tb

from mc import lib
from mc.checks.c12 import judge
from mc.ref import addr as ra, hashes, text
from mc.ref.codec import Bad

ID = 'C13'
RULE = (
    'All 72 x 72 ordered pairs of networks, every address kind and spelling '
    'of the first read on the second; and on every network: base58check '
    'payloads with every one-byte prefix and with every prefix any network '
    'uses, at every payload length 0..40, bech32 texts of every witness '
    'version 0..16 and several program lengths under its own and every '
    'other human readable part, cashaddr texts of every version byte and '
    'several lengths, and every kind of address under one or two prefixes. '
    'The text means the same script and hash as in an independent decoder '
    'parameterised with that network alone, or is refused. Witness scripts are refused on networks without them.')
ASSUMPTIONS = ['prefix tables as in mc/ref/networks.json']
ALL = list(lib.NETWORKS)


def tasks(tier):
    return [('pairs', n) for n in ALL] + [('own', n) for n in ALL] + [
        ('gate', n) for n in ALL]


def texts(name, count=1):
    net = lib.NETWORKS[name]
    for kind in ra.KINDS:
        for cash in (True, False):
            for k in range(count):
                try:
                    yield kind, ra.address(net, kind, lib.pat(
                        'c13/%d' % k, ra.SIZE[kind]), cash)
                except Bad:
                    pass


def run(task, tier, rec):
    what, name = task
    net = lib.NETWORKS[name]
    lib.sel(name)
    count = 1 if tier == 'quick' else 6
    if what == 'pairs':
        for other in ALL:
            for kind, s in sorted(set(texts(other, count))):
                rec.case('{} read on {}: {} {}'.format(other, name, kind, s),
                         judge, net, s, other == name)
    elif what == 'own':
        own(rec, name, net, tier)
    else:
        rec.case(name + ' gate', gate, net)


PREFIXES = sorted({bytes.fromhex(n[k]) for n in lib.NETWORKS.values()
                   for k in ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh')})


def own(rec, name, net, tier):
    check = ra.checksum(net)
    if net['decred'] and tier == 'quick':
        lengths = (20, 32)
    else:
        lengths = (20, 32, 0, 1, 19, 21)
    for v in range(256):
        for n in lengths if tier == 'thorough' else (20, 32):
            s = text.b58check(bytes([v]) + lib.pat('v', n), check)
            rec.case('{} version {:02x} length {}'.format(name, v, n), judge,
                     net, s)
    for p in PREFIXES:
        for n in lengths:
            s = text.b58check(p + lib.pat('v', n), check)
            rec.case('{} prefix {} length {}'.format(name, p.hex(), n),
                     judge, net, s)
    for key in ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh'):
        p = bytes.fromhex(net[key])
        for n in range(41):
            s = text.b58check(p + lib.pat('v', n), check)
            rec.case('{} {} length {}'.format(name, key, n), judge, net, s)
        # the other chain's checksum function
        other = ra.checksum({'decred': not net['decred']})
        for n in (20, 32):
            s = text.b58check(p + lib.pat('v', n), other)
            rec.case('{} {} other checksum {}'.format(name, key, n), judge,
                     net, s)
    hrps = sorted({n['hrp'] for n in lib.NETWORKS.values() if n['hrp']})
    for hrp in hrps + ['x', 'bcc', 'b', 'BC'.lower() + '1']:
        mine = hrp == net['hrp']
        for v in range(18) if mine else (0, 1):
            for n in (20, 32, 2, 40, 1, 41, 19, 21, 31, 33) if mine \
                    else (20, 32):
                s = text.segwit(hrp, v, lib.pat('w', n))
                rec.case('{} hrp {} v{} length {}'.format(name, hrp, v, n),
                         judge, net, s)
                rec.case('{} hrp {} v{} length {} capitals'.format(
                    name, hrp, v, n), judge, net, s.upper())
        # bad padding bits under a good checksum
        for n in (20, 32):
            data = text.bits(lib.pat('w', n), 8, 5, True)
            for extra in range(1, 32):
                bad = list(data)
                bad[-1] ^= extra
                rec.case('{} hrp {} padding {} {}'.format(
                    name, hrp, n, extra), judge, net,
                    text.bech32(hrp, [0] + bad))
            for extra in (0, 1):
                rec.case('{} hrp {} longer {} {}'.format(
                    name, hrp, n, extra), judge, net,
                    text.bech32(hrp, [0] + data + [extra]))
    cps = sorted({n['cash_prefix'] for n in lib.NETWORKS.values()
                  if n['cash_prefix']})
    for cp in cps + ['bchreg', 'bitcoincas', 'bitcoincashx', 'ecash']:
        for v in range(256):
            for n in (20, 32, 19, 21) if cp == net['cash_prefix'] else (20,):
                if v > 16 and cp != net['cash_prefix']:
                    continue
                rec.case('{} cashaddr {} v{} {}'.format(name, cp, v, n),
                         judge, net,
                         text.cashaddr(cp, bytes([v]) + lib.pat('c', n)))
    # more than one prefix
    body = [s.split(':')[-1] for _, s in texts(name)]
    marks = [net['cash_prefix'] or 'bitcoincash', 'bchtest', '', 'x',
             'bitcoin', net['hrp'] or 'bc', '0']
    for b in body:
        for first in marks:
            for second in marks + [None]:
                for sep in ':1':
                    t = first + sep + ('' if second is None else
                                       second + sep) + b
                    rec.case('{} text {!r}'.format(name, t), judge, net, t)


def gate(rec, net):
    key = lib.pat('key', 33)
    scr = 'OP_1'
    rec.state(net['name'] + net['subnet'])
    ways = [('p2wpkh', lambda: tb.make_p2wpkh_output_script(key)),
            ('p2wpkh', lambda: tb.make_pkh_output_script(key, witness=True)),
            ('p2wsh', lambda: tb.make_p2wsh_output_script(scr)),
            ('p2wsh', lambda: tb.make_sh_output_script(scr, witness=True)),
            ('p2wpkh', lambda: tb.make_p2wpkh_output(5, key).output_script),
            ('p2wsh', lambda: tb.make_p2wsh_output(5, scr).output_script),
            ('p2wpkh', lambda: tb.make_pkh_output(
                5, key, witness=True).output_script),
            ('p2wsh', lambda: tb.make_sh_output(
                5, scr, witness=True).output_script)]
    want = {'p2wpkh': b'\x00\x14' + hashes.hash160(key, net['decred']),
            'p2wsh': b'\x00\x20' + hashes.sha256(b'\x51')}
    for kind, f in ways:
        if net['segwit']:
            rec.eq(bytes(f()), want[kind], kind + ' script')
        else:
            rec.refuses(f, kind + ' on a network without witnesses')
