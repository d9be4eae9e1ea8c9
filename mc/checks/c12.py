import itertools

from riemann import simple
from riemann.encoding import addresses as addr

from mc import lib
from mc.core import attempt
from mc.ref import addr as ra, text
from mc.ref.codec import Bad

ID = 'C12'
RULE = (
    'On every network, for every address kind and spelling it has: every '
    'single-character substitution (all printable characters on the main '
    'networks, the address alphabets on the others), deletion, insertion, '
    'adjacent swap, case change, truncation, extension and doubled or '
    'missing separator; the same content under every other checksum rule '
    '(other constants, other hash functions, every single flipped bit); every pair of positions changed together '
    '(quick: one alternative each on six networks; thorough: three, on '
    'all); all strings of up to two printable characters. The text is '
    'accepted exactly when an independent decoder accepts it, with the '
    'same hash and script.')
ASSUMPTIONS = ['all-capitals cashaddr, and cashaddr without its prefix, are '
               'not decided']
ALL = list(lib.NETWORKS)
MAIN = ['bitcoin_main', 'bitcoin_cash_main', 'zcash_sapling_main',
        'monacoin_main', 'litecoin_test', 'decred_main']
PRINTABLE = ''.join(chr(c) for c in range(32, 127))
ODD = ['\u00e9', '\uff11', '\u0131', '\u212a', '\x00', '\n', '\t', '\x7f',
       '\u20bf', '\U0001f600']
ALPHABETS = text.B58 + '0OIl' + '-_:'
PAIR_SL = 4


def addresses(name, hashes_=1):
    net = lib.NETWORKS[name]
    out = []
    for kind in ra.KINDS:
        for cash in ((True, False) if net['cash_prefix'] and
                     not kind.startswith('p2w') else (True,)):
            for k in range(hashes_):
                h = lib.pat('c12/%d' % k, ra.SIZE[kind])
                if k == 1:
                    h = b'\x00' * 3 + h[3:]
                try:
                    out.append((kind, ra.address(net, kind, h, cash)))
                except Bad:
                    pass
    return out


def mutations(s, chars):
    n = len(s)
    for i in range(n):
        for c in chars:
            if c != s[i]:
                yield 'sub{}={!r}'.format(i, c), s[:i] + c + s[i + 1:]
        yield 'del{}'.format(i), s[:i] + s[i + 1:]
        yield 'cut{}'.format(i), s[:i]
        yield 'tail{}'.format(i), s[i + 1:]
        yield 'case{}'.format(i), s[:i] + s[i].swapcase() + s[i + 1:]
        yield 'dup{}'.format(i), s[:i] + s[i] + s[i:]
        if i + 1 < n:
            yield 'swap{}'.format(i), s[:i] + s[i + 1] + s[i] + s[i + 2:]
        for j in (2, 3, 5, 8):
            if i + j < n:
                yield 'swap{}+{}'.format(i, j), s[:i] + s[i + j] + \
                    s[i + 1:i + j] + s[i] + s[i + j + 1:]
            if i + j <= n:
                yield 'drop{}+{}'.format(i, j), s[:i] + s[i + j:]
                yield 'rev{}+{}'.format(i, j), s[:i] + s[i:i + j][::-1] + \
                    s[i + j:]
    for i in range(n + 1):
        for c in '1qpQ0 :lI':
            yield 'ins{}={!r}'.format(i, c), s[:i] + c + s[i:]
    for t in (' ', '\n', '1', 'q', s, ':', '\x00'):
        yield 'post{!r}'.format(t[:3]), s + t
        yield 'pre{!r}'.format(t[:3]), t + s
    yield 'swapcase', s.swapcase()
    yield 'title', s.title()
    if ':' in s:
        a, b = s.split(':')
        yield 'twice', a + ':' + a + ':' + b
        yield 'empty', a + ':'
        yield 'colons', a + '::' + b
        yield 'upper prefix', a.upper() + ':' + b
        yield 'upper body', a + ':' + b.upper()
        yield 'other prefix', 'bitcoin:' + b
        yield 'prefix twice', a + a + ':' + b
        yield 'longer prefix', a + 'x:' + b
        yield 'after', a + ':' + b + ':' + b
    else:
        yield 'upper', s.upper()
        yield 'lower', s.lower()


def tasks(tier):
    return [('one', n) for n in ALL] + [
        ('two', n, s) for n in (MAIN if tier == 'quick' else ALL)
        for s in range(PAIR_SL)] + [('short', n) for n in MAIN]


def run(task, tier, rec):
    what, name = task[:2]
    net = lib.NETWORKS[name]
    lib.sel(name)
    if what == 'one':
        deep = tier == 'thorough' or name in MAIN
        foreign(rec, name, net, deep)
        for kind, s in addresses(name, 2 if deep else 1):
            rec.case('{} {} {}'.format(name, kind, s), judge, net, s, True)
            if not deep:
                chars = s[1] + ALPHABETS[::3] + '0'
            elif name == 'decred_main' and tier == 'quick':
                chars = ALPHABETS
            else:
                chars = list(PRINTABLE) + ODD
            for label, t in mutations(s, chars):
                rec.case('{} {} {} {}'.format(name, kind, s, label), judge,
                         net, t)
    elif what == 'two':
        for kind, s in addresses(name):
            pairs(rec, name, net, kind, s, task[2], tier)
    else:
        for n in (0, 1, 2):
            for t in itertools.product(PRINTABLE, repeat=n):
                t = ''.join(t)
                rec.case('{} text {!r}'.format(name, t), judge, net, t)
        for t in ODD + ['', ' ' * 40, '1' * 40, 'q' * 40, 'bc1', 'bc1q',
                        '1' * 200, 'A' * 200, 'bitcoincash:',
                        'bitcoincash', ':', '::', 'bc1' + 'q' * 100]:
            rec.case('{} odd {!r}'.format(name, t[:50]), judge, net, t)


def foreign(rec, name, net, deep):
    """texts right in everything but the rule of their checksum"""
    check = ra.checksum(net)
    for kind in ra.KINDS:
        h = lib.pat('c12/0', ra.SIZE[kind])
        for cash in (True, False):
            raw = ra.payload(net, kind, h, cash)
            out = list(text.other_b58check(raw, check))
            if kind.startswith('p2w'):
                for hrp in {net['hrp'] or 'bc', 'bc'}:
                    for v in (0, 1, 16):
                        out += [('{} v{} {}'.format(hrp, v, a), b) for a, b in
                                text.other_bech32(hrp, [v] + text.bits(
                                    h, 8, 5, True))]
            for label, t in out:
                rec.case('{} {} other checksum: {}'.format(name, kind, label),
                         judge, net, t)
            cp = net['cash_prefix'] or 'bitcoincash'
            if not kind.startswith('p2w'):
                for v in (0, 8):
                    for label, t in text.other_cashaddr(cp, text.bits(
                            bytes([v]) + h, 8, 5, True)):
                        rec.case('{} {} other checksum: {} v{} {}'.format(
                            name, kind, cp, v, label), judge, net, t)
            if not deep:
                break


def pairs(rec, name, net, kind, s, part, tier):
    alphabet = text.B32 if s.lower() == s and kind.startswith('p2w') or \
        ':' in s else text.B58
    start = len(net['cash_prefix']) if ':' in s else 0
    count = 1 if tier == 'quick' else 3
    n = 0
    for i in range(start, len(s)):
        for j in range(i + 1, len(s)):
            n += 1
            if n % PAIR_SL != part:
                continue
            for k in range(count):
                a = alphabet[(alphabet.find(s[i]) + 1 + 7 * k)
                             % len(alphabet)]
                b = alphabet[(alphabet.find(s[j]) + 3 + 11 * k)
                             % len(alphabet)]
                t = s[:i] + a + s[i + 1:j] + b + s[j + 1:]
                rec.case('{} {} {} {}={} {}={}'.format(
                    name, kind, s, i, a, j, b), judge, net, t)


def judge(rec, net, s, must=False):
    """The implementation on the selected network agrees about s"""
    rec.state((net['name'], net['subnet'], s))
    try:
        kind, h = ra.parse(net, s)
    except Bad:
        kind = None
    if must and kind is None:
        rec.fail('reference refuses ' + s)
    calls = [('script', lambda: bytes(addr.to_output_script(s))),
             ('hash', lambda: bytes(addr.parse_hash(s))),
             ('output', lambda: bytes(simple.output(7, s).output_script))]
    for what, f in calls:
        res, got = attempt(f)
        if kind is None:
            rec.true(res == 'refused', '{!r} is no address here, but gave '
                     '{} {}'.format(s, what, got.hex() if res == 'ok'
                                    else ''))
            rec.outcome('refused')
        else:
            if res == 'refused':
                rec.fail('{!r} refused: {!r}'.format(s, got))
            rec.eq(got, h if what == 'hash' else ra.script(kind, h),
                   '{} of {!r}'.format(what, s))
            rec.outcome('address')
    try:
        raw = ra.decode(net, s)[1]
    except Bad:
        raw = None
    res, got = attempt(lambda: bytes(addr.parse(s)))
    if raw is None:
        rec.true(res == 'refused', '{!r} decodes to {}'.format(s, got))
    else:
        rec.eq((res, got), ('ok', raw), 'raw bytes of {!r}'.format(s))
