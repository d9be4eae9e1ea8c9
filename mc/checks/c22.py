import itertools

import riemann
from riemann import networks
from riemann.encoding import addresses
from riemann.script import serialization

from mc import lib
from mc.lib import pat
from mc.ref import addr as ra
from mc.ref import script as rs

ID = 'C22'
RULE = (
    'All 72 networks: every parameter of the class in force after selecting '
    'it by name, and of the class looked up by name, against an independent '
    'table (name, subnet, symbol, address prefixes, human-readable part, '
    'fork id, flag, cash prefixes), the address of a fixed hash of each '
    'kind and the meaning of every opcode byte and name. Every ordered pair of networks is '
    'selected in sequence and the parameters compared after each. The set of '
    'supported names is exactly the table, symbols are its symbols, and every '
    'name derived from a supported one by deleting, doubling or replacing a '
    'character, changing case, padding, cutting or swapping family and '
    'subnet is refused and leaves the network in force.')
ASSUMPTIONS = ['the table mc/ref/networks.json']
NAMES = sorted(lib.NETWORKS)


def tasks(tier):
    return [('one', s) for s in range(4)] + [
        ('pairs', s) for s in range(8)] + [
        ('names', s) for s in range(8)] + [('set',)]


def run(task, tier, rec):
    if task[0] == 'one':
        for n in NAMES[task[1]::4]:
            rec.case('parameters of ' + n, one, n)
    elif task[0] == 'pairs':
        for a in NAMES[task[1]::8]:
            for b in NAMES:
                rec.case('{} then {}'.format(a, b), pair, a, b)
    elif task[0] == 'names':
        for n in NAMES[task[1]::8]:
            rec.case('near misses of ' + n, near, n, tier)
        if task[1] == 0:
            rec.case('other names', other)
    else:
        rec.case('the set of networks', whole)


def h(x):
    return None if x is None else x.hex()


def params(n):
    return {'name': n.NETWORK_NAME, 'subnet': n.SUBNET_NAME,
            'symbol': n.SYMBOL, 'p2pkh': h(n.P2PKH_PREFIX),
            'p2sh': h(n.P2SH_PREFIX), 'p2wpkh': h(n.P2WPKH_PREFIX),
            'p2wsh': h(n.P2WSH_PREFIX), 'segwit': n.SEGWIT,
            'hrp': n.BECH32_HRP, 'cash_prefix': n.CASHADDR_PREFIX,
            'cash_p2pkh': h(n.CASHADDR_P2PKH),
            'cash_p2sh': h(n.CASHADDR_P2SH), 'forkid': n.FORKID,
            'flag': h(n.SEGWIT_TX_FLAG),
            'decred': 'decred' in n.NETWORK_NAME}


def agree(rec, cls, name):
    rec.true(cls is not None, 'no class for ' + name)
    row = lib.NETWORKS[name]
    got = params(cls)
    for k in got:
        if k in ('p2wpkh', 'p2wsh') and not row['segwit']:
            continue
        rec.eq(got[k], row[k], '{} of {}'.format(k, name))


def one(rec, name):
    row = lib.NETWORKS[name]
    agree(rec, networks.get_network(name), name)
    agree(rec, networks.SUPPORTED[name], name)
    lib.sel(name)
    agree(rec, riemann.network, name)
    agree(rec, riemann.get_current_network(), name)
    rec.eq(riemann.get_current_network_name(), name, 'current name')
    rec.true(riemann.network is riemann.get_current_network(),
             'one network in force')
    for kind in ra.KINDS:
        if kind.startswith('p2w') and not row['segwit']:
            continue
        for cash in (True, False):
            hsh = pat('c22', ra.SIZE[kind])
            rec.eq(addresses.from_output_script(ra.script(kind, hsh), cash),
                   ra.address(row, kind, hsh, cash), 'address of ' + kind)
    # the opcodes of the network, and no others
    table = rs.ops(row['decred'])
    for c in range(79, 256):
        if c in table:
            rec.eq(serialization.deserialize(bytes([c])), table[c],
                   'opcode {}'.format(c))
        else:
            rec.refuses(lambda: serialization.deserialize(bytes([c])),
                        'opcode {}'.format(c))
    for t, c in rs.names(row['decred']).items():
        rec.eq(bytes(serialization.serialize(t)), bytes([c]), t)
    rec.state(row)


def pair(rec, a, b):
    lib.sel(a)
    agree(rec, riemann.network, a)
    lib.sel(b)
    agree(rec, riemann.network, b)
    agree(rec, riemann.get_current_network(), b)
    rec.eq(riemann.get_current_network_name(), b, 'name')
    agree(rec, networks.get_network(a), a)
    rec.state((a, b))


def wrong(rec, name, current):
    if name in lib.NETWORKS:
        return
    rec.refuses(lambda: riemann.select_network(name),
                'selecting {!r}'.format(name))
    rec.refuses(lambda: networks.get_network(name),
                'looking up {!r}'.format(name))
    rec.eq(riemann.get_current_network_name(), current, 'network in force')
    rec.state(name)


def near(rec, name, tier):
    lib.sel(name)
    out = {name.upper(), name.title(), ' ' + name, name + ' ', name + '\n',
           name.replace('_', '-'), name.replace('_', ''), name[::-1],
           name + '_', '_' + name, name.replace('_', ' '),
           name.replace('_', '__'), 'x' + name, name + 'net'}
    subs = 'a_0' if tier == 'quick' else \
        'abcdefghijklmnopqrstuvwxyz_0123456789 A'
    for i, c in enumerate(name):
        out.add(name[:i] + name[i + 1:])
        out.add(name[:i] + c + name[i:])
        out.add(name[:i])
        out.add(name[i:])
        out.add(name[:i] + c.upper() + name[i + 1:])
        for x in subs:
            out.add(name[:i] + x + name[i + 1:])
    for x in sorted(out):
        wrong(rec, x, name)
    agree(rec, riemann.network, name)


def other(rec):
    lib.sel('litecoin_test')
    families = sorted({r['name'] for r in lib.NETWORKS.values()})
    subnets = sorted({r['subnet'] for r in lib.NETWORKS.values()})
    for f, s in itertools.product(families, subnets + [
            'mainnet', 'testnet', 'regtest', 'sim', 'signet', '']):
        wrong(rec, '{}_{}'.format(f, s), 'litecoin_test')
    for r in lib.NETWORKS.values():
        wrong(rec, r['symbol'], 'litecoin_test')
        wrong(rec, r['name'], 'litecoin_test')
    for x in ('', None, 0, 1, b'bitcoin_main', ('bitcoin_main',), True,
              networks.get_network('bitcoin_main')):
        wrong(rec, x, 'litecoin_test')


def whole(rec):
    rec.eq(sorted(networks.SUPPORTED), NAMES, 'supported names')
    rec.eq(len({id(c) for c in networks.SUPPORTED.values()}), len(NAMES),
           'distinct classes')
    rec.eq({c.SYMBOL for c in networks.SUPPORTED.values()},
           {r['symbol'] for r in lib.NETWORKS.values()}, 'symbols')
    for n in NAMES:
        rec.eq(networks.SUPPORTED[n].SYMBOL, lib.NETWORKS[n]['symbol'], n)
