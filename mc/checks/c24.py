import itertools

from mc import lib
from mc.checks import c02, c05
from mc.core import deviations
from mc.ref import tx as rt

ID = 'C24'
RULE = (
    'Sprout, Overwinter and Sapling transactions on all nine networks: '
    'every transaction in which at most k dimensions of C02 leave their '
    'default (k=2 quick / 3 thorough), with 1..5 joinsplits besides; every '
    'ordered choice of 1..3 joinsplits out of four (repeats included) with '
    'each of three keys; two joinsplits that agree in every possible subset of '
    'their nine fields; every bit (quick: four of each field) of '
    'every joinsplit field and of the key flipped in turn, where exactly '
    'the binding hashes and proof inputs that contain the bit must change. '
    'Built, parsed and copied transactions, compared with an independent '
    'implementation.')
ASSUMPTIONS = ['mc/ref/tx.py hsig and primary_input transcribe the Zcash '
               'protocol (Sprout JoinSplit primary input, hSigCRH)']
SL = 4


def tasks(tier):
    return [(k, w, s) for k in lib.MK_Z for w in ('dev', 'pick', 'flip')
            for s in range(SL)] + [
                (k, 'partial', s) for k in lib.MK_Z for s in range(3)]


def run(task, tier, rec):
    kind, what, s = task
    nets = lib.ZCASH[kind]
    if what == 'dev':
        space = deviations(c02.dims(kind), 2 if tier == 'quick' else 3)
        for n, (label, a) in enumerate(space):
            if n % SL != s:
                continue
            for n_js in (a['n_js'], 2):
                b = dict(a, n_js=n_js)
                m = c02.model(kind, b)
                if not c02.legal(kind, m):
                    continue
                net = nets[n // SL % 3]
                lib.sel(net)
                rec.case('{} {} joinsplits={}'.format(net, label, n_js), one,
                         kind, m)
    elif what == 'partial':
        lib.sel(nets[s])
        for label, m in lib.odd(lib.g_z(kind, 3, 3, 3, 3, 3)):
            rec.case('{} {}'.format(nets[s], label), one, kind, m)
        m = lib.g_z(kind, 1, 1, 2)
        a, b = (lib.fields('joinsplits', j) for j in m['joinsplits'])
        for n, mask in enumerate(itertools.product((0, 1), repeat=len(a))):
            if n % 3 != s:
                continue
            c = [y if k else x for k, x, y in zip(mask, a, b)]
            lib.sel(nets[n % 3])
            rec.case('{} joinsplits differing in {}'.format(nets[n % 3],
                                                            mask),
                     one, kind, dict(m, joinsplits=[b''.join(a),
                                                    b''.join(c)]))
    elif what == 'pick':
        pool = [lib.js_bytes('p%d' % i, kind == 'sapling', old=i * 3,
                             new=0) for i in range(3)]
        pool.append(pool[0][:48] + pool[1][48:112] + pool[0][112:])
        keys = [lib.pat('k', 32), b'\x00' * 32, lib.pat('jspk', 32)]
        n = 0
        for size in (1, 2, 3):
            for pick in itertools.product(range(4), repeat=size):
                n += 1
                if n % SL != s:
                    continue
                for j, key in enumerate(keys):
                    m = lib.g_z(kind, 1, 1, size)
                    m['joinsplits'] = [pool[p] for p in pick]
                    m['js_pubkey'] = key
                    net = nets[n % 3]
                    lib.sel(net)
                    rec.case('{} joinsplits {} key {}'.format(net, pick, j),
                             one, kind, m)
    else:
        lib.sel(nets[s % 3])
        flips(rec, kind, tier, s)


def one(rec, kind, m):
    raw = lib.SER_Z[kind](m)
    t = lib.MK_Z[kind](m)
    again = lib.CLS_Z[kind].from_bytes(raw)
    for name, o in (('built', t), ('parsed', again), ('copied', t.copy())):
        agree(rec, name, o, m)
    if m['joinsplits']:
        key = lib.pat('another key', 32)
        agree(rec, 'copied with a key', t.copy(joinsplit_pubkey=key),
              dict(m, js_pubkey=key))
        rest = m['joinsplits'][1:] + m['joinsplits'][:1]
        agree(rec, 'copied with joinsplits',
              t.copy(tx_joinsplits=[lib.mk_js(j, kind == 'sapling')
                                    for j in rest]),
              dict(m, joinsplits=rest))


def want(m):
    return ([rt.hsig(j, m['js_pubkey']) for j in m['joinsplits']],
            [rt.primary_input(j, m['js_pubkey']) for j in m['joinsplits']])


def agree(rec, name, o, m):
    hs, ps = want(m)
    rec.eq([bytes(h) for h in o.hsigs], hs, 'hsigs of the ' + name)
    rec.eq([bytes(p) for p in o.primary_inputs], ps,
           'primary inputs of the ' + name)
    rec.state((hs, ps))


COVER = [(16, 48), (48, 112), (112, 176), (0, 16), (240, 304)]
SEED = (208, 240)


def flips(rec, kind, tier, s):
    m = lib.g_z(kind, 1, 1, 3)
    t = lib.MK_Z[kind](m)
    hs, ps = [list(map(bytes, x)) for x in (t.hsigs, t.primary_inputs)]
    size = rt.SAPLING_JS if kind == 'sapling' else rt.SPROUT_JS
    for j in range(3):
        for at in range(size):
            # every byte of what is covered, the edges of the rest
            edge = at in (304, 305, size - 1) or at < 304
            if not edge and at % 97:
                continue
            for bit in range(8) if tier == 'thorough' else (0, 7):
                if (at * 8 + bit) % SL != s:
                    continue
                b = bytearray(m['joinsplits'][j])
                b[at] ^= 1 << bit
                js = list(m['joinsplits'])
                js[j] = bytes(b)
                if any(js[j][0:8]) and any(js[j][8:16]):
                    continue
                rec.case('{} joinsplit {} byte {} bit {}'.format(
                    kind, j, at, bit), flipped, kind,
                    dict(m, joinsplits=js), j, at, hs, ps)
    for at in range(s, 32, SL):
        for bit in range(8):
            b = bytearray(m['js_pubkey'])
            b[at] ^= 1 << bit
            rec.case('{} key byte {} bit {}'.format(kind, at, bit), flipped,
                     kind, dict(m, js_pubkey=bytes(b)), None, None, hs, ps)
    if s == 0:
        for path in c05.leaves({k: v for k, v in m.items() if k not in (
                'joinsplits', 'js_pubkey', 'version', 'value_balance')}):
            m2 = c05.flip(m, path, 0)
            rec.case('{} change {}'.format(kind, path), flipped, kind, m2,
                     None, -1, hs, ps)


def flipped(rec, kind, m, j, at, hs, ps):
    t = lib.MK_Z[kind](m)
    agree(rec, 'changed', t, m)
    for i in range(3):
        if at is None:                      # the key
            binds = covers = True
        elif i != j:
            binds = covers = False
        else:
            binds = 48 <= at < 112 or SEED[0] <= at < SEED[1]
            covers = binds or any(a <= at < b for a, b in COVER)
        rec.eq(bytes(t.hsigs[i]) != hs[i], binds,
               'binding hash {} changes'.format(i))
        rec.eq(bytes(t.primary_inputs[i]) != ps[i], covers,
               'primary input {} changes'.format(i))
