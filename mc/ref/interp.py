"""A small consensus script interpreter: does this input spend that output?

Signatures are stand-ins: sign(key, digest, kind) can be made by anybody but
is only right for that key, that digest and that hash type, which is all the
scripts can tell of a real signature.
"""
import hashlib

from mc.ref import hashes, tx as rt
from mc.ref.codec import Bad, Reader, le

NUMBER = {0: b'', 79: b'\x81'}
NUMBER.update({80 + k: bytes([k]) for k in range(1, 17)})


def sign(key, digest, kind):
    body = hashlib.sha512(b'signature' + key + digest).digest()
    return b'\x30' + body + bytes([kind])


def truth(x):
    return any(x[:-1]) or x[-1:] not in (b'', b'\x00', b'\x80')


def num(x, limit=4):
    if len(x) > limit:
        raise Bad('number too long')
    if not x:
        return 0
    if not x[-1] & 0x7f and not (len(x) > 1 and x[-2] & 0x80):
        raise Bad('number not minimal')
    n = int.from_bytes(x[:-1] + bytes([x[-1] & 0x7f]), 'little')
    return -n if x[-1] & 0x80 else n


def split(script):
    """[(opcode, data or None)]"""
    out, r = [], Reader(script)
    while r.pos < len(script):
        op = r.take(1)[0]
        if op <= 78 and op:
            n = op if op < 76 else int.from_bytes(
                r.take(1 << (op - 76)), 'little')
            out.append((op, r.take(n)))
        else:
            out.append((op, NUMBER.get(op)))
    return out


class Spend:
    """one input of a transaction (a model, see rt) and what it spends"""
    def __init__(self, m, index, script, value, fmt, forkid=None):
        self.m, self.i, self.script, self.value = m, index, script, value
        self.fmt, self.fork = fmt, forkid
        self.dcr = fmt == 'decred'

    def digest(self, code, kind, witness):
        m, i = self.m, self.i
        if self.dcr:
            return rt.dcr_digest(m, i, code, kind)
        if self.fmt == 'sprout':
            return rt.sprout_digest(m, i, code, kind)
        if self.fmt == 'overwinter':
            return rt.zip143_digest(m, i, rt.var(code), self.value, kind)
        if self.fmt == 'sapling':
            return rt.zip243_digest(m, i, rt.var(code), self.value, kind)
        if self.fork is not None:
            return rt.bip143_digest(m, i, rt.var(code), self.value,
                                    kind | self.fork << 8)
        if witness:
            return rt.bip143_digest(m, i, rt.var(code), self.value, kind)
        return rt.legacy_digest(m, i, code, kind)

    def checksig(self, sig, key, code, witness):
        if not sig:
            return False
        kind = sig[-1]
        base = kind & ~rt.ACP
        if self.fork is not None:
            if not base & rt.FORK:
                return False
            base &= ~rt.FORK
        if base not in (rt.ALL, rt.NONE, rt.SINGLE):
            return False
        if base == rt.SINGLE and self.i >= len(self.m['outs']):
            return False
        return sig == sign(key, self.digest(code, kind, witness), kind)

    def locktime(self, n):
        lock = int.from_bytes(self.m['lock'], 'little')
        if n < 0 or (n < 500000000) != (lock < 500000000) or n > lock:
            raise Bad('locked')
        if self.m['ins'][self.i][3] == b'\xff' * 4:
            raise Bad('final')

    def run(self, script, stack, witness=False):
        h160 = 'decred' if self.dcr else None
        live = []

        def pop():
            if not stack:
                raise Bad('empty stack')
            return stack.pop()

        for op, data in split(script):
            on = all(live)
            if op in (99, 100):                          # IF NOTIF
                v = False
                if on:
                    x = pop()
                    if witness and x not in (b'', b'\x01'):
                        raise Bad('minimal if')
                    v = truth(x) == (op == 99)
                live.append(v)
            elif op in (103, 104):                       # ELSE ENDIF
                if not live:
                    raise Bad('unbalanced')
                if op == 103:
                    live[-1] = not live[-1]
                else:
                    live.pop()
            elif not on:
                continue
            elif data is not None:
                if len(data) > 520:
                    raise Bad('push size')
                stack.append(data)
            elif op == 105:
                if not truth(pop()):
                    raise Bad('verify')
            elif op == 117:
                pop()
            elif op == 118:
                stack.append(pop())
                stack.append(stack[-1])
            elif op == 124:
                a, b = pop(), pop()
                stack += [a, b]
            elif op == 130:
                stack.append(pop())
                n = len(stack[-1])
                stack.append(le(n, 2).rstrip(b'\x00'))
            elif op in (135, 136):
                same = pop() == pop()
                if op == 135:
                    stack.append(b'\x01' if same else b'')
                elif not same:
                    raise Bad('equalverify')
            elif op == 166:
                stack.append(hashes.ripemd160(pop()))
            elif op == (192 if self.dcr else 168):
                stack.append(hashes.sha256(pop()))
            elif op == 168:
                stack.append(hashes.blake256(pop()))
            elif op == 169:
                stack.append(hashes.hash160(pop(), h160 is not None))
            elif op == 170:
                stack.append(hashes.hash256(pop(), h160 is not None))
            elif op in (172, 173):
                key, sig = pop(), pop()
                ok = self.checksig(sig, key, script, witness)
                if op == 172:
                    stack.append(b'\x01' if ok else b'')
                elif not ok:
                    raise Bad('checksigverify')
            elif op in (174, 175):
                keys = [pop() for _ in range(self.count(pop()))]
                sigs = [pop() for _ in range(self.count(pop()))]
                if len(sigs) > len(keys):
                    raise Bad('multisig')
                if not self.dcr and pop() != b'':
                    raise Bad('null dummy')
                while sigs and len(keys) >= len(sigs):
                    if self.checksig(sigs[0], keys[0], script, witness):
                        sigs.pop(0)
                    keys.pop(0)
                if op == 174:
                    stack.append(b'' if sigs else b'\x01')
                elif sigs:
                    raise Bad('multisigverify')
            elif op == 177:
                if not stack:
                    raise Bad('empty stack')
                self.locktime(num(stack[-1], 5))
            else:
                raise Bad('opcode {}'.format(op))
        if live:
            raise Bad('unbalanced')
        return stack

    @staticmethod
    def count(x):
        n = num(x)
        if not 0 <= n <= 20:
            raise Bad('count')
        return n

    def valid(self):
        """does it pass consensus, and leave nothing but true behind"""
        try:
            return self._valid()
        except Bad:
            return False

    def _valid(self):
        m, i, lock = self.m, self.i, self.script
        sig = m['wits'][i][3] if self.dcr else m['ins'][i][2]
        wit = []
        if not self.dcr and m.get('segwit'):
            wit = m['wits'][i]
        pushes = split(sig)
        if any(d is None for _, d in pushes):
            return False
        stack = [d for _, d in pushes]
        program = None
        if lock[:1] == b'\x00' and len(lock) in (22, 34) \
                and lock[1] == len(lock) - 2 and self.segwit:
            if sig:
                return False
            program = lock[2:]
        elif len(lock) == 23 and lock[:2] == b'\xa9\x14' \
                and lock[22:] == b'\x87':
            if len(stack) < 1 or not pushes[-1][0]:
                return False
            redeem = stack[-1]
            if not truth(self.run(lock, list(stack))[-1]):
                return False
            stack = stack[:-1]
            if redeem[:1] == b'\x00' and len(redeem) in (22, 34) \
                    and redeem[1] == len(redeem) - 2 and self.segwit:
                if stack or sig != bytes([len(redeem)]) + redeem:
                    return False
                program = redeem[2:]
            lock = redeem
        if program is None:
            if wit:
                return False
            return self.done(self.run(lock, stack))
        stack = list(wit)
        if len(program) == 20:
            code = b'\x76\xa9\x14' + program + b'\x88\xac'
        else:
            if not stack:
                return False
            code = stack.pop()
            if hashes.sha256(code) != program:
                return False
        return self.done(self.run(code, stack, True))

    segwit = True

    @staticmethod
    def done(stack):
        return len(stack) == 1 and truth(stack[0])


def dcr_parse(data):
    """(model, bytes used) of a full Decred transaction"""
    r = Reader(data)
    m = {'version': r.take(4)}

    def many(f):
        n = r.compact()
        return [f() for _ in range(n)]

    def var():
        return r.take(r.compact())
    m['ins'] = many(lambda: (r.take(32), r.take(4), r.take(1), r.take(4)))
    m['outs'] = many(lambda: (r.take(8), r.take(2), var()))
    m['lock'], m['expiry'] = r.take(4), r.take(4)
    m['wits'] = many(lambda: (r.take(8), r.take(4), r.take(4), var()))
    return m, r.pos

