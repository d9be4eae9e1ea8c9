"""Script text and bytes. The opcode table is Bitcoin Core's, typed in here."""
from mc.ref.codec import Bad

_NAMES = '''
79 1NEGATE|80 RESERVED|97 NOP|98 VER|99 IF|100 NOTIF|101 VERIF|102 VERNOTIF
103 ELSE|104 ENDIF|105 VERIFY|106 RETURN|107 TOALTSTACK|108 FROMALTSTACK
109 2DROP|110 2DUP|111 3DUP|112 2OVER|113 2ROT|114 2SWAP|115 IFDUP|116 DEPTH
117 DROP|118 DUP|119 NIP|120 OVER|121 PICK|122 ROLL|123 ROT|124 SWAP|125 TUCK
126 CAT|127 SUBSTR|128 LEFT|129 RIGHT|130 SIZE|131 INVERT|132 AND|133 OR
134 XOR|135 EQUAL|136 EQUALVERIFY|137 RESERVED1|138 RESERVED2|139 1ADD
140 1SUB|141 2MUL|142 2DIV|143 NEGATE|144 ABS|145 NOT|146 0NOTEQUAL|147 ADD
148 SUB|149 MUL|150 DIV|151 MOD|152 LSHIFT|153 RSHIFT|154 BOOLAND|155 BOOLOR
156 NUMEQUAL|157 NUMEQUALVERIFY|158 NUMNOTEQUAL|159 LESSTHAN|160 GREATERTHAN
161 LESSTHANOREQUAL|162 GREATERTHANOREQUAL|163 MIN|164 MAX|165 WITHIN
166 RIPEMD160|167 SHA1|168 SHA256|169 HASH160|170 HASH256|172 CHECKSIG
173 CHECKSIGVERIFY|174 CHECKMULTISIG|175 CHECKMULTISIGVERIFY|176 NOP1
177 CHECKLOCKTIMEVERIFY|178 CHECKSEQUENCEVERIFY|179 NOP4|180 NOP5|181 NOP6
182 NOP7|183 NOP8|184 NOP9|185 NOP10|255 INVALIDOPCODE
'''

OPS = {0: 'OP_0'}
for _i in range(1, 17):
    OPS[80 + _i] = 'OP_%d' % _i
for _line in _NAMES.strip().splitlines():
    for _ent in _line.split('|'):
        _n, _name = _ent.split()
        OPS[int(_n)] = 'OP_' + _name
ALIASES = {'OP_NOP2': 177, 'OP_NOP3': 178}


def ops(decred=False):
    """byte -> name"""
    table = dict(OPS)
    if decred:
        table[168] = 'OP_BLAKE256'
        table[192] = 'OP_SHA256'
    return table


def names(decred=False):
    """name -> byte"""
    out = {v: k for k, v in OPS.items()}
    out.update(ALIASES)
    if decred:
        out['OP_BLAKE256'] = 168
        out['OP_SHA256'] = 192
    return out


def push(data):
    """The push used for n bytes of data (n >= 1)."""
    n = len(data)
    if n <= 75:
        return bytes([n]) + data
    if n <= 255:
        return b'\x4c' + bytes([n]) + data
    return b'\x4d' + n.to_bytes(2, 'little') + data


def encode(tokens, decred=False):
    """tokens: opcode names and bytes objects"""
    table = names(decred)
    out = b''
    for t in tokens:
        out += push(t) if isinstance(t, bytes) else bytes([table[t]])
    return out


def text(tokens):
    return ' '.join(t.hex() if isinstance(t, bytes) else t for t in tokens)


def decode(script, decred=False):
    """bytes -> tokens (opcode names / pushed bytes), or Bad."""
    table = ops(decred)
    out = []
    i = 0
    n = len(script)
    while i < n:
        c = script[i]
        i += 1
        if c == 0:
            out.append('OP_0')
            continue
        if c <= 75:
            size = c
        elif c == 76:
            if i + 1 > n:
                raise Bad('short')
            size = script[i]
            i += 1
        elif c == 77:
            if i + 2 > n:
                raise Bad('short')
            size = int.from_bytes(script[i:i + 2], 'little')
            i += 2
        elif c in (78, 171):
            raise Bad('documented refusal')
        elif c in table:
            out.append(table[c])
            continue
        else:
            raise Bad('opcode')
        if i + size > n:
            raise Bad('short')
        out.append(bytes(script[i:i + size]) if size else 'OP_0')
        i += size
    return out


def split_script_sig(script_sig, coinbase=False):
    """(stack part, redeem part): the redeem part is the final push when the
    pushed data is itself a script; otherwise everything is stack."""
    if script_sig == b'' or coinbase:
        return script_sig, b''
    try:
        tokens = decode(script_sig)
        if not isinstance(tokens[-1], bytes):
            return script_sig, b''
        decode(tokens[-1])
    except (Bad, IndexError):
        return script_sig, b''
    if any(isinstance(t, bytes) and len(t) > 1000 for t in tokens):
        return script_sig, b''
    if encode(tokens) != script_sig:
        return script_sig, b''
    redeem = push(tokens[-1])
    return script_sig[:len(script_sig) - len(redeem)], redeem
