"""Integers and CompactSize, straight from the protocol documentation."""


class Bad(Exception):
    """The bytes are not a well-formed message."""


def compact(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def le(n, size):
    return n.to_bytes(size, 'little')


class Reader:
    """Strict reader: running out of bytes is an error."""

    def __init__(self, data):
        self.data = bytes(data)
        self.pos = 0

    def take(self, n):
        if self.pos + n > len(self.data):
            raise Bad('short')
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        return out

    def left(self):
        return len(self.data) - self.pos

    def compact(self):
        first = self.take(1)[0]
        if first < 0xfd:
            return first
        size = {0xfd: 2, 0xfe: 4, 0xff: 8}[first]
        n = int.from_bytes(self.take(size), 'little')
        if compact(n)[0] != first:
            raise Bad('not compact')
        return n
