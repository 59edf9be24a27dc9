"""A small independent reader of FlatBuffers tables: by position, no schema code shared with the library."""
import struct


class Table:
    def __init__(self, b, pos):
        self.b, self.pos = b, pos
        self.vt = pos - struct.unpack_from("<i", b, pos)[0]
        self.n = (struct.unpack_from("<H", b, self.vt)[0] - 4) // 2

    def at(self, slot):
        if slot >= self.n:
            return None
        o = struct.unpack_from("<H", self.b, self.vt + 4 + 2 * slot)[0]
        return self.pos + o if o else None

    def scalar(self, slot, fmt, default=None):
        p = self.at(slot)
        return default if p is None else struct.unpack_from(fmt, self.b, p)[0]

    def ref(self, p):
        return p + struct.unpack_from("<I", self.b, p)[0]

    def string(self, slot):
        p = self.at(slot)
        if p is None:
            return None
        p = self.ref(p)
        n = struct.unpack_from("<I", self.b, p)[0]
        return bytes(self.b[p + 4:p + 4 + n]).decode()

    def vector(self, slot):
        """(position of the first element, number of elements)"""
        p = self.at(slot)
        if p is None:
            return None
        p = self.ref(p)
        return p + 4, struct.unpack_from("<I", self.b, p)[0]

    def tables(self, slot):
        v = self.vector(slot)
        return [] if v is None else [Table(self.b, self.ref(v[0] + 4 * i)) for i in range(v[1])]

    def table(self, slot):
        p = self.at(slot)
        return None if p is None else Table(self.b, self.ref(p))


def root(b, at):
    """root table of a size-prefixed buffer at `at`"""
    return Table(b, at + 4 + struct.unpack_from("<I", b, at + 4)[0])
