"""A small reader of ELF64 little-endian files."""
import struct


class Elf:
    def __init__(self, data):
        self.d = data
        if data[:6] != b'\x7fELF\x02\x01':
            raise ValueError('not an ELF64 LE file')
        (self.type, self.machine, _, self.entry, self.phoff, self.shoff, self.flags, _, self.phentsize, self.phnum,
         self.shentsize, self.shnum, self.shstrndx) = struct.unpack_from('<HHIQQQIHHHHHH', data, 16)
        self.ph = [struct.unpack_from('<IIQQQQQQ', data, self.phoff + k * 56) for k in range(self.phnum)]
        self.sh = []
        for k in range(self.shnum):
            (name, typ, flags, addr, off, size, link, info, align, ent) = struct.unpack_from('<IIQQQQIIQQ', data, self.shoff + k * 64)
            self.sh.append(dict(name=name, type=typ, flags=flags, addr=addr, off=off, size=size, link=link, info=info,
                                align=align, ent=ent, idx=k))
        if self.sh and self.shstrndx < len(self.sh):
            st = self.sh[self.shstrndx]
            for s in self.sh:
                s['name'] = self.str(st['off'] + s['name'])
        self._sym = None

    def str(self, off):
        e = self.d.index(b'\0', off)
        return self.d[off:e].decode('latin1')

    def sec(self, name):
        for s in self.sh:
            if s['name'] == name:
                return s
        return None

    def bytes(self, s):
        if s is None:
            return b''
        if s['type'] == 8:
            return bytes(s['size'])
        return self.d[s['off']:s['off'] + s['size']]

    def syms(self):
        if self._sym is None:
            self._sym = []
            for s in self.sh:
                if s['type'] == 2:
                    st = self.sh[s['link']]
                    for k in range(s['size'] // 24):
                        name, info, other, shndx, value, size = struct.unpack_from('<IBBHQQ', self.d, s['off'] + k * 24)
                        self._sym.append(dict(name=self.str(st['off'] + name), bind=info >> 4, type=info & 15, shndx=shndx,
                                              value=value, size=size, idx=k))
        return self._sym

    def sym(self, name):
        for s in self.syms():
            if s['name'] == name:
                return s
        return None

    def relas(self):
        out = []
        for s in self.sh:
            if s['type'] == 4:
                for k in range(s['size'] // 24):
                    off, info, add = struct.unpack_from('<QQq', self.d, s['off'] + k * 24)
                    out.append((s['info'], off, info & 0xffffffff, info >> 32, add))
        return out

    def seg_at(self, addr, n):
        """bytes in memory at addr (zero-filled past the file size), or None"""
        for (typ, flags, off, va, pa, fsz, msz, al) in self.ph:
            if typ == 1 and va <= addr and addr + n <= va + msz:
                b = self.d[off:off + fsz] + bytes(max(0, msz - fsz))
                return b[addr - va:addr - va + n]
        return None
