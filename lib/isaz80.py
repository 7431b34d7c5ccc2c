"""Z80 instruction encodings, written down from the Z80 CPU user manual (not from the assembler).

encode(mnemonic, operands) -> list of bytes, or None when there is no such instruction.  Operands are tuples:
  ('r', name) 8-bit or special register;  ('rr', name) register pair;  ('ind', name) (hl) (bc) (de) (sp) (c);
  ('idx', 'ix'|'iy', d) ;  ('n', v16) number ;  ('mem', v16) (number) ; ('cc', name)
Byte positions hold ints or whatever lo()/hi() make of the values."""
import z3

R8 = {'b': 0, 'c': 1, 'd': 2, 'e': 3, 'h': 4, 'l': 5, 'a': 7}
CC = {'nz': 0, 'z': 1, 'nc': 2, 'c': 3, 'po': 4, 'pe': 5, 'p': 6, 'm': 7}
PFX = {'ix': 0xDD, 'iy': 0xFD}
SIMPLE = {'ccf': [0x3F], 'scf': [0x37], 'cpl': [0x2F], 'daa': [0x27], 'exx': [0xD9], 'halt': [0x76], 'di': [0xF3], 'ei': [0xFB], 'nop': [0x00],
          'rla': [0x17], 'rlca': [0x07], 'rra': [0x1F], 'rrca': [0x0F],
          'cpd': [0xED, 0xA9], 'cpdr': [0xED, 0xB9], 'cpi': [0xED, 0xA1], 'cpir': [0xED, 0xB1], 'ind': [0xED, 0xAA], 'indr': [0xED, 0xBA],
          'ini': [0xED, 0xA2], 'inir': [0xED, 0xB2], 'ldd': [0xED, 0xA8], 'lddr': [0xED, 0xB8], 'ldi': [0xED, 0xA0], 'ldir': [0xED, 0xB0],
          'neg': [0xED, 0x44], 'otdr': [0xED, 0xBB], 'otir': [0xED, 0xB3], 'outd': [0xED, 0xAB], 'outi': [0xED, 0xA3], 'reti': [0xED, 0x4D],
          'retn': [0xED, 0x45], 'rld': [0xED, 0x6F], 'rrd': [0xED, 0x67], 'ret': [0xC9]}
ALU = {'add': 0x80, 'adc': 0x88, 'sub': 0x90, 'sbc': 0x98, 'and': 0xA0, 'xor': 0xA8, 'or': 0xB0, 'cp': 0xB8}
ROT = {'rlc': 0x00, 'rrc': 0x08, 'rl': 0x10, 'rr': 0x18, 'sla': 0x20, 'sra': 0x28, 'srl': 0x38}
BITS = {'bit': 0x40, 'res': 0x80, 'set': 0xC0}


def lo(v):
    return v & 255 if isinstance(v, int) else z3.Extract(7, 0, v)


def hi(v):
    return v >> 8 & 255 if isinstance(v, int) else z3.Extract(15, 8, v)


def m8(o):
    """8-bit operand as (prefix bytes, register code, bytes after the opcode) or None"""
    if o[0] == 'r' and o[1] in R8:
        return [], R8[o[1]], []
    if o == ('ind', 'hl'):
        return [], 6, []
    if o[0] == 'idx':
        return [PFX[o[1]]], 6, [o[2]]
    return None


def pair(o, last='sp'):
    """register pair as (prefix, code) or None"""
    if o[0] != 'rr':
        return None
    n = o[1]
    if n in PFX:
        return [PFX[n]], 2
    t = {'bc': 0, 'de': 1, 'hl': 2, last: 3}
    return ([], t[n]) if n in t else None


def encode(m, ops):
    k = len(ops)
    if k == 0:
        return SIMPLE.get(m)
    a = ops[0]
    b = ops[1] if k > 1 else None
    if m in ALU:
        if m in ('add', 'adc', 'sbc'):
            if k != 2:
                return None
            if a == ('r', 'a'):
                o = b
            else:
                p, q = pair(a), pair(b)
                if not p or not q or p[1] != 2:
                    return None
                if m != 'add' and (p[0] or q[0]):
                    return None
                # HL, IX, IY cannot be mixed
                if q[1] == 2 and q[0] != p[0]:
                    return None
                return p[0] + {'add': [0x09 + 16 * q[1]], 'adc': [0xED, 0x4A + 16 * q[1]], 'sbc': [0xED, 0x42 + 16 * q[1]]}[m]
        else:
            if k == 2:
                if a != ('r', 'a'):
                    return None
                o = b                   # accepted with a warning
            else:
                o = a
        if o[0] == 'n':
            return [ALU[m] + 0x46, lo(o[1])]
        x = m8(o)
        return x and x[0] + [ALU[m] + x[1]] + x[2]
    if m in ('inc', 'dec') and k == 1:
        x = m8(a)
        if x:
            return x[0] + [(4 if m == 'inc' else 5) + 8 * x[1]] + x[2]
        x = pair(a)
        return x and x[0] + [(3 if m == 'inc' else 11) + 16 * x[1]]
    if m in ('push', 'pop') and k == 1:
        x = pair(a, 'af')
        return x and x[0] + [(0xC5 if m == 'push' else 0xC1) + 16 * x[1]]
    if m in ROT and k == 1:
        x = m8(a)
        return x and x[0] + [0xCB] + x[2] + [ROT[m] + x[1]]
    if m in BITS and k == 2 and a[0] == 'bitno':
        x = m8(b)
        if not x:
            return None
        return x[0] + [0xCB] + x[2] + [BITS[m] + x[1] + 8 * a[1]]
    if m == 'ld' and k == 2:
        x, y = m8(a), m8(b)
        if x and y:
            if x[1] == 6 and y[1] == 6:
                return None
            return x[0] + y[0] + [0x40 + 8 * x[1] + y[1]] + x[2] + y[2]
        if x and b[0] == 'n':
            return x[0] + [0x06 + 8 * x[1]] + x[2] + [lo(b[1])]
        A = ('r', 'a')
        if a == A:
            if b[0] == 'mem':
                return [0x3A, lo(b[1]), hi(b[1])]
            t = {('ind', 'bc'): [0x0A], ('ind', 'de'): [0x1A], ('r', 'i'): [0xED, 0x57], ('r', 'r'): [0xED, 0x5F]}
            if b in t:
                return t[b]
        if b == A:
            if a[0] == 'mem':
                return [0x32, lo(a[1]), hi(a[1])]
            t = {('ind', 'bc'): [0x02], ('ind', 'de'): [0x12], ('r', 'i'): [0xED, 0x47], ('r', 'r'): [0xED, 0x4F]}
            if a in t:
                return t[a]
        p = pair(a)
        if p:
            if b[0] == 'n':
                return p[0] + [0x01 + 16 * p[1], lo(b[1]), hi(b[1])]
            if b[0] == 'mem':
                return p[0] + ([0x2A] if p[1] == 2 else [0xED, 0x4B + 16 * p[1]]) + [lo(b[1]), hi(b[1])]
            q = pair(b)
            if q and p == ([], 3) and q[1] == 2:
                return q[0] + [0xF9]
            return None
        q = pair(b)
        if q and a[0] == 'mem':
            return q[0] + ([0x22] if q[1] == 2 else [0xED, 0x43 + 16 * q[1]]) + [lo(a[1]), hi(a[1])]
        return None
    if m == 'ex' and k == 2:
        s = {a, b} if all(isinstance(z, str) for o in ops for z in o) else set()
        if s == {('rr', 'de'), ('rr', 'hl')}:
            return [0xEB]
        if s == {('rr', 'af'), ('rr', "af'")}:
            return [0x08]
        for u in ('hl', 'ix', 'iy'):
            if s == {('ind', 'sp'), ('rr', u)}:
                return ([PFX[u]] if u in PFX else []) + [0xE3]
        return None
    if m == 'in' and k == 2:
        if a == ('r', 'a') and b[0] == 'mem':
            return [0xDB, lo(b[1])]
        if b == ('ind', 'c') and a[0] == 'r' and a[1] in R8:
            return [0xED, 0x40 + 8 * R8[a[1]]]
        return None
    if m == 'out' and k == 2:
        if b == ('r', 'a') and a[0] == 'mem':
            return [0xD3, lo(a[1])]
        if a == ('ind', 'c') and b[0] == 'r' and b[1] in R8:
            return [0xED, 0x41 + 8 * R8[b[1]]]
        return None
    if m in ('jp', 'call'):
        if k == 1 and a[0] == 'n':
            return [0xC3 if m == 'jp' else 0xCD, lo(a[1]), hi(a[1])]
        if k == 2 and a[0] == 'cc' and b[0] == 'n':
            return [(0xC2 if m == 'jp' else 0xC4) + 8 * CC[a[1]], lo(b[1]), hi(b[1])]
        if m == 'jp' and k == 1:
            if a == ('ind', 'hl'):
                return [0xE9]
            if a[0] == 'idx' and a[2] is None:
                return [PFX[a[1]], 0xE9]
        return None
    if m == 'ret' and k == 1 and a[0] == 'cc':
        return [0xC0 + 8 * CC[a[1]]]
    return None
