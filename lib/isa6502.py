"""6502 and 65C02 instruction encodings, written down from the processors' data sheets (not from the assembler)."""

# operand forms:  imp acc imm zp zpx zpy abs abx aby inx iny ind izp iax rel
BASE = {
    'adc': dict(imm=0x69, zp=0x65, zpx=0x75, abs=0x6D, abx=0x7D, aby=0x79, inx=0x61, iny=0x71),
    'and': dict(imm=0x29, zp=0x25, zpx=0x35, abs=0x2D, abx=0x3D, aby=0x39, inx=0x21, iny=0x31),
    'asl': dict(acc=0x0A, zp=0x06, zpx=0x16, abs=0x0E, abx=0x1E),
    'bit': dict(zp=0x24, abs=0x2C),
    'brk': dict(imp=0x00), 'clc': dict(imp=0x18), 'cld': dict(imp=0xD8), 'cli': dict(imp=0x58), 'clv': dict(imp=0xB8),
    'cmp': dict(imm=0xC9, zp=0xC5, zpx=0xD5, abs=0xCD, abx=0xDD, aby=0xD9, inx=0xC1, iny=0xD1),
    'cpx': dict(imm=0xE0, zp=0xE4, abs=0xEC), 'cpy': dict(imm=0xC0, zp=0xC4, abs=0xCC),
    'dec': dict(zp=0xC6, zpx=0xD6, abs=0xCE, abx=0xDE),
    'dex': dict(imp=0xCA), 'dey': dict(imp=0x88),
    'eor': dict(imm=0x49, zp=0x45, zpx=0x55, abs=0x4D, abx=0x5D, aby=0x59, inx=0x41, iny=0x51),
    'inc': dict(zp=0xE6, zpx=0xF6, abs=0xEE, abx=0xFE),
    'inx': dict(imp=0xE8), 'iny': dict(imp=0xC8),
    'jmp': dict(abs=0x4C, ind=0x6C), 'jsr': dict(abs=0x20),
    'lda': dict(imm=0xA9, zp=0xA5, zpx=0xB5, abs=0xAD, abx=0xBD, aby=0xB9, inx=0xA1, iny=0xB1),
    'ldx': dict(imm=0xA2, zp=0xA6, zpy=0xB6, abs=0xAE, aby=0xBE),
    'ldy': dict(imm=0xA0, zp=0xA4, zpx=0xB4, abs=0xAC, abx=0xBC),
    'lsr': dict(acc=0x4A, zp=0x46, zpx=0x56, abs=0x4E, abx=0x5E),
    'nop': dict(imp=0xEA),
    'ora': dict(imm=0x09, zp=0x05, zpx=0x15, abs=0x0D, abx=0x1D, aby=0x19, inx=0x01, iny=0x11),
    'pha': dict(imp=0x48), 'php': dict(imp=0x08), 'pla': dict(imp=0x68), 'plp': dict(imp=0x28),
    'rol': dict(acc=0x2A, zp=0x26, zpx=0x36, abs=0x2E, abx=0x3E),
    'ror': dict(acc=0x6A, zp=0x66, zpx=0x76, abs=0x6E, abx=0x7E),
    'rti': dict(imp=0x40), 'rts': dict(imp=0x60),
    'sbc': dict(imm=0xE9, zp=0xE5, zpx=0xF5, abs=0xED, abx=0xFD, aby=0xF9, inx=0xE1, iny=0xF1),
    'sec': dict(imp=0x38), 'sed': dict(imp=0xF8), 'sei': dict(imp=0x78),
    'sta': dict(zp=0x85, zpx=0x95, abs=0x8D, abx=0x9D, aby=0x99, inx=0x81, iny=0x91),
    'stx': dict(zp=0x86, zpy=0x96, abs=0x8E), 'sty': dict(zp=0x84, zpx=0x94, abs=0x8C),
    'tax': dict(imp=0xAA), 'tay': dict(imp=0xA8), 'tsx': dict(imp=0xBA), 'txa': dict(imp=0x8A), 'txs': dict(imp=0x9A), 'tya': dict(imp=0x98),
    'bpl': dict(rel=0x10), 'bmi': dict(rel=0x30), 'bvc': dict(rel=0x50), 'bvs': dict(rel=0x70),
    'bcc': dict(rel=0x90), 'bcs': dict(rel=0xB0), 'bne': dict(rel=0xD0), 'beq': dict(rel=0xF0),
    # aliases this assembler adds
    'bhi': dict(rel=0xB0), 'blo': dict(rel=0x90), 'bgt': dict(rel=0x10), 'ble': dict(rel=0x30),
}
CMOS = {
    'phx': dict(imp=0xDA), 'phy': dict(imp=0x5A), 'plx': dict(imp=0xFA), 'ply': dict(imp=0x7A),
    'bra': dict(rel=0x80),
    'stz': dict(zp=0x64, zpx=0x74, abs=0x9C, abx=0x9E),
    'tsb': dict(zp=0x04, abs=0x0C), 'trb': dict(zp=0x14, abs=0x1C),
    'bit': dict(imm=0x89, zpx=0x34, abx=0x3C),
    'inc': dict(acc=0x1A), 'dec': dict(acc=0x3A),
    'jmp': dict(iax=0x7C),
    'adc': dict(izp=0x72), 'and': dict(izp=0x32), 'cmp': dict(izp=0xD2), 'eor': dict(izp=0x52),
    'lda': dict(izp=0xB2), 'ora': dict(izp=0x12), 'sbc': dict(izp=0xF2), 'sta': dict(izp=0x92),
}


def table(cpu):
    t = {m: dict(f) for m, f in BASE.items()}
    if cpu == '6500':
        del t['ror']
    if cpu == '65C02':
        for m, f in CMOS.items():
            t.setdefault(m, {}).update(f)
    return t


# written forms of an operand and the encodings they may stand for: (short form, long form)
FORMS = {
    '': (('imp', 'acc'), ()),
    'a': (('acc',), ()),
    '#{}': (('imm',), ()),
    '{}': (('zp',), ('abs',)),
    '{},x': (('zpx',), ('abx',)),
    '{},y': (('zpy',), ('aby',)),
    '({},x)': (('inx',), ('iax',)),
    '@{},x': (('inx',), ('iax',)),
    '({}),y': (('iny',), ()),
    '@{},y': (('iny',), ()),
    '({})': (('izp',), ('ind',)),
    '@{}': (('izp',), ('ind',)),
}


def choose(modes, form, small, forward=False):
    """(opcode, operand length) or None when there is no such instruction.  small: the operand fits a byte."""
    short, long_ = FORMS[form]
    for m in short:
        if m in modes:
            if m in ('imp', 'acc'):
                return modes[m], 0
            if m == 'imm':
                return modes[m], 1
            if small and not forward:
                return modes[m], 1
    for m in long_:
        if m in modes:
            return modes[m], 2
    return None
