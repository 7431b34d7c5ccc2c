"""6800 and 6801/6803 instruction encodings, written down from the processors' data sheets (not from the assembler)."""

IMP = {
    'nop': 0x01, 'tap': 0x06, 'tpa': 0x07, 'inx': 0x08, 'dex': 0x09, 'clv': 0x0A, 'sev': 0x0B, 'clc': 0x0C, 'sec': 0x0D,
    'cli': 0x0E, 'sei': 0x0F, 'sba': 0x10, 'cba': 0x11, 'tab': 0x16, 'tba': 0x17, 'daa': 0x19, 'aba': 0x1B,
    'tsx': 0x30, 'ins': 0x31, 'pula': 0x32, 'pulb': 0x33, 'des': 0x34, 'txs': 0x35, 'psha': 0x36, 'pshb': 0x37,
    'rts': 0x39, 'rti': 0x3B, 'wai': 0x3E, 'swi': 0x3F,
    'nega': 0x40, 'coma': 0x43, 'lsra': 0x44, 'rora': 0x46, 'asra': 0x47, 'asla': 0x48, 'rola': 0x49, 'deca': 0x4A, 'inca': 0x4C, 'tsta': 0x4D, 'clra': 0x4F,
    'negb': 0x50, 'comb': 0x53, 'lsrb': 0x54, 'rorb': 0x56, 'asrb': 0x57, 'aslb': 0x58, 'rolb': 0x59, 'decb': 0x5A, 'incb': 0x5C, 'tstb': 0x5D, 'clrb': 0x5F,
}
IMP01 = {'lsrd': 0x04, 'asld': 0x05, 'pulx': 0x38, 'abx': 0x3A, 'pshx': 0x3C, 'mul': 0x3D}
REL = {'bra': 0x20, 'bhi': 0x22, 'bls': 0x23, 'bcc': 0x24, 'bcs': 0x25, 'bne': 0x26, 'beq': 0x27, 'bvc': 0x28, 'bvs': 0x29, 'bpl': 0x2A,
       'bmi': 0x2B, 'bge': 0x2C, 'blt': 0x2D, 'bgt': 0x2E, 'ble': 0x2F, 'bsr': 0x8D}
REL01 = {'brn': 0x21}
# read-modify-write and jumps: indexed, extended
RMW = {'neg': (0x60, 0x70), 'com': (0x63, 0x73), 'lsr': (0x64, 0x74), 'ror': (0x66, 0x76), 'asr': (0x67, 0x77), 'asl': (0x68, 0x78), 'rol': (0x69, 0x79),
       'dec': (0x6A, 0x7A), 'inc': (0x6C, 0x7C), 'tst': (0x6D, 0x7D), 'jmp': (0x6E, 0x7E), 'clr': (0x6F, 0x7F), 'jsr': (0xAD, 0xBD)}
# immediate, direct, indexed, extended, size of the immediate
ACC = {'suba': (0x80, 0x90, 0xA0, 0xB0, 1), 'cmpa': (0x81, 0x91, 0xA1, 0xB1, 1), 'sbca': (0x82, 0x92, 0xA2, 0xB2, 1), 'anda': (0x84, 0x94, 0xA4, 0xB4, 1),
       'bita': (0x85, 0x95, 0xA5, 0xB5, 1), 'ldaa': (0x86, 0x96, 0xA6, 0xB6, 1), 'staa': (None, 0x97, 0xA7, 0xB7, 1), 'eora': (0x88, 0x98, 0xA8, 0xB8, 1),
       'adca': (0x89, 0x99, 0xA9, 0xB9, 1), 'oraa': (0x8A, 0x9A, 0xAA, 0xBA, 1), 'adda': (0x8B, 0x9B, 0xAB, 0xBB, 1), 'cpx': (0x8C, 0x9C, 0xAC, 0xBC, 2),
       'lds': (0x8E, 0x9E, 0xAE, 0xBE, 2), 'sts': (None, 0x9F, 0xAF, 0xBF, 2),
       'subb': (0xC0, 0xD0, 0xE0, 0xF0, 1), 'cmpb': (0xC1, 0xD1, 0xE1, 0xF1, 1), 'sbcb': (0xC2, 0xD2, 0xE2, 0xF2, 1), 'andb': (0xC4, 0xD4, 0xE4, 0xF4, 1),
       'bitb': (0xC5, 0xD5, 0xE5, 0xF5, 1), 'ldab': (0xC6, 0xD6, 0xE6, 0xF6, 1), 'stab': (None, 0xD7, 0xE7, 0xF7, 1), 'eorb': (0xC8, 0xD8, 0xE8, 0xF8, 1),
       'adcb': (0xC9, 0xD9, 0xE9, 0xF9, 1), 'orab': (0xCA, 0xDA, 0xEA, 0xFA, 1), 'addb': (0xCB, 0xDB, 0xEB, 0xFB, 1),
       'ldx': (0xCE, 0xDE, 0xEE, 0xFE, 2), 'stx': (None, 0xDF, 0xEF, 0xFF, 2)}
ACC01 = {'subd': (0x83, 0x93, 0xA3, 0xB3, 2), 'addd': (0xC3, 0xD3, 0xE3, 0xF3, 2), 'ldd': (0xCC, 0xDC, 0xEC, 0xFC, 2), 'std': (None, 0xDD, 0xED, 0xFD, 2)}


def table(cpu):
    """{mnemonic: {mode: (opcode, operand bytes)}}   modes: imp rel imm dir ext idx"""
    x = cpu in ('6801', '6803')
    t = {}
    for m, o in list(IMP.items()) + (list(IMP01.items()) if x else []):
        t[m] = {'imp': (o, 0)}
    for m, o in list(REL.items()) + (list(REL01.items()) if x else []):
        t[m] = {'rel': (o, 1)}
    for m, (i, e) in RMW.items():
        t[m] = {'idx': (i, 1), 'ext': (e, 2)}
    for m, (im, d, i, e, n) in list(ACC.items()) + (list(ACC01.items()) if x else []):
        t[m] = {'dir': (d, 1), 'idx': (i, 1), 'ext': (e, 2)}
        if im is not None:
            t[m]['imm'] = (im, n)
    return t


def only01():
    return list(IMP01) + list(REL01) + list(ACC01)
