"""C16: no source text makes the program fail."""
import os, re, random, z3
from tmpl import *
from asm import image, Listing, parse_code, Bad

BOUNDS = ('every line of up to 2 arbitrary bytes (all 256 values; quick: 3 of 12 representative characters, thorough: 3 of all printable ones), operands of 1 arbitrary byte or 2 characters (quick: 21 representative ones) after each mnemonic shape, one or two arbitrary bytes at any of some 600 places of programs using all features; '
          'lines, names, operands, strings, macro operands and bodies at and beyond each length limit with arbitrary bytes at the end; expressions nested to any depth that fits; blocks of symbolic size; page sizes, skips and titles symbolic; '
          'hundreds of labels, errors and macro calls; runaway recursion')
OUTSIDE = 'more than three arbitrary bytes together; blocks of more than 64K; memory exhaustion'
ANY = bytes(range(256))
TEXT = bytes([9]) + bytes(range(32, 127))
SOME = bytes(sorted(b' \t1a;,()\'"\\$=+-*.{<\xe9'))          # one or two of each kind the program distinguishes
FEW = bytes(sorted(b' 1a;,(\'"\\=*.'))
CPUS = ('6502', '6800', 'z80', '65C02')


def sane(job, path):
    """the program ended by itself, says how it went, and a code file is there only if all was well - and is valid"""
    for r in path.runs:
        if r.status != 'exit':
            continue
        ls = Listing(r.listing)
        ok, no = ls.tailline(r'^Successful assembly')[0], ls.tailline(r'^No code generated')[0]
        if r.code == 10:
            if not ls.fatal:
                path.fail('exit status 10 without a message')
            continue
        if r.code != 0:
            path.fail('exit status %s' % r.code); continue
        if (ok is None) == (no is None):
            path.fail('neither success nor failure is reported')
        if no is not None and r.has('o.hex'):
            path.fail('code file in spite of errors')
        e, m = ls.tailline(r'^ERRORS: +(\d+) *$')
        if m and (m.group(1) == '0') != (ok is not None):
            path.fail('error count and success disagree')
        if r.has('o.hex'):
            image(path, r.file('o.hex'))


def mk(name, text, files=None, args=None, **kw):
    """text: function of job giving the program"""
    kw.setdefault('maxpaths', 20000)
    kw.setdefault('maxtime', 120)
    j = Job(name, sane, **kw)
    t = text(j)
    f = t if isinstance(t, dict) else {'a.asm': t}
    if args:
        j.add(f, args=['crasm'] + args)
    else:
        j.add(f)
    return j


MNEMO = {
    '6502': ['lda', 'sta', 'jmp', 'asl', 'bne', 'nop'],
    '65C02': ['lda', 'jmp', 'inc', 'stz'],
    '6800': ['ldaa', 'clr', 'bne', 'ldx', 'aba', 'bsr'],
    'z80': ['ld', 'ld a,', 'ld (ix', 'add', 'jr', 'jp', 'inc', 'push', 'ex', 'bit', 'in', 'out', 'rst', 'im', 'call', 'ret', 'sub', 'sla'],
}
PSEUDO = ['db', 'dw', 'dl', 'ddb', 'ds', 'asc', 'align', 'equ', 'org', 'if', 'else', 'endc', 'macro', 'endm', 'exitm', 'include', 'list', 'clist', 'ilist', 'mlist', 'nam', 'page', 'skip', 'fail', 'output', 'code', 'dummy', 'cpu', 'mac']
# lines using everything, with ~ where arbitrary bytes are put
LINES = ['lab~el db 1', 'lab db~ 1', ' db 1~', ' db ~1', ' db (1+~2)*3', ' dw lab~+1', ' asc "a~b"', " asc '~'", ' asc "a\\~"', " db '~'", " db '\\~'", ' dw $~1', ' dw 1~', ' dw %~', ' dw @7~', ' dw 9~h', 'x ~ 5', 'x = ~5', 'x~= 5', '~ = 5', ' ds ~3', ' ds 3~,1', ' ds 3,~',
         ' align ~', ' if ~1', ' if 1~1', ' if lab~', 'm~ macro', ' mac ~1,2', ' mac 1~2', ' mac "~",2', ' mac (~),2', ' mac 1,2~', 'la~ mac', ' include ~', ' nam ~', ' page 66~', ' page ~,76', ' skip ~', ' fail ~', '; ~', ' ~', '~', ' db 1 ; ~', '.lo~c db 1', ' * = ~', ' * ~ $1000', ' cpu ~', ' list ~', ' output ~',
         ' db LO(~)', ' db ~(5)', ' db LO~(lab)', ' dw lab{~}', ' dw ADDR(lab{3}~)', ' db 1<~2', ' db -~1', ' lda #~', ' lda (~),y', ' lda (5~,x', ' lda 5,~', ' ldaa 5,~', ' ldaa #~', ' ldaa ~', ' ld (ix~5),a', ' ld (~),hl', ' ld ~,5', ' ld a~b', ' ex af,~', ' bit 3,~', ' jp ~,5', ' in a,~', ' push ~', ' bne ~']


def prog(cpu, *lines, pre=()):
    return ''.join(l + '\n' for l in (' cpu ' + cpu,) + tuple(pre) + ('mac macro', ' db \\1,\\2', ' asc "\\*"', ' endm', ' * = $1000', 'lab db 1') + lines + (' dw lab',))


def jobs(tier):
    J = []
    big = tier == 'thorough'
    # whole lines of arbitrary bytes
    for cpu in CPUS[:3]:
        for n in (1, 2, 3):
            if n == 3 and cpu != '6502' and not big:
                continue
            dom = ANY if n < 3 else TEXT if big else FEW
            for pfx in ('', ' ', 'lab2 '):
                if n == 3 and pfx == 'lab2 ' and not big:
                    continue
                J.append(mk('%s line %r+%d' % (cpu, pfx, n), lambda j, cpu=cpu, n=n, pfx=pfx, dom=dom: prog(cpu, pfx + tx([j.byte(dom) for _ in range(n)]), ' db 2')))
        J.append(mk('%s text of 2' % cpu, lambda j: tx([j.byte(ANY) for _ in range(2)])))
    # operands
    for cpu in CPUS:
        for m in MNEMO[cpu] + (PSEUDO if cpu == 'z80' else []):
            for n in (1, 2):
                J.append(mk('%s operand %s+%d' % (cpu, m, n), lambda j, cpu=cpu, m=m, n=n: prog(cpu, (' ' if m not in ('equ', 'macro') else 'q ') + m + ('' if m[-1] == ',' or m == 'ld (ix' else ' ') + tx([j.byte(ANY if n == 1 else TEXT if big and m != 'include' else SOME if m != 'include' else FEW) for _ in range(n)]), ' db 2')))
    # bytes in the middle of lines; several lines share them
    for k, l in enumerate(LINES):
        cpu = 'z80' if ' ld ' in l or ' ex ' in l or ' bit' in l or ' jp' in l or ' in ' in l or ' push' in l else '6800' if 'ldaa' in l else '6502'
        j = mk('insert %d %s' % (k, l), lambda j: prog(cpu, l.replace('~', j.byte(ANY).text), ' db 2', ' else', ' endc', ' endm'))
        J.append(j)
        if big or k % 4 == 0:
            J.append(mk('insert two %d %s' % (k, l), lambda j: prog(cpu, l.replace('~', tx([j.byte(TEXT if big else SOME), j.byte(TEXT if big else SOME)])), ' db 2', ' endc')))
    # one arbitrary byte instead of each character of the test programs and of the templates of the manual
    src = []
    here = os.path.dirname(os.path.abspath(__file__))
    rnd = random.Random(5)
    base = [' cpu 6502', 'cout = $fded ; display', ' * = $300', ' code', 'pstring ldy #0', '.1 lda message,y', ' beq .2', ' jsr cout', ' iny', '.2 bne .1', ' rts', 'message asc "This is\\0"', ' code', 'twice macro', ' if \\#=2', ' db \\1,\\2', ' exitm', ' else', ' dw \\1*2', ' endc', ' endm',
            ' twice 1', ' twice 2,3', 'x equ ($ff&message)+1', ' dw x,LO(x),-x', ' ds 3,x', ' if x>2', ' page 66,80', ' endc', ' lda (x),y', ' mlist on', ' nam Title', ' include inc', ' skip 2', ' dummy', 'd db 1', ' code', ' list off', ' db d']
    text = ''.join(l + '\n' for l in base)
    places = [i for i in range(len(text))]
    step = 1 if big else 6
    for i in places[(0 if big else 1)::step]:
        J.append(mk('program byte %d' % i, lambda j, i=i: {'a.asm': text[:i] + j.byte(ANY).text + text[i + 1:], 'inc': ' db 1\n'}))
    # limits of lengths
    for n in (247, 248, 249, 250, 251, 255, 256, 257, 300, 498, 499, 1200):
        for k, (a, b, z) in enumerate(((' db 1', ' ', '5'), ('; ', 'x', 'y'), ('', 'l', 'a'), (' asc "', 'x', '"'), (' db ', '1+', '1'), (' mac ', 'a', ',1'), (' fail ', 'E', 'x'), (' include ', 'f', 'f'), (' db ', '(', ')'), (' db ', '-', '1'), (' mac ', ',', '1'), (' ', 'm', ' 1'), (' nam ', 'T', 'T'), (' dw lab', '{', '}'))):
            if not big and (k + n) % 3 and n > 257:
                continue
            J.append(mk('length %d of %d' % (n, k), lambda j: prog('6800', (a + b * ((n - len(a) - len(z) - 2) // len(b))).ljust(n - len(z) - 2, b[0]) + j.byte(ANY if k != 7 else FEW).text + z + j.byte(b' \t1);\\"x').text, ' db 2'), maxpaths=2000))
    # deep and balanced parentheses, signs, operators
    for n in (10, 40, 60, 100, 118):
        for k, (a, b) in enumerate((('(', ')'), ('-', ''), ('~', ''), ('LO(', ')'), ('1+(', ')'), ('2*(1-', ')'), ('(1<<', ')'), ('$', ''), ('ADDR(', ')'), ('lab{', '}'))):
            m = min(n, (238 - 10) // (len(a) + len(b)))
            if m < n and n not in (60, 118):
                continue
            J.append(mk('nested %d %s' % (m, a), lambda j: prog('6800', ' dw ' + a * m + j.byte(TEXT).text + b * m, ' db 2'), maxpaths=400, maxinst=200_000_000))
    # quotients and shifts at the ends of the host's numbers
    for k, t in enumerate(('1<<(48+%s)', '(0-1)<<(48+%s)', '$FFFFFFFF*$10000*(32768+%s)', '~(1<<63)+%s', '-(1<<63)-%s', '1<<(%s*8)')):
        for m, d in enumerate(('-1', '(0-1)', '-2', '~0', '(%s-8)')):
            def text(j, t=t, d=d):
                a, b = j.bits(4), j.bits(4)
                w = d % b if '%s' in d else d
                return prog('6800', 'x = ' + t % a, 'y = x/' + w, 'z equ ' + w, 'u = x/z', ' dw (' + t % a + ')/' + w, 'v = x>>' + str(b), ' db 2')
            J.append(mk('quotient %d,%d' % (k, m), text, maxpaths=600))
    # names, strings
    for n in (35, 36, 37, 47, 48, 49, 50, 100, 200):
        J.append(mk('name of %d' % n, lambda j: prog('6800', 'n' * (n - 2) + tx([j.byte(TEXT), j.byte(TEXT)]) + ' db 1', ' dw ' + 'n' * n, '.' + 'n' * (n - 1) + ' db 1', ' dw .' + 'n' * (n - 1)), maxpaths=2000))
        J.append(mk('macro name of %d' % n, lambda j: prog('6800', 'k' * n + ' macro', '.a dw .a', ' endm', ' ' + 'k' * (n - 1) + j.byte(TEXT).text + ' 1', 'l' * n + ' ' + 'k' * n), maxpaths=600))
    # symbolic sizes and values
    for cpu in ('6502', None):
        pre = ' cpu 6502\n' if cpu else ''
        J.append(mk('%s ds' % cpu, lambda j: pre + ' * = 0\n ds %s,%s\n db 1\n' % (j.bits(5), j.bits(4)), maxpaths=300))
        J.append(mk('%s ds negative' % cpu, lambda j: pre + ' * = 0\n ds -%s\n db 1\n' % j.bits(6), maxpaths=300))
        J.append(mk('%s origin' % cpu, lambda j: pre + ' * = %s-%s\n db 1,2,3\n' % (j.bits(4), j.bits(4)), maxpaths=1000))
    J.append(mk('skip', lambda j: prog('6800', ' skip %s-20' % j.bits(8)), maxpaths=400))
    J.append(mk('skip wide', lambda j: prog('6800', ' skip %s<<28' % j.bits(6)), maxpaths=400))
    for q in ('', '-'):
        J.append(mk('page lines%s' % q, lambda j: prog('6800', ' page %s%s,76' % (q, j.bits(8)), *([' db 1'] * 30)), maxpaths=400, maxinst=200_000_000))
    for w in (range(30, 70, 1) if big else (38, 39, 40, 45, 52, 57, 58, 60, 61, 62, 75, 76, 77, 120, 200, 998, 999, 1000)):
        J.append(mk('page width %d' % w, lambda j: prog('6800', ' page 66,%d' % w, ' db 1,2,3,4,5,6,7,8,9,10,11', 'label%s db 1 ; %s a rather long comment which reaches far to the right, and further and further on until the end' % (j.byte(TEXT), j.byte(TEXT)), ' ds 50', 'a_long_label_to_fill_the_line_________ asc "and a long string in it, too..........." ; with comment',
                                                        'y = 5', ' nosuch', ' fail an error message of some length which goes on and on and on and on and on and on', '; ' + 'word ' * 40, ';' + 'x' * 240, ' asc "' + 'y' * 230 + '"'), maxpaths=1000, maxinst=200_000_000))
    J.append(mk('page width', lambda j: prog('6800', ' page 66,%s' % j.bits(10), ' db 1,2,3,4,5,6,7,8,9', '  asc "' + 'y' * 130 + '" ; ' + 'c' * 60), maxpaths=1100, maxinst=300_000_000, maxtime=100) if big else mk('page width', lambda j: prog('6800', ' page 66,%s+35' % j.bits(5), ' db 1,2,3,4,5,6,7,8,9', '  asc "' + 'y' * 130 + '" ; ' + 'c' * 60), maxpaths=1100, maxinst=300_000_000, maxtime=100))
    J.append(mk('title', lambda j: ' nam %s\n' % tx([j.byte(ANY) for _ in range(2)]) + prog('6800', ' nam ' + 'T' * 30, ' page', ' nam ' + 'T' * 31, ' page'), maxpaths=2000))
    # endless things
    J.append(mk('runaway macro', lambda j: prog('6800', 'r macro', ' db %s' % j.bits(3), ' r', ' endm', ' r')))
    J.append(mk('runaway pair', lambda j: prog('6800', 'r macro', ' s \\1', ' endm', 's macro', ' r \\1', ' endm', ' r %s' % j.byte(TEXT))))
    J.append(mk('runaway include', lambda j: {'a.asm': prog('6800', ' include f'), 'f': ' db %s\n include f\n' % j.bits(3)}))
    J.append(mk('runaway include of itself', lambda j: prog('6800', ' db %s' % j.bits(3), ' include a.asm')))
    J.append(mk('unending if', lambda j: prog('6800', *([' if %s' % j.bits(1)] * 120)), maxinst=200_000_000))
    J.append(mk('unending macro', lambda j: prog('6800', 'q macro', *([' db %s' % j.bits(1)] * 30))))
    J.append(mk('empty', lambda j: ''))
    J.append(mk('no final newline', lambda j: ' cpu 6800\n * = 0\n db 1\n' + tx([j.byte(TEXT) for _ in range(2)]), maxpaths=2000))
    J.append(mk('nul', lambda j: ' cpu 6800\n * = 0\n db 1\0,2\n\0 db 3\n db %s\n' % j.byte(ANY)))
    # many things
    for n in (99, 100, 101, 250, 600 if not big else 3000):
        J.append(mk('%d labels' % n, lambda j: prog('6800', *['l%d dw l%d' % (k, (k * 7 + 1) % n) for k in range(n)] + [' db %s' % j.bits(3)]), maxinst=400_000_000))
        J.append(mk('%d bad labels' % n, lambda j: prog('6800', *[' dw l%d' % k for k in range(n)] + [' db %s' % j.bits(3)]), maxinst=400_000_000))
    J.append(mk('many calls', lambda j: prog('6800', *['.a mac .a,%s' % j.bits(2)] + [' mac 1,%d' % (k & 63) for k in range(120)]), maxinst=400_000_000))
    J.append(mk('many sections', lambda j: prog('6800', *[x for k in range(100) for x in (' code', '.a db %d' % k)] + [' db %s' % j.bits(2)]), maxinst=400_000_000))
    # operands of macros
    for n in (57, 58, 59, 60, 61, 62, 100, 200, 230):
        J.append(mk('macro operand of %d' % n, lambda j: prog('6800', 'v macro', ' asc "\\1"', ' asc "\\1\\1\\1\\1\\1"', ' db \\*', ' \\1', '\\1\\2\\3\\4\\5\\6\\7\\8\\9\\#\\*', ' endm', ' v ' + 'o' * (n - 2) + tx([j.byte(TEXT), j.byte(TEXT)])), maxpaths=1500))
    # lines of macros which grow beyond what a line may hold: by characters, operands, their number or all of them
    for n in range(228, 272) if big else (235, 240, 243, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 260, 266):
        for k, (unit, size) in enumerate((('a', 1), ('\\#', 1), ('\\1', 2), ('\\2', 30), ('\\*', 36), ('\\3', 59))):
            def text(j, n=n, unit=unit, size=size):
                # the part before: as many units of the longest operand as fit, then the one in question
                fixed = ['\\3'] * 3 if size == 1 and unit != 'a' else ['\\3'] * (2 + n % 2)
                room = n - 6 - 59 * len(fixed)
                body = ' asc "' + ''.join(fixed)
                if size < 59:
                    body += 'x' * (room % size) + unit * (room // size)
                body += 'b' * (n % 7)
                return prog('6800', 'gr macro', body + '"', ' db 3', body + j.byte(TEXT).text + '"', ' endm', ' gr 12,%s,%s' % ('y' * 30, 'z' * 58 + j.byte(b'z9 ').text), ' db 2')
            J.append(mk('expansion %d,%d' % (n, k), text, maxpaths=600))
    J.append(mk('macro backslashes', lambda j: prog('6800', 'v macro', ' asc "\\%s"' % j.byte(ANY), ' db \\\\%s' % j.byte(b'19*#x\\'), '\\', ' endm', ' v 1,2', ' v', ' v "%s"' % j.byte(TEXT)), maxpaths=3000))
    for n in (8, 9, 10, 11, 30):
        J.append(mk('%d operands' % n, lambda j: prog('6800', 'v macro', ' db \\9', ' endm', ' v ' + ','.join(['1'] * (n - 1) + [j.byte(TEXT).text])), maxpaths=300))
    # command lines
    for args in ([], ['-'], ['-o'], ['-o', 'o.hex'], ['-q', 'a.asm'], ['a.asm', 'a.asm'], ['-o', 'o.hex', '-o', 'p.hex', 'a.asm'], ['-lsxo', 'o.hex', 'a.asm'], ['nosuch.asm'], [''], ['-x', '-', 'a.asm'], ['-ol', 'a.asm'], ['-x', 'a.asm', '-o']):
        j = Job('command line %s' % ' '.join(args), lambda job, path: None)
        v = j.bits(2)
        j.add({'a.asm': prog('6800', ' db %s' % v)}, args=['crasm'] + args)
        J.append(j)
    return J
