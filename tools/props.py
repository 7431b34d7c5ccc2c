"""The properties: single source of properties.jsonl and MANIFEST.json (written by tools/gen.py)."""

def P(id, title, statement, over, text, why, files, mech, obs=(), state=(), note=''):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=list(obs), state=list(state), note=note)


ENC_WHY = ('the reference programs use a few of the operand forms with one or two operand values each; the guarantee is about every instruction, operand form and '
           'operand value, including the boundaries between direct and extended addressing and the forms a processor lacks')

PROPS = [
P('C01', 'MOS 6500/6502/65C02 instructions are encoded exactly as the processor defines',
  'For every instruction and operand form of the selected processor (CPU 6500, 6502 or 65C02), the bytes produced are the opcode of that form followed by the operand, little-endian, '
  'using the page-zero form exactly when one exists and the operand is an already known value of 8 bits (or is forced with @). '
  'An instruction or operand form the processor lacks is refused with an error, whatever the operand value.',
  ['inputs', 'programs'], 'all instructions x operand forms x operand values of up to 16 bits, operands given as constants, labels (defined before or after) and expressions',
  ENC_WHY, ['src/cpu6502.c', 'src/scode.c', 'src/macro.c'],
  [('instruction table and operand classification', 'src/cpu6502.c'), ('byte emission', 'src/scode.c:insert8/insert16')], ['listing', 'code file']),
P('C02', 'Motorola 6800/6801/6803 instructions are encoded exactly as defined',
  'For every instruction and operand form of the selected processor (CPU 6800, 6801 or 6803), the bytes produced are the opcode of that form followed by the operand, big-endian, '
  'using the direct form exactly when one exists and the operand is an already known value of 8 bits. '
  'An instruction or operand form the processor lacks is refused with an error, whatever the operand value.',
  ['inputs', 'programs'], 'all instructions x operand forms x operand values of up to 16 bits, operands given as constants, labels (defined before or after) and expressions',
  ENC_WHY, ['src/cpu6800.c', 'src/scode.c', 'src/macro.c'],
  [('instruction table and operand classification', 'src/cpu6800.c'), ('byte emission', 'src/scode.c:insert8/insert16')], ['listing', 'code file']),
P('C03', 'Z80 instructions are encoded exactly as the processor defines',
  'With CPU Z80, every documented instruction with every operand combination (registers, indirect, indexed with displacement, immediate, bit number, vector, condition) '
  'produces exactly the bytes the processor defines for it, prefixes and displacement included. '
  'Operand combinations which do not exist, such as loading one memory cell from another or mixing IX and HL, are refused with an error.',
  ['inputs', 'programs'], 'all instructions x operand combinations x values of the immediates, addresses, displacements and bit numbers',
  ENC_WHY, ['src/cpuz80.c', 'src/scode.c'],
  [('instruction table, operand unification and prefix handling', 'src/cpuz80.c')], ['listing', 'code file']),
P('C04', 'Relative branches hold the displacement to their target or are refused',
  'A relative branch of any of the processors whose target lies within -128..+127 bytes of the next instruction is encoded with exactly that displacement, wherever the branch stands and '
  'whether the target is before or after it. A branch to any other target is refused with an error; no code file is left.',
  ['inputs', 'programs'], 'all branch instructions x origins x targets of 16 bits',
  'the reference programs hold some dozens of branches, none at the ends of the range; the guarantee is about every distance', ['src/cpu6502.c', 'src/cpu6800.c', 'src/cpuz80.c'],
  [('displacement computation and range check', 'src/cpu6502.c, src/cpu6800.c, src/cpuz80.c (relative addressing)')], ['listing', 'code file']),
P('C05', 'Numeric and ascii constants denote exactly their value',
  'A decimal, hexadecimal ($h, hH, 0Xh), octal (oQ), binary (%b, bB, 0Bb) or ascii constant, in upper or lower case, denotes its mathematical value; '
  "an ascii constant of up to four characters holds them most significant first, with the escapes \\t \\n \\r \\0 \\' \\\" and \\\\ standing for the one character they name. "
  'A constant with a wrong digit or character for its base, or one beyond 32 bits, is refused with an error.',
  ['inputs'], 'all digit strings and character strings up to the stated lengths',
  'a test can only sample digit strings; carries, the last representable value and the first beyond it, and each letter case at each position are inputs no test lists', ['src/operator.c', 'src/parse.c', 'src/filter.c'],
  [('conversion of each base', 'src/operator.c:cst*'), ('recognition of the notation', 'src/parse.c')], ['listing', 'code file']),
P('C06', 'Expressions evaluate by precedence, left to right, on typed operands',
  'Unary - and ~ bind tightest, then << and >>, then | & ^, then * and /, then + and -; binary operators of one precedence associate to the left and parentheses override; LO, HI, BIT, ADDR and {} extract what they name; '
  'the value (modulo 2^32) is the same wherever the expression stands, with or without blanks, and whether operands are constants or labels. '
  'Malformed expressions and operands of a wrong type (registers, mnemonics, macros, bit references) are refused with an error.',
  ['inputs', 'programs'], 'all expression shapes up to the bounds x all operand values; shift counts 0..31, / and >> on values of 0..2^31-1, no division by zero',
  'tests evaluate a handful of expressions on fixed values, which cannot tell apart operator orders and associativity in general', ['src/parse.c', 'src/operator.c', 'src/filter.c'],
  [('recursive decomposition at the rightmost operator of lowest precedence', 'src/parse.c:parse2'), ('operators', 'src/operator.c'), ('quote and parenthesis aware matching', 'src/filter.c:filter')], ['listing', 'code file']),
P('C07', 'Data directives place exactly the bytes they state',
  'DB, DW, DL and DDB place each operand of their list in 1, 2, 4 and 2 bytes in the byte order of the selected processor (big-endian for 6800/6801/6803 and without CPU, little-endian otherwise; DDB opposite), '
  'and warn exactly when an operand of DB, DW or DDB does not fit; ASC places exactly the characters of its string with the escapes \\t \\n \\r \\0 \\\' \\" \\\\ replaced; DS places exactly count bytes of its value (zero by default); '
  'ALIGN EVEN or ODD places one zero byte exactly when the address is not even or odd. Malformed operands are refused with an error.',
  ['inputs', 'programs'], 'all operand values of 32 bits, all strings up to 60 characters, DS counts and addresses within the bounds',
  'tests place a few values; the guarantee is about every value, each string character and escape at each place, and each count', ['src/pseudos.c', 'src/scode.c'],
  [('DB/DW/DL/DDB', 'src/pseudos.c:Xdc, stocke'), ('ASC, DS, ALIGN', 'src/pseudos.c:Xasc, Xds, Xalign'), ('byte emission', 'src/scode.c:insert*')], ['code file', 'listing']),
P('C08', 'A HEX code file is valid and holds exactly the assembled bytes',
  'Every program assembled without errors into Intel HEX (the default with CPU Z80, or OUTPUT HEX) leaves a file of well-formed records - right length fields and checksums, extended address records whenever the upper half '
  'of the address changes, no record across a 64K boundary, one end record at the end - which, read by the rules of the format, gives exactly the assembled bytes at their addresses.',
  ['programs', 'inputs'], 'programs of several blocks at any origins up to 32 bits, with gaps, sections, and all byte values',
  'reference files cover a few origins; record splitting at gaps, 16-byte limits and 64K boundaries and checksums depend on every address and byte', ['src/scode.c'],
  [('record buffering and writing', 'src/scode.c:setpc, insert8, flushscoderaw, closescodefile')], ['code file']),
P('C09', 'An S-record code file is valid and holds exactly the assembled bytes',
  'Every program assembled without errors into Motorola S-records (the default but for CPU Z80, or OUTPUT SCODE) leaves a file of well-formed records - right counts and checksums, S1, S2 or S3 records wide enough '
  'for their addresses, one end record at the end - which, read by the rules of the format, gives exactly the assembled bytes at their addresses.',
  ['programs', 'inputs'], 'programs of several blocks at any origins up to 32 bits, with gaps, sections, and all byte values',
  'reference files cover a few origins; record splitting at gaps, 16-byte limits and 64K boundaries and checksums depend on every address and byte', ['src/scode.c'],
  [('record buffering and writing', 'src/scode.c:setpc, insert8, flushscoderaw, closescodefile')], ['code file']),
P('C10', 'Every reference to a label holds the value of its definition',
  'In a program assembled without errors each reference to a label, before or after its definition, holds the address of the line which defines it or the value its EQU gives it (the latest given above the reference if it is redefined; '
  'a reference above the only definition holds that value), and the star label the address of its instruction; the number of labels, their order and what lies between do not matter. A program where this cannot be (undefined or doubly '
  'defined labels, labels which move when forward references resolve) is refused with an error and leaves no code file.',
  ['programs', 'inputs'], 'programs with labels on every kind of line, symbolic origins, gaps and values, up to hundreds of labels, and all reference orders among them',
  'two-pass consistency fails only for particular combinations of forward references and sizes, which the two reference programs per processor do not contain', ['src/label.c', 'src/parse.c', 'src/crasm.c', 'src/pseudos.c'],
  [('symbol table', 'src/label.c'), ('passes', 'src/crasm.c:crasm, pass'), ('EQU', 'src/pseudos.c:Xequ')], ['code file', 'listing']),
P('C11', 'Label names: which are legal, when two are one, and the scope of local ones',
  'A name of up to 36 letters, digits, periods and underscores which does not start with a digit is a label; two names are the same label exactly when they are equal but for the case of letters; any other spelling, and the names of '
  'mnemonics, pseudo-mnemonics and registers, are refused. A name starting with a period is local: visible within its CODE or DUMMY section or its macro call only, so the same name elsewhere is a different label.',
  ['inputs', 'programs'], 'all names within the bounds, symbolic at any position, and programs with local labels in many sections and macro calls',
  'tests use some dozens of names; a truncated comparison, a colliding local name or a wrongly accepted character shows only for particular pairs of names', ['src/label.c', 'src/crasm.c', 'src/macro.c'],
  [('name lookup', 'src/label.c:searchlabel, checklabel'), ('sections', 'src/pseudos.c:Xcode, Xdummy; src/macro.c:macrocall')], ['code file', 'listing']),
P('C12', 'Conditional assembly processes exactly the parts its conditions select',
  'IF with an expression, or two compared with = == != <> < > <= >=, followed by ENDC and possibly ELSE, processes the lines of exactly the part selected by the truth of the condition, at any nesting, around and inside macros and '
  'included files; the other part has no effect: no code, no definition, no error. Conditions which cannot be decided when read, and misplaced or missing ELSE and ENDC, are reported as errors and no code file is left.',
  ['inputs', 'programs'], 'all truth values of all conditions of nested conditionals, all values of compared operands within the bounds',
  'tests contain two conditionals; nesting depth, the interplay of ELSE with skipped parts and each comparison at its boundary are combinations no test enumerates', ['src/macro.c', 'src/crasm.c'],
  [('IF, ELSE, ENDC', 'src/macro.c:Xif, testtrue'), ('processing and skipping of lines', 'src/crasm.c:asmline')], ['code file', 'listing']),
P('C13', 'Macro calls assemble to the body with its parameters replaced',
  'A call of a macro, anywhere after its definition, assembles exactly like the lines of the body in which each \\1 ... \\9 is replaced by the text of that operand (nothing if it is missing), \\# by the number of operands and \\* by the '
  'operand field as written; operands are separated by commas outside quotes and parentheses. This holds for calls in macros, recursion, EXITM, labels on and in calls, and operands of any length a line allows. Wrong definitions and '
  'calls (unknown or doubly defined name, more than nine operands, nested or unterminated definition) are reported as errors and no code file is left.',
  ['inputs', 'programs'], 'all operand values and characters within the bounds, all parameters in all fields, calls nested to the documented depth',
  'tests expand a dozen calls; a parameter lost for one operand count, length, character or nesting depth shows only there', ['src/macro.c', 'src/crasm.c', 'src/filter.c'],
  [('definition and call', 'src/macro.c:Xmacro, macrocall, Xexitm'), ('expansion of a line', 'src/macro.c:linegets')], ['code file', 'listing']),
P('C14', 'INCLUDE assembles the named file as if its lines stood there',
  'A program whose lines are distributed over included files, nested and repeated as one likes, in macros or conditionals, gives exactly the code of the program with those lines in place; the last line of a file counts with or without a '
  'newline. Errors are reported with the number of the line in its own file, numbering resumes after INCLUDE, and a file which cannot be opened, or an inclusion without end, is reported and leaves no code file.',
  ['programs', 'inputs'], 'programs with symbolic origins and operands cut into up to 12 files, up to 8 deep, any text at the end of a file',
  'the single include test has one file; lost last lines, wrong resumption in a macro or conditional and wrong numbering depend on nesting and on where a file ends', ['src/macro.c', 'src/crasm.c'],
  [('INCLUDE', 'src/macro.c:Xinclude'), ('reading lines, end of a file', 'src/macro.c:linegets')], ['code file', 'listing']),
P('C15', 'Every error is reported and counted, and prevents a code file',
  'Each line with an error is reported once, with its number, whatever the options (-l and -s do not hide errors); the summary counts the errors and the warnings exactly; the correct lines around, if they do not depend on it, are assembled '
  'and listed with their code all the same. If there is an error "No code generated" is said and no code file is left, not even an older one; otherwise success is said and the code file named by -o is there; warnings never prevent code, and without -o no file is written.',
  ['programs', 'inputs'], 'programs with any subset of symbolic error conditions and any of some 200 ways of being wrong among correct lines with all operand values',
  'tests only assemble correct programs: no test has an error in it', ['src/crasm.c', 'src/xref.c', 'src/scode.c'],
  [('error, warning', 'src/crasm.c:error, warning'), ('removal of the code file', 'src/crasm.c:crasm'), ('summary', 'src/xref.c:result')], ['listing', 'code file']),
P('C16', 'No source text makes the program crash, hang or misreport',
  'Whatever bytes the source file, the included files and the command line contain, the program ends by itself with exit status 0, having said either success or failure in accordance with its error count, or with status 10 and a message '
  'about a fatal error; it never reads or writes outside its memory, uses undefined values, divides by zero in silence or runs forever, and a code file is left only if there was no error and is then valid.',
  ['inputs', 'programs'], 'arbitrary bytes at any place of lines, operands and programs using every feature; lines, names, operands, strings, bodies and nestings at and beyond every limit',
  'tests contain only well-formed short programs; buffer limits, missing operands and unexpected characters are reached by particular inputs only', ['src/crasm.c', 'src/filter.c', 'src/label.c', 'src/macro.c', 'src/parse.c', 'src/output.c', 'src/xref.c', 'src/pseudos.c'],
  [('reading and parsing lines', 'src/filter.c:parseline; src/macro.c:linegets'), ('fixed-size buffers', 'src/crasm.c; src/macro.c; src/label.c; src/output.c'), ('fatal errors', 'src/crasm.c:fatal')], ['exit status', 'listing', 'code file', 'memory errors']),
P('C17', 'The listing shows every line with its number, text and exactly its code',
  'The listing shows each line of the program in order with its line number (M for expanded macro lines, C for lines not selected by a conditional), its exact text, and the address and bytes it places in the code - in full up to 20 bytes - or the value of an '
  'EQU, of an origin or of a label in a DUMMY section; code of a macro call is shown at the call. Errors and warnings stand above their line. The summary gives the last address and the code length.',
  ['programs', 'inputs'], 'programs of all kinds of lines with symbolic operands, origins and characters of text, lines of any length, macro calls, included files, conditionals',
  'the tests switch the listing off altogether (-l); whether the displayed address, bytes and text agree with the code at row breaks, gaps, tabs and long lines is not tested for any input', ['src/output.c', 'src/scode.c', 'src/crasm.c', 'src/macro.c', 'src/xref.c'],
  [('code column', 'src/output.c:outputbyte, outputaddr'), ('line and text', 'src/output.c:outputline, outputcar'), ('summary', 'src/xref.c:result')], ['listing', 'code file']),
P('C18', 'Listing options and directives select what is listed, nothing else',
  'LIST, MLIST, CLIST and ILIST switch the listing of all lines, of macro expansions, of lines not selected by conditionals and of included files from their line on (by default on, off, on, off; a change of LIST in a macro or included file ends with it); '
  '-l suppresses the lines, -s the warnings; NAM, PAGE and SKIP lay pages out. None of them changes the code, the errors or the symbol table, whatever their place.',
  ['programs', 'inputs'], 'random programs with listing directives at any place and under symbolic conditions, and every combination of the options',
  'no test uses a listing directive or option but -l; interactions of directives with macros, files, passes and options are combinations no test samples', ['src/pseudos.c', 'src/macro.c', 'src/crasm.c', 'src/output.c'],
  [('directives', 'src/pseudos.c:Xlist, Xmlist, Xclist, Xilist'), ('restoring the state', 'src/macro.c:linegets, Xinclude, macrocall'), ('options', 'src/crasm.c:main, crasm, pass')], ['listing', 'code file']),
P('C19', 'How a program is written - blanks, case, comments - does not matter',
  'The code, symbol values, warnings and errors of a program do not depend on the case of letters outside strings, on the kind and number of blanks (spaces or tabs) between label, mnemonic, operand, comment and around the commas, operators and parentheses of operands, '
  'on comments (whatever characters they hold) and empty lines, on labels standing on lines of their own, on = or EQU, or on how lines and the file end (LF or CR LF, final newline or none).',
  ['inputs', 'programs'], 'all cases of all letters, blanks and tabs at any place, comments with any characters, in programs with every mnemonic and form of operand',
  'tests are written in one consistent style; a form which is recognised only with, or without, a blank or in one case shows only for that spelling', ['src/filter.c', 'src/crasm.c', 'src/label.c', 'src/cpu6502.c', 'src/cpu6800.c', 'src/cpuz80.c'],
  [('operand patterns', 'src/filter.c:filter'), ('splitting of lines', 'src/crasm.c:asmline; src/macro.c:linegets'), ('operand parsers', 'src/cpu6502.c, src/cpu6800.c, src/cpuz80.c')], ['code file', 'listing']),
P('C20', 'The program counter: assignments to *, CODE and DUMMY sections',
  'Each line stands at the address following the bytes of the line before, or at the value last assigned to * if that came later, whatever the expression (labels, * itself, forward references); * and labels stand for it. Lines between DUMMY and the next CODE '
  'advance the address and define labels as any others but put nothing into the code file and the code length, which are otherwise those of the program; this state ends only with CODE or the end of the program. Code before the first assignment is refused, and '
  'the summary gives the address of the last byte and the number of bytes generated.',
  ['programs', 'inputs'], 'random programs with any mixture of origins, gaps, sections, conditionals, macros and files, all values of the origins and distances',
  'the test programs have one or two origins and no DUMMY section followed by code', ['src/crasm.c', 'src/scode.c', 'src/pseudos.c'],
  [('advancing the counter', 'src/crasm.c:asmline, pass'), ('sections', 'src/pseudos.c:Xcode, Xdummy'), ('bytes', 'src/scode.c:insert8, setpc')], ['code file', 'listing']),
P('C21', 'The symbol table lists every label once, in order, with value and use',
  'After an assembly without errors (not with -l), and always with -x, the symbol table lists each label which is not local and each macro exactly once and in alphabetical order, in upper case, with the value it has in the code at the end of the program; '
  'labels which nothing assembled refers to are marked ?, labels referred to before their definition ^, names referred to but never defined as Undefined. Nothing else is listed. It does not depend on the number of labels or the size of the pages.',
  ['programs', 'inputs'], 'programs with any number of labels defined and referenced in all ways, symbolic values and names, pages of all sizes',
  'the stable tests run with -l: none looks at the symbol table; ordering, marks and columns depend on the set of names, on passes and on page widths', ['src/xref.c', 'src/label.c', 'src/crasm.c'],
  [('table', 'src/xref.c:xref2, printlabel'), ('marks', 'src/label.c:findlabel, deflabel, undeflabels'), ('when', 'src/crasm.c:crasm')], ['listing']),
P('C22', 'An operand which does not fit is truncated with a warning, or refused',
  'A number given for a byte (immediate operand, Z80 port or displacement, DB, initialiser of DS) or a word (DW, DDB) is placed in full if it fits, without a warning; otherwise its low bits are placed and there is exactly one warning for it, '
  'or, where the processor has no instruction of that form (6502 page zero forms, 6800 n,x), the line is refused. 6502 and 6800 operands which do not fit page zero get the absolute form. An operand entirely in parentheses which is no addressing mode gives a warning, one only starting and ending with them none.',
  ['inputs'], 'all 16-bit values (32-bit for data directives) of every operand of every instruction',
  'a limit off by one, a missing warning for one instruction, or a silent truncation shows only for particular operand values', ['src/cpu6502.c', 'src/cpu6800.c', 'src/cpuz80.c', 'src/pseudos.c', 'src/parse.c'],
  [('6502', 'src/cpu6502.c:standard'), ('6800', 'src/cpu6800.c'), ('Z80', 'src/cpuz80.c:insert'), ('data', 'src/pseudos.c:db, Xds')], ['code file', 'listing']),
P('C23', 'Pages: rows, columns, headers and numbers as PAGE and NAM ask',
  'Every page of the listing begins with one header line holding the program name, the title given by NAM (at most 30 characters) and the page number, counting from 1 without a gap, followed by an empty line; it has as many lines as PAGE asks for (66 by default), the last two of them empty, '
  'and no header or line beyond the width; with 0 rows there is one header and no division. Paper sizes outside 0 or 10..200 rows and 39..999 columns are refused and nothing changes, PAGE alone starts a new page and SKIP n leaves n lines. Whatever the paper, the lines of the listing are the same, in the same order, and all of them are there; the code too.',
  ['programs', 'inputs'], 'programs of all kinds of lines, every number of rows and columns, every title',
  'the stable tests run with -l and never see a page; page breaks depend on the rows asked for and on where each error, macro line or table entry falls', ['src/output.c', 'src/pseudos.c', 'src/xref.c'],
  [('pages', 'src/output.c:outputraw, outputEOP, setpage, settitle'), ('directives', 'src/pseudos.c:Xpage, Xskip, Xnam')], ['listing']),
P('C24', 'Options in any arrangement; failures of files and memory are reported',
  'The options s, l and x may be written in any order, grouping and repetition before, between or behind the file names, with the same result: -s only removes the warnings, -l the listing but for errors and the summary, the code file does not depend on them and is the file named by -o; without -o no file is written. '
  'An unknown option, no input or two inputs are answered with an explanation and a failure status and nothing is assembled, a source or code file which cannot be opened with a message, a failure status and no change of files. If anything fails during the run - reading, writing, closing, opening a file, or memory, anywhere - '
  'the program still ends by itself, and reports success only with the very code file it writes when nothing fails; otherwise it says so and leaves no code file that looks complete.',
  ['fault_sequences', 'inputs', 'configurations'], 'all option words and arrangements; every place at which a read, write, open, close or allocation can fail, once or permanently',
  'no test runs the program with options other than -o and -l, or with anything failing; a fault may strike at any of thousands of places', ['src/crasm.c', 'src/scode.c', 'src/macro.c', 'src/label.c'],
  [('options', 'src/crasm.c:main, syntax, crasm'), ('code file', 'src/scode.c:insert8, scodebyte, closescodefile'), ('sources', 'src/macro.c:linegets, Xinclude'), ('memory', 'src/label.c:makelabel, src/macro.c:Xmacro')], ['exit status', 'code file', 'listing']),
]
