"""Notes for DESIGN.md."""
ORACLE = {
 'C01': 'lib/isa6502.py, the opcode table by addressing mode from the data sheets; bytes and their addresses in code file and listing; every pair outside the table must be refused.',
 'C02': 'lib/isa6800.py, likewise.',
 'C03': 'lib/isaz80.py: an encoder of the documented instruction set by bit fields (not a table copied from the source).',
 'C04': 'target minus address of the next instruction as a 16-bit term, its range as the condition for acceptance; both sides are decided.',
 'C05': 'the value as the sum of symbolic digits times powers; the limit 2^32 as a condition over them.',
 'C06': 'a separate evaluator over expression trees from which the text is made.',
 'C07': 'byte lists made beside the text.',
 'C08': 'an independent HEX reader over symbolic characters (lib/asm.py: image): lengths, checksums, extended addresses, end record; the resulting map of address to byte equals the expected one, nothing more, nothing twice.',
 'C09': 'an independent S-record reader, likewise.',
 'C10': 'the model of definitions and references beside the text; lib/world.py.',
 'C11': 'equality of names as a formula over their characters after case folding.',
 'C12': 'a tree interpreter over symbolic conditions; lib/world.py.',
 'C13': 'textual substitution done on the tree, before the text exists; lib/world.py.',
 'C14': 'the program with the lines in place; line numbers per file; lib/world.py.',
 'C15': 'the list of wrong lines, each known to be wrong for a reason of the manual; lib/world.py.',
 'C16': 'exit status, consistency of the summary with the messages, validity of the code file, and the memory model of the engine.',
 'C17': 'rows expected from the tree: number or prefix, text (tabs expanded), bytes with addresses, values; lib/lst.py, lib/world.py.',
 'C18': 'the states of the directives interpreted on the tree; comparison of runs under different options; lib/world.py.',
 'C19': 'relational: the varied program and its plain form run in the same job over the same variables; codes, values, messages equal.',
 'C20': 'the counter interpreted on the tree; lib/world.py.',
 'C21': 'the set of definitions and uses on the tree; order as a formula over symbolic names; lib/world.py.',
 'C22': 'conditions of fitting as formulas over the operand; bytes are the low bits; exactly one warning.',
 'C23': 'the program on pages against the same program on one endless page; header, lengths and numbers computed.',
 'C24': 'the run without faults; what each option means; every message and exit status.',
}
COST = {'C01': 30, 'C02': 20, 'C03': 7, 'C04': 6, 'C05': 10, 'C06': 63, 'C07': 33, 'C08': 66, 'C09': 67, 'C10': 80, 'C11': 47, 'C12': 31, 'C13': 31, 'C14': 19, 'C15': 15, 'C16': 143, 'C17': 45, 'C18': 74, 'C19': 56, 'C20': 75, 'C21': 40, 'C22': 29, 'C23': 15, 'C24': 14}
MISSED = set('c11-segment-wrap c12-bit-compare c15-pass2-only c21-bit-value c14-resume-256 c20-codelen c23-many-pages c03-jr-cond c17-back-in-macro c16-expansion c10-star-in-list c10-48-characters c14-exitm-number c15-else-count c15-older-file c17-equ-in-macro c17-last-address c20-setpc16 c23-shorter-page c23-title31 c11-digit-label c03-im-byte c17-include-in-macro c20-error-advance c07-ds-large'.split())
