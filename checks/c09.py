"""C09: S-record code files."""
import recs

BOUNDS = ('one block of 1..40 bytes at every 16-bit origin and of 1..33 bytes at every 32-bit origin; two blocks of up to 20 bytes at every pair of 16-bit (24-bit) origins; three blocks across symbolic banks; '
          'a block displaced by -40..16 bytes against the end of the one before; words, strings and DS across a 64K boundary at every offset 0..17; programs with gaps of 0..31 bytes, DUMMY parts, macros and conditionals; '
          'a record of 16 wholly symbolic bytes; OUTPUT in every spelling with and without CPU 6502, 6800, Z80')
OUTSIDE = 'code beyond address 2^32-1; OUTPUT after code was already generated; the file without any code'


def jobs(tier):
    return recs.jobs_for('SCODE', tier)
