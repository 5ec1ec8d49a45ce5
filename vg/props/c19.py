"""C19, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: the same feature-independent specifications of all operations hold for every analysed combination of features and build profile (wrapping_version only at the exhausted version, events only through its logs).')


def run(ctx):
    driver.run(ctx)
