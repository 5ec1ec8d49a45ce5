"""C02, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: after every operation the entity behind an arbitrary handle holds, in every column, the values it held before (or those written or passed in), and every access path (views, borrows, finds, iterators, slices) shows those very cells.')


def run(ctx):
    driver.run(ctx)
