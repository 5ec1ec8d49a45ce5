"""C13, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: a clone has the same len, capacity, version, slots, handles and free list with every component cloned once, shares no block with its original, satisfies the representation invariant, starts unborrowed and leaves the original unchanged.')


def run(ctx):
    driver.run(ctx)
