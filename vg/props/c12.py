"""C12, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: len, capacity, is_empty and the creation results change exactly as specified, no column is reallocated while a position is free, the free list always holds capacity - len slots and creation panics only at 2^24.')


def run(ctx):
    driver.run(ctx)
