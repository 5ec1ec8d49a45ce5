"""C06, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: the client calls of every iteration tile [0, len) of each matched archetype exactly once (or a prefix ended by Break or a panic), each showing the handle and the cells of the entity at that position; slices cover exactly [0, len).')


def run(ctx):
    driver.run(ctx)
