"""C03, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: for an arbitrary key and version, forged or foreign, every lookup, access and destruction stays free of undefined operations, accepts exactly the handles that designate a live entity, and panics only for handles this world cannot have issued.')


def run(ctx):
    driver.run(ctx)
