"""C08, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: create returns a slot that was free or new with a generation no smaller than every one issued for it, generations never fall, a removal always raises the generation of its slot, and exhaustion panics.')


def run(ctx):
    driver.run(ctx)
