"""C01, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: an arbitrary handle (slot, generation) resolves after every operation exactly as the operation specifies (created, destroyed, unchanged), the slot/dense cross references and the free list are re-established, and every lookup accepts a handle exactly when it designates a live entity.')


def run(ctx):
    driver.run(ctx)
