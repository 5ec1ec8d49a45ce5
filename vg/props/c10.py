"""C10, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: in every state left by unwinding (component drop, client closure, library panic, allocation limits) the representation invariant holds again, every entity is fully present or fully absent, borrow flags are restored, and nothing was dropped twice or left dangling.')


def run(ctx):
    driver.run(ctx)
