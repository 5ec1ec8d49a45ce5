"""C04, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: in every final state, normal or unwinding, each component value has been dropped or handed out exactly as often as specified (world drop: each live value once), and blocks are freed exactly when their owner goes away.')


def run(ctx):
    driver.run(ctx)
