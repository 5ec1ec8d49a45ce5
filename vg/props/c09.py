"""C09, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: a direct handle is accepted exactly while the archetype version it carries is current, minted with the current position and version, any removal raises the version, and while the version is unchanged no entity moves.')


def run(ctx):
    driver.run(ctx)
