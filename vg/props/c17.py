"""C17, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: with the events feature each log gains exactly the handle created or destroyed, nothing else, also through whole-world and macro paths, clones copy the logs, and iteration and clearing follow the logs.')


def run(ctx):
    driver.run(ctx)
