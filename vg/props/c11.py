"""C11, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The MIR of each operation, monomorphised for witness worlds, is interpreted abstractly from an arbitrary world satisfying the representation invariant; rule: for arbitrary borrow flags a runtime-checked access is granted exactly when no conflicting borrow of its columns exists, marks exactly its columns while the client runs, and restores every flag afterwards, also by unwinding.')


def run(ctx):
    driver.run(ctx)
