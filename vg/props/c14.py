"""C14, decided by the abstract interpreter (vg/eng)."""
from ..eng import conv, driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('Every public conversion between Entity<A>, EntityAny, EntityDirect<A>, EntityDirectAny, raw pairs, archetype ids and the generated '
           'Select* enums, Eq and Hash are interpreted for an arbitrary key (any index below 2^24, any archetype id, any generation; any raw '
           'pair), in a world with explicit, implicit, non-contiguous and extreme ids. Rule: the result is a known function of the key: the '
           'same handle, or failure exactly where the id (or a zero generation) demands it; equality holds exactly for equal data; what '
           'is fed to a Hasher is a function of the data. The minting operations (creations, to_direct) must put the id of their own archetype '
           'into the handle.')


def run(ctx):
    driver.run(ctx, plans=[driver.Plan(w, f, d, ops=conv.all_ops) for w, f, d in (
        (conv.WORLD, (), True), (conv.WORLD, (), False), (conv.WORLD, ('wrapping_version', 'events'), True)) + (
        ((conv.WORLD, ('32_components',), False),) if ctx.thorough else ())])
    ctx.floor('operations analysed', ctx.counts.get('operations x seed families', 0), 600)
