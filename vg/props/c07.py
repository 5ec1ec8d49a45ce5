"""C07, decided by the abstract interpreter (vg/eng)."""
from ..eng import driver

LEVEL = 'other'
TRUSTED = driver.TRUSTED
EXPLAIN = ('The loops of ecs_iter_destroy! are analysed modularly: at the loop head the archetype is replaced by an arbitrary storage satisfying the '
           'representation invariant that still holds the entities not visited yet, the counters by their value after n iterations. Rule: one iteration '
           'shows the handle, direct handle and cells of the entity at the last unvisited position, removes that entity exactly when the closure asked '
           'for it, leaves every unvisited position alone, re-establishes the hypothesis, and ends the whole query exactly on Break/BreakDestroy; a '
           'loop ends only when nothing is left to visit, and every matched archetype is entered once.')


def run(ctx):
    driver.run(ctx)
