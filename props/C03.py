"""C03: cursor results depend on content and logical position only."""
from engine import run
from engine.cursors import check as ccheck

RULE = ('fixpoint over all reachable abstract cursor states (block cursors over arbitrary blocks; reader cursors over arbitrary index trees): '
        'in every state every public operation must return the entry determined by the sorted content and the logical position of the last '
        'returned entry, current() that entry, and clone/reset the same/a fresh position')
TECH = 'abstract interpretation of MIR (ordered-entry and index-tree domains, fixpoint over cursor states)'
NOTE = 'index depths 0..2 (quick), 0..4 (thorough); a violation is reported only after the operation sequence is re-derived without state folding'


def check(rep, tier):
    ccheck(rep, tier, ('C03',))


if __name__ == '__main__':
    raise SystemExit(run.main('C03', check, RULE))
