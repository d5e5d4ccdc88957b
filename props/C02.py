"""C02: seeks return the ceiling, floor or match of the probe."""
from engine import run
from engine.cursors import check as ccheck

RULE = ('abstract interpretation of BlockCursor over every sorted block with any sparse offset table, and of ReaderCursor over every '
        'index tree of a fixed depth and unbounded width (probe placed anywhere, including equal to an entry, before all, after all): '
        'from a fresh or reset cursor the seeks must return the entry the order of the domain designates')
TECH = 'abstract interpretation of MIR (ordered-entry and index-tree domains, fixpoint over cursor states)'
NOTE = 'index depths 0..2 (quick), 0..4 (thorough); Block::entry_at is taken from C14, entry order and index shape from C09'


def check(rep, tier):
    ccheck(rep, tier, ('C02',))


if __name__ == '__main__':
    raise SystemExit(run.main('C02', check, RULE))
