"""C11: results and emitted bytes do not depend on how I/O calls are cut or interrupted."""
from engine import run
from props.C12 import everything

RULE = ('abstract interpretation of every public operation in which single calls of sinks, sources and chunks accept or serve an arbitrary '
        'proper part of the buffer (a symbolic length) or report an interruption, at every call of the scenario: the bytes a sink '
        'receives and every result must equal those of the undisturbed run')
TECH = 'abstract interpretation of MIR (forking at every I/O call, symbolic piece lengths)'
NOTE = ('std retry loops (write_all, read_exact, read_to_end, io::copy) are taken at their contract; one (quick) or two (thorough) disturbed '
        'calls per run, at every position; the lz4 frame decoder is modelled as losing its place when interrupted inside a frame header')


def check(rep, tier):
    everything(rep, tier, 'partial', 1 if tier == 'quick' else 2)


if __name__ == '__main__':
    raise SystemExit(run.main('C11', check, RULE))
