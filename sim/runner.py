"""Runs scenarios: shared by workers, the minimiser and replay."""
import os

import core
import worlds
from core import Digest, Violation


UNUSABLE = 'unusable-result-'


class Outcome(object):
    __slots__ = ('kind', 'detail', 'info', 'digest', 'sigs', 'known', 'log', 'events')


def run_one(world, sc, env, stats, keep=0):
    """-> Outcome; kind is None when the property held."""
    dig = Digest(keep)
    run = world.make(sc, env, stats, dig)
    o = Outcome()
    o.kind = o.detail = None
    o.info = {}
    try:
        run.run()
    except Violation as v:
        o.kind, o.detail, o.info = v.kind, v.detail, v.info
        dig.add('VIOLATION', v.kind, v.detail)
    except core.SimHang as v:
        o.kind, o.detail = 'hang', 'the operation does not finish'
        dig.add('VIOLATION', o.kind, o.detail)
    except (OSError, MemoryError, ImportError):
        raise
    except Exception as v:
        # A result the oracle cannot even read (None for data, a missing attribute, an
        # error out of an operation that cannot fail).
        t = v.__traceback__
        while t.tb_next is not None:
            t = t.tb_next
        c = t.tb_frame.f_code
        o.kind = UNUSABLE + type(v).__name__
        o.detail = '%s (in %s, %s line %d)' % (v, c.co_name, os.path.basename(c.co_filename),
                                               t.tb_lineno)
        dig.add('VIOLATION', o.kind, o.detail)
    o.digest = dig.hex()
    o.sigs = getattr(run, 'sigs', set())
    o.known = getattr(run, 'known', {})
    o.log = dig.log
    o.events = dig.n
    return o


def run_list(prop, root, scenarios, keep=0):
    """Run scenarios one after another on one fresh import of the package (as an epoch
    does); -> Outcome of the first violating one, or of the last."""
    world = worlds.world(prop)
    env = world.fresh(root)
    stats = {}
    o = None
    for k, sc in enumerate(scenarios):
        o = run_one(world, sc, env, stats, keep)
        if o.kind is not None:
            o.info['index'] = k
            break
    return o, stats
