"""Worker process: simulates epochs assigned by the driver over stdin, one JSON line per
result.   worker.py PROP ROOT BASESEED TIER EPOCHSIZE"""
import json
import os
import resource
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import runner
import worlds


def main():
    prop, root, base, tier, size = sys.argv[1:6]
    base, size = int(base), int(size)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    core.quiet_logging()
    out = os.fdopen(os.dup(1), 'w')
    # whatever the simulated program prints must not disturb the protocol
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)

    def send(**k):
        out.write(json.dumps(k) + '\n')
        out.flush()
    world = worlds.world(prop)
    for line in sys.stdin:
        e = int(line)
        stats, known, sigs, dig = {}, {}, set(), core.Digest()
        sample = None
        viol = None
        runs = 0
        try:
            env = world.fresh(root)
            for k in range(size):
                n = e * size + k
                send(at=n)
                sc = world.generate(prop, base + n, tier)
                o = runner.run_one(world, sc, env, stats)
                runs += 1
                dig.add(o.digest)
                for s in o.sigs:
                    sigs.add(core.h64(s))
                for kk, v in o.known.items():
                    known[kk] = known.get(kk, 0) + v
                if k == 0:
                    sample = {'seed': base + n, 'digest': o.digest, 'events': o.events,
                              'scenario': sc}
                if o.kind is not None:
                    viol = {'n': n, 'k': k, 'kind': o.kind, 'detail': o.detail,
                            'digest': o.digest}
                    break
        except BaseException as x:
            send(epoch=e, error=''.join(traceback.format_exception(type(x), x,
                                                                   x.__traceback__))[-4000:])
            continue
        send(epoch=e, stats=stats, known=known, sigs=sorted(sigs), digest=dig.hex(),
             runs=runs, viol=viol, sample=sample)


if __name__ == '__main__':
    main()
