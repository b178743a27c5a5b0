"""Minimise a failing list of scenarios and write the replay file.
   minimise.py IN.json OUT.json     (IN: prop, root, scenarios, kind)"""
import copy
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import runner


class Min(object):
    def __init__(self, prop, root, kind, limit):
        self.prop, self.root, self.kind = prop, root, kind
        self.end = time.time() + limit
        self.tries = 0

    def fails(self, scs):
        if time.time() > self.end:
            return False
        self.tries += 1
        try:
            o, _ = runner.run_list(self.prop, self.root, scs)
        except Exception:
            return False
        return o is not None and o.kind == self.kind

    def ddmin(self, items, test):
        """smallest sublist (1-minimal) for which test holds; test(items) is True"""
        n = 2
        while items and time.time() < self.end:
            step = max(1, len(items) // n)
            for i in range(0, len(items), step):
                c = items[:i] + items[i + step:]
                if test(c):
                    items = c
                    n = max(2, n - 1)
                    break
            else:
                if step == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def paths(self, x, pre=()):
        """paths of shrinkable lists and optional dict keys inside a scenario"""
        if isinstance(x, dict):
            for k in list(x):
                if k in ('irq', 'flt', 'pre', 'prompt', 'pad'):
                    yield pre + (k,), 'key'
                yield from self.paths(x[k], pre + (k,))
        elif isinstance(x, list):
            if x and all(isinstance(y, (list, dict)) for y in x):
                yield pre, 'list'
            elif x and pre and pre[-1] in ('pre', 'picks'):
                yield pre, 'list'
            for k, y in enumerate(x):
                yield from self.paths(y, pre + (k,))

    @staticmethod
    def at(x, path):
        for k in path:
            x = x[k]
        return x

    def replaced(self, sc, path, v, delete=False):
        c = copy.deepcopy(sc)
        if not path:
            return v
        p = self.at(c, path[:-1])
        if delete:
            del p[path[-1]]
        else:
            p[path[-1]] = v
        return c

    def inner(self, scs, i):
        sc = scs[i]

        def ok(c):
            return self.fails(scs[:i] + [c] + scs[i + 1:])
        for key in ('ops', 'tasks', 'lines'):
            if isinstance(sc.get(key), list):
                got = self.ddmin(sc[key], lambda l: ok(dict(sc, **{key: l})))
                sc = dict(sc, **{key: got})
                scs = scs[:i] + [sc] + scs[i + 1:]
        changed = not self.kind.startswith(runner.UNUSABLE)
        while changed and time.time() < self.end:
            changed = False
            for path, what in list(self.paths(sc)):
                if path in (('ops',), ('lines',)) or (path and path[0] == 'machines' and len(path) == 1):
                    continue
                try:
                    cur = self.at(sc, path)
                except (KeyError, IndexError):
                    continue
                if what == 'key':
                    c = self.replaced(sc, path, None, True)
                    if ok(c):
                        sc, changed = c, True
                        scs = scs[:i] + [sc] + scs[i + 1:]
                elif cur:
                    got = self.ddmin(cur, lambda l: ok(self.replaced(sc, path, l)))
                    if len(got) < len(cur):
                        sc, changed = self.replaced(sc, path, got), True
                        scs = scs[:i] + [sc] + scs[i + 1:]
        return sc


def main():
    core.quiet_logging()
    with open(sys.argv[1]) as fh:
        job = json.load(fh)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    m = Min(job['prop'], job['root'], job['kind'], job.get('limit', 60))
    scs = job['scenarios']
    alone = m.fails(scs[-1:])
    reproduced = alone
    if alone:
        scs = scs[-1:]
    elif m.fails(scs):
        reproduced = True
        last = scs[-1]
        scs = m.ddmin(scs[:-1], lambda l: m.fails(l + [last])) + [last]
    if reproduced:
        for i in range(len(scs) - 1, -1, -1):
            scs[i] = m.inner(scs, i)
    o = None
    if reproduced:
        o, _ = runner.run_list(job['prop'], job['root'], scs, keep=60)
    res = {'property': job['prop'], 'reproduced': bool(reproduced and o.kind == job['kind']),
           'tries': m.tries, 'scenarios': scs}
    if o is not None:
        res.update(kind=o.kind, detail=o.detail, digest=o.digest, trace=o.log)
    with open(sys.argv[2], 'w') as fh:
        json.dump(res, fh, indent=1)
    out.write('done\n')


if __name__ == '__main__':
    main()
