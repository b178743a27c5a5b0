#!/opt/venv-pypy/bin/python
"""Replay a violation exactly:  replay.py FILE   (exit 1 and a VIOLATION line when it
reproduces exactly - same property, same violation, same event log -, 3 when something
else is violated, 0 when the property holds)."""
import json
import os
import shutil
import sys
import tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
import core
import runner
import worlds


def main():
    with open(sys.argv[1]) as fh:
        r = json.load(fh)
    d = tempfile.mkdtemp(prefix='cmdis-replay-')
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    try:
        core.quiet_logging()
        root = core.stage(d)
        if worlds.WORLD_OF[r['property']] == 'consworld':
            core.convert_main(root)
        o, _ = runner.run_list(r['property'], root, r['scenarios'], keep=60)
        if '-v' in sys.argv:
            for x in o.log:
                out.write(x + '\n')
        if o.kind is None:
            out.write('property %s holds on this replay\n' % r['property'])
            return 0
        out.write('%s: %s\n' % (o.kind, o.detail))
        same = o.kind == r['kind'] and o.digest == r['digest']
        out.write('event log %s\n' % ('identical' if o.digest == r['digest'] else
                                      'differs from the recorded one'))
        out.write('VIOLATION property=%s replay=%s\n' % (r['property'], sys.argv[1]))
        return 1 if same else 3
    finally:
        out.flush()
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
