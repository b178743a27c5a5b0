"""Development aid (see mutate.py): a short single-process version of every check, those most
concerned with the given file first; prints the first property that notices."""
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                'sim'))
import core
import meta
import runner
import worlds

ORDER = {'__main__': 'C01 C03 C02', 'bitstring': 'I03 E01 E02 E03 E04 D01 D02 D03 M01 M02',
         'decoder': 'D03 D01 I01 F04 D02 E01', 'disasm': 'D01 D02 D03 C01',
         'formatter': 'D02 C01 I01', 'helpers': 'E01 E02 E03 E04 E05 F02 I01',
         'instructions': 'M03 E01 E02 E03 E04 E05 F01 F02 F04 I02 I01 D02 D01 F03',
         'mock_cpu': 'M01 M02 F03 C01', 'model': 'M02 M01 M03 F03 F01 F02 E01 E04 E05 I01 D01',
         'registers': 'M02 M01 E05 C01', 'utilities': 'C01 D01 M01'}
SECS = float(os.environ.get('MINI', '9'))


def main():
    core.quiet_logging()
    d = tempfile.mkdtemp()
    try:
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        root = core.stage(d)
        core.convert_main(root)
        for p in ORDER[sys.argv[1]].split():
            w = worlds.world(p)
            try:
                env = w.fresh(root)
            except BaseException as e:
                out.write('%s: cannot load %r\n' % (p, e))
                return
            st = {}
            end = time.time() + SECS * (1.5 if p[0] == 'C' else 1)
            s = 50000
            while time.time() < end:
                s += 1
                o = runner.run_one(w, w.generate(p, s, 'quick'), env, st)
                if o.kind:
                    out.write('%s: %d %s %s\n' % (p, s, o.kind, o.detail[:200].replace('\n', ' ')))
                    return
        out.write('SURVIVED\n')
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
