"""coverage.py N - statements of the package that N runs of every check never reach."""
import ast, builtins, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
import core, runner, worlds, meta

n = int(sys.argv[1])
props = sys.argv[2:] or sorted(meta.PROPS)
seen, allst = set(), {}
builtins.__cov__ = seen.add


class Cov(core._Instrument):
    def _pt(self, node):
        e = super()._pt(node)
        allst[(self.f, node.lineno)] = 1
        c = ast.Expr(ast.Call(ast.Name('__cov__', ast.Load()),
                              [ast.Constant((self.f, node.lineno))], []))
        for x in ast.walk(c):
            if isinstance(x, (ast.expr, ast.stmt)):
                x.lineno, x.col_offset = node.lineno, 0
                x.end_lineno, x.end_col_offset = node.lineno, 0
        return ast.If(ast.copy_location(ast.Constant(True), e), [e, c], [],
                      lineno=node.lineno, col_offset=0)


def compiled(path, instrument):
    if path not in core._code_cache:
        t = ast.parse(open(path, 'rb').read(), path)
        v = Cov()
        v.f = os.path.basename(path)
        t = ast.fix_missing_locations(v.visit(t))
        core._code_cache[path] = compile(t, path, 'exec', dont_inherit=True)
    return core._code_cache[path]


core._compiled = compiled
core.quiet_logging()
for prop in props:
    core._code_cache.clear()
    d = tempfile.mkdtemp()
    root = core.stage(d)
    if worlds.WORLD_OF[prop] == 'consworld':
        core.convert_main(root)
    w = worlds.world(prop)
    env = w.fresh(root)
    b = len(seen)
    for s in range(n):
        o = runner.run_one(w, w.generate(prop, s, 'quick'), env, {})
        if o.kind:
            print(prop, s, o.kind, o.detail[:200])
    print(prop, '+%d' % (len(seen) - b))
    src = {f: open(os.path.join(root, 'cmdis', f)).read().split('\n')
           for f in os.listdir(os.path.join(root, 'cmdis')) if f.endswith('.py')}
    shutil.rmtree(d)
print(len(seen), 'of', len(allst))
for f, l in sorted(set(allst) - seen):
    print('%s:%d: %s' % (f, l, src[f][l - 1].strip()))
