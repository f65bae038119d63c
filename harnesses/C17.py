"""Existing results files are only overwritten with permission (out.newOutFile, newTsOutFile, command line)."""
import C16
FUNCS = ['hapuamod/out.py:newOutFile', 'hapuamod/out.py:newTsOutFile', 'hapuamod/__main__.py']
BOUNDS = ('file present or not, holding anything; overwrite option given or not (or left out); every text typed in answer to the prompt; every '
          'combination of command line options')
ASSUMPTIONS = ['nothing else writes the file meanwhile']
REQUIRED = ['kept', 'refused', 'replaced', 'created', 'not-asked', 'asked', 'command-line']
BUDGET = {'quick': 30, 'thorough': 60}
OPTS = {'prop_ms': 3000, 'deep_ms': 3000, 'feas_ms': 1000}
YES = ['Y', 'y', 'Yes', 'yes', 'YES']


def body(X, which, option):
    f = X.files()
    asked = []
    answer = X.text('answer')

    def ask(prompt=''):
        asked.append(str(prompt))
        return answer
    st = dict(f.stubs(), **X.pd())
    st['__builtins__'] = {'input': ask}
    out = X.mod('out', st)
    path, other = f.path('r.nc'), f.path('other.nc')
    there = X.is_true(X.bool('there'))
    f.put(other, 'other')
    if there:
        f.put(path, 'old')
    k = {} if option is None else {'Overwrite': option}
    t0 = X.ts(X.const(0))

    def new():
        if which == 'results':
            out.newOutFile(path, 'model', t0, X.arr([-16.0, 0.0, 16.0]), 16.0, X.arr([1.0, 0.5]), X.arr([0.0, 0.0]), X.const(0),
                           {k: X.const(1) for k in C16.KEYS}, **k)
        else:
            out.newTsOutFile(path, 'model', t0, **k)
    e = X.raises(new)
    X.check(f.get(other) == 'other', 'kept')
    yes = False
    if there and not option:
        X.check(len(asked) == 1 and path in asked[0], 'asked')
        yes = any(answer == y for y in YES)
    else:
        X.check(not asked, 'not-asked')
    if not there:
        X.check(e is None and f.get(path) == 'results', 'created')
    elif option or yes:
        X.check(e is None and f.get(path) == 'results', 'replaced')
    else:
        X.check(e is not None, 'refused')
        X.check(f.get(path) == 'old', 'kept')
    if e is None:
        ds = f.dataset(path)
        X.check(ds.dimensions['time'].size == 0, 'replaced' if there else 'created')
        ds.close()


class Log(object):
    """Stands for the logging set-up of the command line."""
    DEBUG, INFO, WARNING, ERROR = 10, 20, 30, 40

    def __getattr__(self, k):
        return lambda *a, **k: self


def command(X):
    import argparse
    import sys
    import types
    calls = []
    opts = []
    for long, short in (('--Overwrite', '-o'), ('--verbose', '-v'), ('--quiet', '-q')):
        o = X.choice(long, [None, long, short])
        if o:
            opts.append(o)
    after = X.is_true(X.bool('after'))
    core = types.ModuleType('core')
    core.main = lambda *a, **k: calls.append((a, k))
    argv = sys.argv
    sys.argv = ['hapuamod'] + (['d/m.cnf'] + opts if after else opts + ['d/m.cnf'])
    try:
        X.mod('__main__', {'hapuamod.core': core, 'logging': Log()})
    finally:
        sys.argv = argv
    X.check(len(calls) == 1, 'command-line')
    a, k = calls[0]
    args = dict(zip(('ModelConfigFile', 'Overwrite'), a), **k)
    X.check(args.get('ModelConfigFile') == 'd/m.cnf', 'command-line')
    X.check(bool(args.get('Overwrite', False)) == ('-o' in opts or '--Overwrite' in opts), 'command-line')


def cases(tier):
    c = [('%s-%s' % (w, o), body, {'which': w, 'option': o}) for w in ('results', 'series') for o in (None, False, True)]
    return c + [('command', command, {})]
