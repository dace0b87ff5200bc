#!/usr/bin/env python3
"""sweep.py OUT JOBS [FILE...]: which small changes of ipkg do the suites miss?

Makes every change of a fixed list of kinds (conditions, operators, constants,
statements left out, ...) to copies of the repository, one at a time, and runs
the suites which drive the changed file until one of them complains, whatever
the property.  Results are lines of OUT; changes listed there are skipped.
"""
import ast
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import core  # noqa

BASE = os.environ.get('IPKG_REPO', '/repo')
CACHE = '/tmp/sweep-cache'
WIDE = bool(os.environ.get('SWEEP_WIDE'))
REQ = ['requirements:R01', 'requirements:R02', 'requirements:R03',
       'requirements:R04']
ORD = ['ordering:V01', 'ordering:V02']
SUITES = {
    'ipkg/build.py': ['formula', 'load', 'builds', 'fetch'],
    'ipkg/cli.py': ['cli'],
    'ipkg/dependencies.py': ['solver'],
    'ipkg/environments.py': ['env', 'vars', 'relocate', 'contain', 'envcrash',
                             'formula', 'cli', 'execution'],
    'ipkg/mixins.py': ORD + REQ + ['find', 'builds', 'env'],
    'ipkg/packages.py': ['env', 'repo', 'contain', 'formula', 'envcrash',
                         'find'],
    'ipkg/platforms.py': REQ + ['cli'],
    'ipkg/prefix_rewriters.py': ['relocate'],
    'ipkg/regex.py': ['relocate', 'load'] + ORD + REQ + ['repo'],
    'ipkg/repositories.py': ['find', 'repo', 'builds', 'load', 'formula'],
    'ipkg/requirements.py': REQ + ['solver', 'find'],
    'ipkg/utils.py': ['store', 'execution', 'archive', 'contain', 'cli',
                      'env', 'formula'] + ORD,
    'ipkg/versions.py': ORD + REQ + ['solver', 'find'],
    'ipkg/compat.py': ['store'],
    'ipkg/files/__init__.py': ['fetch', 'store'],
    'ipkg/files/cache.py': ['fetch'],
    'ipkg/files/backends/__init__.py': ['fetch'],
    'ipkg/files/backends/http.py': ['fetch'],
    'ipkg/files/backends/filesystem.py': ['fetch'],
}
FUNCS = {  # functions driven by other suites than their file
    ('ipkg/utils.py', 'DictFile'): ['store', 'env', 'repo'],
    ('ipkg/utils.py', 'execute'): ['execution', 'cli', 'formula'],
    ('ipkg/utils.py', 'unarchive'): ['archive', 'contain', 'formula'],
    ('ipkg/environments.py', 'Variable'): ['vars', 'cli'],
    ('ipkg/environments.py', 'ListVariable'): ['vars', 'cli'],
    ('ipkg/environments.py', 'PathListVariable'): ['vars', 'cli'],
    ('ipkg/environments.py', 'EnvironmentVariables'): ['vars', 'env', 'cli'],
    ('ipkg/environments.py', 'in_env'): ['cli'],
    ('ipkg/environments.py', 'current'): ['cli'],
    ('ipkg/environments.py', 'bootstrap'): ['cli'],
    ('ipkg/environments.py', '__str__'): ['cli'],
    ('ipkg/environments.py', 'execute'): ['execution', 'formula', 'cli'],
    ('ipkg/environments.py', 'install'): ['env', 'contain', 'relocate',
                                          'envcrash', 'cli'],
    ('ipkg/environments.py', 'uninstall'): ['env', 'contain', 'envcrash'],
    ('ipkg/build.py', 'File'): ['formula', 'fetch'],
    ('ipkg/build.py', 'from_file'): ['load'],
    ('ipkg/repositories.py', 'build_formulas'): ['builds'],
    ('ipkg/repositories.py', 'FormulaRepository'): ['load', 'find'],
}


class Any(str):
    """Every property."""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False
    __hash__ = str.__hash__


class Caught(Exception):
    pass


class Ctx(core.Ctx):
    small = False

    def pick(self, quick, thorough):
        if self.small and isinstance(quick, int) and quick >= 10:
            return max(4, quick // 8)
        return quick

    def jython(self, driver, scenarios, params=None, shards=1, **kw):
        return core.Ctx.jython(self, driver, scenarios, params,
                               min(shards, 2) if self.small else shards, **kw)

    def check_model(self, module, cfg, env=None, **kw):
        h = hashlib.sha1((module + cfg).encode())
        for k in sorted(env or {}):
            h.update(k.encode())
            v = env[k]
            h.update(open(v, 'rb').read() if os.path.isfile(v)
                     else v.encode())
        path = os.path.join(CACHE, h.hexdigest())
        if not os.path.exists(path):
            result = core.Ctx.check_model(self, module, cfg, env, **kw)
            with open(path + '.%d' % os.getpid(), 'wb') as f:
                pickle.dump(result, f)
            os.rename(path + '.%d' % os.getpid(), path)
        with open(path, 'rb') as f:
            return pickle.load(f)

    def _jython_once(self, driver, scenarios, todo, params, env, stall,
                     as_root, egg):
        done = core.Ctx._jython_once(self, driver, scenarios, todo, params,
                                     env, min(stall, 40), as_root, egg)
        for events in done.values():
            for e in events:
                if e.get('ev') in ('hang', 'died'):
                    raise Caught(e['ev'])
        return done

    def violation(self, clause, scenario, detail):
        raise Caught(clause)


def parse(text):
    text = re.sub(r'(?<![\w.])0(\d{3})\b',
                  lambda m: '%4d' % int(m.group(1), 8), text)
    text = re.sub(r'^(\s*)print ', r'\1print=', text, flags=re.M)
    return ast.parse(text)


OPS = {'==': ['!='], '!=': ['=='], '<': ['<=', '>'], '<=': ['<', '>='],
       '>': ['>=', '<'], '>=': ['>', '<='], 'in': ['not in'],
       'not in': ['in'], 'is': ['is not'], 'is not': ['is'],
       'and': ['or'], 'or': ['and'], '+': ['-'], '-': ['+']}


class Mutator(ast.NodeVisitor):

    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.data = text.encode()
        self.found = []       # start, end, new, function
        self.where = []
        self.quiet = 0

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, node):
        return (self.pos(node.lineno, node.col_offset),
                self.pos(node.end_lineno, node.end_col_offset))

    def add(self, start, end, new):
        if self.data[start:end] != new.encode() and not self.quiet:
            self.found.append((start, end, new, '.'.join(self.where)))

    def src(self, node):
        start, end = self.span(node)
        return self.data[start:end].decode()

    def visit_FunctionDef(self, node):
        self.where.append(node.name)
        for child in node.body:
            self.visit(child)
        for default in node.args.defaults:
            self.visit(default)
        self.where.pop()

    def visit_ClassDef(self, node):
        self.where.append(node.name)
        for child in node.body:
            self.visit(child)
        self.where.pop()

    def between(self, left, right, symbol):
        """Position of an operator between two nodes."""
        start, end = self.span(left)[1], self.span(right)[0]
        m = re.search(r'(?<![\w=<>!])' + re.escape(symbol).replace(r'\ ', r'\s+') +
                      r'(?![\w=])', self.data[start:end].decode())
        if m:
            return start + m.start(), start + m.end()

    NAMES = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
             ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in',
             ast.Is: 'is', ast.IsNot: 'is not', ast.And: 'and', ast.Or: 'or',
             ast.Add: '+', ast.Sub: '-'}

    def swap(self, left, right, op):
        symbol = self.NAMES.get(type(op))
        if symbol:
            at = self.between(left, right, symbol)
            if at:
                for new in OPS[symbol]:
                    self.add(at[0], at[1], new)

    def visit_Compare(self, node):
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            self.swap(left, right, op)
            left = right
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        for a, b in zip(node.values, node.values[1:]):
            self.swap(a, b, node.op)
        neutral = 'True' if isinstance(node.op, ast.And) else 'False'
        for v in node.values:
            s, e = self.span(v)
            self.add(s, e, neutral)
        self.generic_visit(node)

    def visit_BinOp(self, node):
        self.swap(node.left, node.right, node.op)
        if isinstance(node.op, ast.Add):
            s, e = self.span(node)
            self.add(s, e, '(%s)' % self.src(node.left))
            self.add(s, e, '(%s)' % self.src(node.right))
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            s, e = self.span(node)
            self.add(s, e, '(%s)' % self.src(node.operand))
        self.generic_visit(node)

    def test(self, node):
        s, e = self.span(node)
        self.add(s, e, 'True')
        self.add(s, e, 'False')

    def visit_If(self, node):
        self.test(node.test)
        self.generic_visit(node)

    def visit_While(self, node):
        s, e = self.span(node.test)
        self.add(s, e, 'False')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.test(node.test)
        self.generic_visit(node)

    def visit_comprehension(self, node):
        for t in node.ifs:
            s, e = self.span(t)
            self.add(s, e, 'True')
        self.generic_visit(node)

    def visit_Constant(self, node):
        s, e = self.span(node)
        if isinstance(node.value, bool):
            self.add(s, e, str(not node.value))
        elif isinstance(node.value, int):
            self.add(s, e, '%d' % (node.value + 1))
        elif isinstance(node.value, str) and node.value and WIDE:
            raw = self.data[s:e].decode()
            if raw[:3] in ('"""', "'''"):
                return
            self.add(s, e, "''" if len(raw) > 3 else '"x"')

    def visit_JoinedStr(self, node):
        pass

    def visit_Call(self, node):
        func = self.src(node.func)
        if func.startswith('LOGGER') or func.endswith('Exception') or \
                'Error' in func:
            return
        for kw in node.keywords:
            if kw.arg:
                s = self.pos(kw.lineno, kw.col_offset)
                e = self.span(kw.value)[1]
                rest = self.data[e:e + 200].decode()
                m = re.match(r'\s*,\s*', rest)
                if m:
                    self.add(s, e + m.end(), '')
                else:
                    before = self.data[:s].decode()
                    m = re.search(r',\s*$', before)
                    self.add(s - len(m.group().encode()) if m else s, e, '')
        if len(node.args) == 1 and not node.keywords and WIDE:
            s, e = self.span(node)
            self.add(s, e, '(%s)' % self.src(node.args[0]))
        self.generic_visit(node)

    def drop(self, node):
        s, e = self.span(node)
        self.add(s, e, 'pass')

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return            # documentation
        if self.src(node).startswith('LOGGER'):
            return
        self.drop(node)
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.where:
            self.drop(node)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.drop(node)
        s, e = self.span(node)
        self.generic_visit(node)

    def visit_Delete(self, node):
        self.drop(node)

    def visit_Raise(self, node):
        self.drop(node)

    def visit_Continue(self, node):
        self.drop(node)

    def visit_Break(self, node):
        self.drop(node)

    def visit_Return(self, node):
        if node.value is not None:
            s, e = self.span(node)
            self.add(s, e, 'return None')
        else:
            self.drop(node)
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.slice, ast.Slice):
            s, e = self.span(node)
            self.add(s, e, '(%s)' % self.src(node.value))
        self.generic_visit(node)

    def visit_Try(self, node):
        for handler in node.handlers:
            # the exception is not caught
            if handler.type is not None:
                s, e = self.span(handler.type)
                self.add(s, e, 'ZeroDivisionError')
        self.generic_visit(node)


def mutants(path):
    with open(os.path.join(BASE, path)) as f:
        text = f.read()
    m = Mutator(text)
    m.visit(parse(text))
    seen = set()
    for start, end, new, where in m.found:
        if (start, end, new) in seen:
            continue
        seen.add((start, end, new))
        line = m.data[:start].count(b'\n') + 1
        yield dict(file=path, line=line, where=where, start=start, end=end,
                   old=m.data[start:end].decode(), new=new)


def suites(mutant):
    for part in mutant['where'].split('.')[::-1]:
        if (mutant['file'], part) in FUNCS:
            return FUNCS[mutant['file'], part]
    return SUITES[mutant['file']]


def one(mutant):
    tmp = tempfile.mkdtemp(prefix='sweep-', dir='/tmp')
    os.chmod(tmp, 0o755)
    try:
        subprocess.check_call(['cp', '-r', BASE + '/ipkg', BASE + '/setup.py',
                               tmp])
        path = os.path.join(tmp, mutant['file'])
        with open(path, 'rb') as f:
            data = f.read()
        with open(path, 'wb') as f:
            f.write(data[:mutant['start']] + mutant['new'].encode() +
                    data[mutant['end']:])
        core.REPO = tmp
        found = suites(mutant)
        again = [] if os.environ.get('SWEEP_SMALL') else found
        for k, suite in enumerate(found + again):
            name, _, prop = suite.partition(':')
            ctx = Ctx(prop or Any('ALL'), 'quick', 1)
            ctx.small = k < len(found)
            try:
                importlib.import_module('suites.' + name).run(ctx)
            except Caught as exc:
                return dict(mutant, by=name, clause=str(exc))
            except core.MachineryError as exc:
                return dict(mutant, by=name, clause='machinery: %s' % exc)
            except Exception as exc:
                return dict(mutant, by=None,
                            clause='tool: ' + traceback.format_exc())
            finally:
                ctx.cleanup()
        return dict(mutant, by=None, clause='MISSED')
    except Exception:
        return dict(mutant, by=None, clause='tool: ' + traceback.format_exc())
    finally:
        shutil.rmtree(tmp)


def key(m):
    return (m['file'], m['where'], m['old'], m['new'], m['start'])


def main():
    out, jobs = sys.argv[1], int(sys.argv[2])
    files = sys.argv[3:] or sorted(SUITES)
    os.makedirs(CACHE, exist_ok=True)
    done = set()
    if os.path.exists(out):
        done = {key(json.loads(line)) for line in open(out)}
    todo = [m for f in files for m in mutants(f) if key(m) not in done]
    print(len(todo), 'changes', flush=True)
    if jobs == 0:
        from collections import Counter
        print(Counter(m['file'] for m in todo))
        return
    core.log = lambda *a: None
    devnull = open(os.devnull, 'w')
    sys.stderr = devnull
    with multiprocessing.Pool(jobs, maxtasksperchild=8) as pool:
        for result in pool.imap_unordered(one, todo):
            with open(out, 'a') as f:
                f.write(json.dumps(result) + '\n')
            if result['by'] is None:
                print(result['file'], result['line'], result['where'],
                      repr(result['old'][:80]), '->',
                      repr(result['new'][:80]), result['clause'][-300:],
                      flush=True)


if __name__ == '__main__':
    main()
