"""Common machinery of the checks: scratch space, TLC, Jython workers, verdicts.

Nothing here judges the code under test: TLC does, by evaluating the trace
specifications of spec/ on the logs which the Jython drivers of jy/ record.
"""
import ast
import collections
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IPKG_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JY = os.path.join(VERIF, 'jy')
NOBODY = 65534
TLA_CP = ':'.join('/opt/veriftools/tla/' + j for j in
                  ('tla2tools.jar', 'CommunityModules-deps.jar'))
JYTHON = ['java', '-Xss8m', '-Xmx1500m', '-Xshare:auto',
          '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC',
          '-jar', '/usr/share/java/jython.jar',
          '-Dpython.home=/usr/share/jython',
          '-Dpython.executable=/usr/bin/jython',
          '-Dpython.cachedir.skip=true', '-B']


class MachineryError(Exception):
    """The check itself does not work: exit status 2."""


def log(*args):
    print('[%s]' % time.strftime('%H:%M:%S'), *args, file=sys.stderr)
    sys.stderr.flush()


class Ctx(object):

    def __init__(self, prop, tier, seed, replay=None):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.replay = replay          # scenario to replay, or None
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix='ipkgv-', dir='/tmp')
        os.chmod(self.scratch, 0o755)
        self.work = os.path.join(self.scratch, 'work')
        os.mkdir(self.work)
        os.chown(self.work, NOBODY, NOBODY)
        self._egg = None
        self._n = 0
        self.states = 0               # measured by TLC
        self.transitions = 0
        self.traces = 0               # traces of the code TLC validated
        self.events = 0
        self.models = []
        self.samples = []
        self.violations = []          # dicts: clause, scenario, detail
        self.exhaustive = True
        self.notes = collections.OrderedDict()
        self.assumptions = []

    def rng(self, *salt):
        return random.Random('%s-%s-%s' % (self.seed, self.prop if not salt
                                           else '', '-'.join(map(str, salt))))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name, ext=''):
        self._n += 1
        return os.path.join(self.scratch, '%03d-%s%s' % (self._n, name, ext))

    def cleanup(self):
        subprocess.call(['chmod', '-R', 'u+rwX', self.scratch],
                        stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)

    # -- TLC ---------------------------------------------------------------

    def tlc(self, module, cfg, env=None, workers=None, args=(), timeout=None,
            heap='3g', count=True, allow_violation=False):
        """Run TLC.  ``cfg`` is the text of the configuration."""
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        cfg_path = os.path.join(meta, module + '.cfg')
        with open(cfg_path, 'w') as f:
            f.write(cfg)
        command = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC',
                   '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=%d' %
                   (4 if workers != 1 else 1),
                   '-DTLA-Library=' + SPEC, '-cp', TLA_CP, 'tlc2.TLC',
                   '-config', cfg_path, '-metadir', meta,
                   '-noGenerateSpecTE', '-workers', str(workers or 4)]
        command += list(args) + [os.path.join(SPEC, module + '.tla')]
        environ = dict(os.environ)
        environ.pop('JAVA_TOOL_OPTIONS', None)
        environ.update(env or {})
        try:
            process = subprocess.run(command, cwd=meta, env=environ,
                                     stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT,
                                     timeout=timeout or self.pick(600, 7200))
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on ' + module)
        out = process.stdout.decode('utf-8', 'replace')
        if process.returncode != 0 and not allow_violation:
            at = out.find('Error:')
            sys.stderr.write(out[at:at + 2500] + '\n' + out[-5000:] + '\n')
            raise MachineryError('TLC failed on %s (%d)' %
                                 (module, process.returncode))
        match = None
        for match in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct '
                                 r'states found', out):
            pass
        generated, distinct = (int(g.replace(',', ''))
                               for g in match.groups()) if match else (0, 0)
        if count:
            self.states += distinct
            self.transitions += generated
        shutil.rmtree(meta, ignore_errors=True)
        return dict(out=out, generated=generated, distinct=distinct,
                    status=process.returncode)

    def check_model(self, module, cfg, env=None, **kw):
        """Exhaustively check a model of the specification itself."""
        t = time.time()
        result = self.tlc(module, cfg, env, **kw)
        self.models.append(dict(module=module, states=result['distinct'],
                                transitions=result['generated'],
                                wall_s=round(time.time() - t, 1)))
        return result

    def emitted(self, result):
        """JSON values printed by PrintT(ToJson(..)) during a TLC run."""
        values = []
        for line in result['out'].splitlines():
            if line.startswith('"') and line.endswith('"') and \
                    line[1:2] in '{[':
                try:
                    values.append(json.loads(json.loads(line)))
                except ValueError:
                    values.append(json.loads(
                        line[1:-1].replace('\\"', '"').replace('\\\\', '\\')))
        return values

    def validate(self, module, events, cfg=None, constants='', shards=None):
        """Check the recorded ``events`` against a trace specification.

        Returns the list of violations TLC found: dicts with at least the keys
        ``line`` and ``clauses``.
        """
        if not events:
            raise MachineryError('Nothing was recorded for ' + module)
        trace = self.path(module, '.ndjson')
        out = trace + '.out'
        with open(trace, 'w') as f:
            for event in events:
                f.write(json.dumps(event, ensure_ascii=True) + '\n')
        cfg = cfg or ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' +
                      constants)
        result = self.tlc(module, cfg, {'TRACE': trace, 'OUT': out},
                          workers=1, count=False)
        if not os.path.exists(out):
            sys.stderr.write(result['out'][-4000:])
            raise MachineryError('TLC did not finish the trace of ' + module)
        with open(out) as f:
            bad = json.load(f)
        self.events += len(events)
        self.states += result['distinct']
        self.transitions += result['generated']
        if result['distinct'] < len(events) and not bad:
            raise MachineryError('TLC stopped before the end of the trace')
        return bad

    # -- code under test ---------------------------------------------------

    @property
    def egg(self):
        """Entry points of the current tree, as 'setup.py egg_info' does."""
        if self._egg is None:
            base = os.path.join(self.scratch, 'egg')
            info = os.path.join(base, 'ipkg.egg-info')
            os.makedirs(info)
            try:
                found = {}
                tree = ast.parse(open(os.path.join(REPO, 'setup.py')).read())
                for node in ast.walk(tree):
                    if isinstance(node, ast.keyword) and node.arg in (
                            'name', 'version', 'entry_points',
                            'install_requires'):
                        found[node.arg] = ast.literal_eval(node.value)
                entry_points = found['entry_points']
                if isinstance(entry_points, dict):
                    entry_points = '\n'.join('[%s]\n%s' % (k, '\n'.join(v))
                                             for k, v in entry_points.items())
                lines = [l.strip() for l in entry_points.splitlines()]
                with open(os.path.join(info, 'entry_points.txt'), 'w') as f:
                    f.write('\n'.join(lines) + '\n')
                with open(os.path.join(info, 'PKG-INFO'), 'w') as f:
                    f.write('Metadata-Version: 1.1\nName: %s\nVersion: %s\n' %
                            (found['name'], found['version']))
                with open(os.path.join(info, 'requires.txt'), 'w') as f:
                    requires = found.get('install_requires', ())
                    f.write('\n'.join([requires] if isinstance(requires, str)
                                      else requires) + '\n')
                with open(os.path.join(info, 'top_level.txt'), 'w') as f:
                    f.write('ipkg\n')
            except Exception as exc:
                log('setup.py could not be read statically:', exc)
                shutil.rmtree(info)
                subprocess.check_call(
                    JYTHON + ['setup.py', '-q', 'egg_info',
                              '--egg-base', base],
                    cwd=REPO, env=self.jython_env(base),
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            self._egg = base
        return self._egg

    def jython_env(self, egg, home=None, extra=None):
        env = {
            'PATH': '/bin:/usr/bin:/usr/sbin:/sbin', 'LANG': 'C.UTF-8',
            'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'HOME': home or self.work,
            'PYTHONDONTWRITEBYTECODE': '1',
            'JYTHONPATH': ':'.join([egg, JY, REPO, '/opt/jy/shim',
                                    '/opt/jy/site']),
            'VERIF_SEED': str(self.seed),
        }
        env.update(extra or {})
        return env

    def jython(self, driver, scenarios, params=None, shards=1, env=None,
               stall=90, as_root=False):
        """Run a driver of jy/ on ``scenarios`` (JSON values).

        Returns one list of events per scenario.  A scenario which hangs, or
        which ends the process, gets an event {"ev": "hang"} or
        {"ev": "died"}; the others are run anyway.
        """
        egg = self.egg
        results = [None] * len(scenarios)
        shards = max(1, min(shards, len(scenarios)))
        errors = []

        def run(shard):
            todo = list(range(shard, len(scenarios), shards))
            incidents = 0
            while todo:
                try:
                    done = self._jython_once(driver, scenarios, todo, params,
                                             env, stall, as_root, egg)
                except Exception as exc:
                    errors.append(exc)
                    return
                for i, events in done.items():
                    results[i] = events
                todo = [i for i in todo if i not in done]
                if todo:
                    incidents += 1
                    if incidents > 8:
                        for i in todo:
                            results[i] = []
                        return
        threads = [threading.Thread(target=run, args=(s,))
                   for s in range(shards)]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        if errors:
            raise errors[0]
        return results

    def _jython_once(self, driver, scenarios, todo, params, env, stall,
                     as_root, egg):
        tmp = tempfile.mkdtemp(prefix=driver + '-', dir=self.work)
        os.chmod(tmp, 0o755)
        if not as_root:
            os.chown(tmp, NOBODY, NOBODY)
        inp, outp = os.path.join(tmp, 'in.json'), os.path.join(tmp, 'out')
        err = os.path.join(tmp, 'err')
        with open(inp, 'w') as f:
            json.dump(dict(params=params or {}, work=tmp,
                           todo=[[i, scenarios[i]] for i in todo]), f)
        os.chmod(inp, 0o644)
        command = JYTHON + ['-Djava.io.tmpdir=' + tmp,
                            '-Duser.home=' + tmp,
                            os.path.join(JY, driver + '.py'), inp, outp]
        # -D options of the JVM must come before -jar
        opts = [c for c in command if c.startswith('-Djava.io') or
                c.startswith('-Duser.home')]
        command = [c for c in command if c not in opts]
        command[1:1] = opts
        if not as_root:
            command = ['setpriv', '--reuid=%d' % NOBODY,
                       '--regid=%d' % NOBODY, '--clear-groups'] + command
        with open(err, 'wb') as errf:
            process = subprocess.Popen(
                command, cwd=tmp, stdin=subprocess.DEVNULL, stdout=errf,
                stderr=errf, start_new_session=True,
                env=self.jython_env(egg, tmp, dict(env or {}, TMPDIR=tmp)))
        done = collections.OrderedDict()
        current = None
        position = 0
        buf = b''
        last = time.time()
        ended = False
        stalled = False

        def feed():
            nonlocal position, buf, current, last, ended
            try:
                with open(outp, 'rb') as f:
                    f.seek(position)
                    data = f.read()
            except IOError:
                return
            if data:
                last = time.time()
                position += len(data)
                buf += data
                *lines, rest = buf.split(b'\n')
                buf = rest
                for line in lines:
                    event = json.loads(line.decode('utf-8'))
                    if event.get('ev') == '#begin':
                        current = event['i']
                        done[current] = []
                    elif event.get('ev') == '#end':
                        current = None
                    elif event.get('ev') == '#done':
                        ended = True
                    else:
                        done[current].append(event)
        while process.poll() is None:
            time.sleep(0.05)
            feed()
            if time.time() - last > stall:
                stalled = True
                break
        try:
            os.killpg(process.pid, signal.SIGKILL)
        except OSError:
            pass
        process.wait()
        feed()
        if not ended:
            if current is None:
                with open(err, 'rb') as f:
                    sys.stderr.write(f.read()[-5000:].decode('utf-8',
                                                             'replace'))
                raise MachineryError('driver %s stopped outside of a scenario'
                                     % driver)
            with open(err, 'rb') as f:
                tail = f.read()[-1500:].decode('utf-8', 'replace')
            log('driver %s: scenario %s %s\n%s' % (
                driver, current, 'hangs' if stalled else 'ended the process',
                tail))
            done[current].append({'ev': 'hang' if stalled else 'died'})
        subprocess.call(['chmod', '-R', 'u+rwX', tmp],
                        stderr=subprocess.DEVNULL)
        shutil.rmtree(tmp, ignore_errors=True)
        return done

    def judge(self, driver, module, scenarios, params=None, shards=2,
              strip=None, env=None, only=None, **kw):
        """Run scenarios, have TLC judge the events, record the violations.

        Clauses are named "<property>.<what>"; only those of the property
        being decided count.
        """
        scenarios = self.only(scenarios)
        if not scenarios:
            raise MachineryError('The scenario to replay was not generated')
        results = self.jython(driver, scenarios, params=params, shards=shards,
                              env=env, **kw)
        events, owner = [], []
        for i, evs in enumerate(results):
            for event in evs or []:
                owner.append(i)
                events.append(event)
        self.traces += sum(1 for r in results if r)
        if events:
            for i in (0, len(events) // 2, len(events) - 1):
                self.sample(events[i])
        for bad in self.validate(module, [strip(e) for e in events]
                                 if strip else events):
            owned = owner[bad['line'] - 1]
            for clause in bad['clauses']:
                if clause.split('.')[0] in (self.prop, 'hang'):
                    self.violation(clause, scenarios[owned],
                                   events[bad['line'] - 1])
        return results

    # -- verdicts ----------------------------------------------------------

    def normal(self, value):
        return json.dumps(value, sort_keys=True).replace(self.scratch, '@S')

    def only(self, scenarios):
        """The scenarios to run: all, or the one to replay."""
        if not self.replay:
            return scenarios
        wanted = json.dumps(self.replay, sort_keys=True)
        return [s for s in scenarios if self.normal(s) == wanted]

    def violation(self, clause, scenario, detail):
        scenario = json.loads(self.normal(scenario))
        self.violations.append(dict(clause=clause, scenario=scenario,
                                    detail=detail))

    def sample(self, value, limit=3):
        if len(self.samples) < limit:
            text = json.dumps(value)
            self.samples.append(value if len(text) < 2000
                                else text[:2000] + '...')


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        return json.load(f)


def finish(ctx, level):
    """Write the evidence, print the verdict, return the exit status."""
    known = [k for k in load_known()['findings'] if k['property'] == ctx.prop]
    new, seen = [], []
    for violation in ctx.violations:
        text = json.dumps(violation['scenario'], sort_keys=True)
        for finding in known:
            if finding['clause'] == violation['clause'] and \
                    finding['scenario'] in text:
                if finding not in seen:
                    seen.append(finding)
                break
        else:
            new.append(violation)
    coverage = collections.OrderedDict([
        ('states', ctx.states), ('transitions', ctx.transitions),
        ('traces_validated_against_impl', ctx.traces),
        ('events_checked_by_tlc', ctx.events),
        ('models', ctx.models), ('samples', ctx.samples),
        ('exhaustive', False),
    ])
    coverage.update(ctx.notes)
    evidence = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed,
                    level=level, coverage=coverage,
                    assumptions=ctx.assumptions,
                    wall_s=round(time.time() - ctx.start, 1),
                    violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for finding in seen:
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, finding['what']))
    if not new:
        print('OK property=%s states=%d transitions=%d traces=%d events=%d '
              'wall=%.1fs' % (ctx.prop, ctx.states, ctx.transitions,
                              ctx.traces, ctx.events,
                              time.time() - ctx.start))
        return 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    shown = set()
    for violation in new:
        if violation['clause'] in shown or len(shown) >= 5:
            continue
        shown.add(violation['clause'])
        name = '%s-%s.json' % (ctx.prop, hashlib.sha1(json.dumps(
            violation, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(VERIF, 'replays', name)
        with open(path, 'w') as f:
            json.dump(dict(violation, property=ctx.prop, seed=ctx.seed,
                           tier=ctx.tier), f, indent=1)
        print('clause %s: %s' % (violation['clause'],
                                 json.dumps(violation['detail'])[:1500]))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
    print('%d violation(s)' % len(new))
    return 1
