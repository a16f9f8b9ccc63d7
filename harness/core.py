"""Machinery shared by the checks: running TLC, recording events of the real
code, having TLC judge them, and reporting.

The harness never computes an expected value. It converts what the code under
test returned to integers and hands it to the trace specification.
"""
import contextlib
import copy
import importlib
import json
import math
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
EVIDENCE = os.path.join(ROOT, 'evidence')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')

# Stands for a number that has no place in the units of the specification
# (not finite, out of range, or not near a multiple of the unit).
BAD = -1000000007
LIMIT = 2**31 - 1
MORE = 3            # cases of the quick tier, in multiples of those the checks name

CRASHES = (signal.SIGABRT, signal.SIGSEGV, signal.SIGFPE, signal.SIGBUS, signal.SIGILL)
RAISED = 3          # exit status of a worker in which the code under test raised


class HarnessError(Exception):
    """The machinery failed; says nothing about the property."""


class Timeout(Exception):
    pass


class Unreadable(Exception):
    """An answer that cannot be put in the words of the specification."""


def quant(x, unit=1.0, tol=0.01):
    """x in multiples of unit, BAD if it is not one to within tol."""
    try:
        r = float(x)/unit
    except (TypeError, ValueError, ZeroDivisionError):
        return BAD
    if not math.isfinite(r) or abs(r) > 1.0e9:
        return BAD
    n = int(round(r))
    return n if abs(r-n) <= tol else BAD


def quants(xs, unit=1.0, tol=0.01):
    import numpy as np
    return [quant(x, unit, tol) for x in np.ma.filled(np.ma.asarray(xs, dtype='f8'), np.nan).ravel()]


def nearest(x, unit=1.0):
    """x rounded to a multiple of unit (for values judged with a tolerance)."""
    return quant(x, unit, 0.51)


def nearests(xs, unit=1.0):
    return quants(xs, unit, 0.51)


def clean(v):
    """A JSON value TLC can read."""
    if isinstance(v, bool):
        return v
    if isinstance(v, str):
        return v
    if isinstance(v, dict):
        return {str(k): clean(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [clean(w) for w in v]
    if hasattr(v, 'tolist') and not isinstance(v, (int, float)):
        return clean(v.tolist())
    if isinstance(v, float):
        if v != int(v):
            raise Unreadable('float %r in an event' % v)
        v = int(v)
    if isinstance(v, int):
        return v if abs(v) <= LIMIT else BAD
    raise Unreadable('cannot put %r in an event' % (v,))


class TlcResult(object):
    def __init__(self, code, out):
        self.code, self.out = code, out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r'The number of states generated: (\d+)', out)
            self.generated = int(m[-1]) if m else 0

    def printed(self, tag):
        """JSON payloads of PrintT("<tag> " \\o ToJson(..)) lines."""
        start = '"%s ' % tag
        for line in self.out.splitlines():
            if line.startswith(start):
                yield json.loads(json.loads(line)[len(tag)+1:])


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.events = []
        self.session = 0
        self.running = []
        self.pending = []
        self.states = self.transitions = 0
        self.validated = self.behaviours = 0
        self.models = {}
        self.corrupted = self.corrupted_rejected = 0
        self.rejects = []
        self.crashes = []
        self.hung = False
        self.notes = []
        self.files = 0
        self.t0 = time.time()
        self.ntlc = 0
        self.timing = {}

    thorough = property(lambda self: self.tier == 'thorough')

    def scale(self, quick, thorough):
        if self.thorough or not isinstance(quick, int):
            return thorough if self.thorough else quick
        return min(MORE*quick, thorough)

    def rng(self, name=''):
        return random.Random(zlib.crc32(('%s/%s/%d' % (self.prop, name, self.seed)).encode()))

    def nprng(self, name=''):
        import numpy as np
        return np.random.RandomState(self.rng(name).randrange(2**31))

    def path(self, name='f'):
        """A fresh file name in the scratch directory."""
        self.files += 1
        d = os.path.join(self.scratch, 'd%05d' % self.files)
        os.makedirs(d)
        return os.path.join(d, name)

    # -- TLC ------------------------------------------------------------
    def start_tlc(self, module, cfg=None, args=(), env=None, workers=1, heap='1500m'):
        """Start TLC; no Python threads, so that forking stays safe."""
        self.ntlc += 1
        meta = os.path.join(self.scratch, 'tlc%d' % self.ntlc)
        os.makedirs(meta)
        cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=%d' % (1 if workers == 1 else 4),
               '-Xss32m', '-Xmx%s' % heap, '-Djava.io.tmpdir=%s' % meta,
               '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta,
               '-workers', str(workers), '-config', (cfg or module) + '.cfg'] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e['PROP'] = self.prop
        e.update(env or {})
        out = open(os.path.join(meta, 'out'), 'wb')
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=out,
                             stderr=subprocess.STDOUT)
        out.close()
        p.meta, p.module, p.t0 = meta, cfg or module, time.time()
        self.running.append(p)
        return p

    def wait_tlc(self, p, timeout=800):
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise HarnessError('TLC timed out on %s' % p.module)
        self.running.remove(p)
        with open(os.path.join(p.meta, 'out'), 'rb') as f:
            out = f.read().decode('utf8', 'replace')
        shutil.rmtree(p.meta, ignore_errors=True)
        return TlcResult(p.returncode, out)

    def tlc(self, *args, **kwargs):
        return self.wait_tlc(self.start_tlc(*args, **kwargs))

    def model_check(self, module, cfg=None, workers=2, env=None):
        """Exhaustively check a small instance of the specification. Runs in
        the background; the result is collected in finish()."""
        self.pending.append(self.start_tlc(module, cfg, workers=workers, env=env, heap='4g'))

    def collect_models(self):
        for p in self.pending:
            r = self.wait_tlc(p)
            if r.code != 0:
                raise HarnessError('the specification %s failed:\n%s' % (p.module, r.out[-4000:]))
            self.states += r.distinct
            self.transitions += r.generated
            self.models[p.module] = dict(distinct_states=r.distinct, states_generated=r.generated)
        self.pending = []

    def parallel(self, f, items, processes=6):
        """f(ctx, item) for every item, in forked processes; the events they
        record are kept in the order of the items."""
        items = list(items)
        n = max(1, min(processes, len(items)))
        paths, pids = [], []
        base, session = len(self.events), self.session
        self.files += 10000     # workers name their files apart from those of other calls
        for w in range(n):
            path = os.path.join(self.scratch, 'part%d-%d' % (base, w))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    mine = []
                    self.files = 100000*(w+1) + self.files
                    for i in range(w, len(items), n):
                        self.events, self.session = [], 0
                        f(self, items[i])
                        mine.append((i, self.events, self.session))
                    with open(path, 'w') as out:
                        json.dump(mine, out)
                    code = 0
                except BaseException as e:
                    traceback.print_exc()
                    text = from_repo(e) or not_readable(e)
                    if text:
                        with open(path, 'w') as out:
                            out.write(text)
                        code = RAISED
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            paths.append(path)
            pids.append(pid)
        codes = [os.waitpid(pid, 0)[1] for pid in pids]
        parts = []
        for path, code in zip(paths, codes):
            if os.WIFSIGNALED(code) and os.WTERMSIG(code) in CRASHES:
                self.crashes.append('the process ended with signal %d' % os.WTERMSIG(code))
                continue
            if os.WIFEXITED(code) and os.WEXITSTATUS(code) == RAISED:
                with open(path) as f:
                    self.crashes.append(f.read())
                continue
            if code:
                raise HarnessError('a worker process failed')
            with open(path) as f:
                parts.extend(json.load(f))
            os.remove(path)
        for i, events, sessions in sorted(parts, key=lambda p: p[0]):
            for ev in events:
                ev['sid'] += self.session
                ev['n'] = len(self.events)+1
                self.events.append(ev)
            self.session += max(sessions, 1)

    def generate(self, module, cfg=None, num=None, depth=None, env=None, limit=None):
        """Behaviours of the specification, as printed by its GEN lines. With
        num, random ones of at most that depth; without, all of them."""
        args = []
        if num:
            args = ['-simulate', 'num=%d' % num, '-depth', str(depth or 20), '-seed', str(self.seed)]
        r = self.tlc(module, cfg, args=args, env=env, heap='4g', workers=1)
        if r.code != 0:
            raise HarnessError('generation from %s failed:\n%s' % (cfg or module, r.out[-4000:]))
        out = list(r.printed('GEN'))
        if not out:
            raise HarnessError('%s generated no behaviour' % (cfg or module))
        if not num:
            self.states += r.distinct
            self.transitions += r.generated
        self.models['gen ' + (cfg or module)] = dict(
            behaviours=len(out), distinct_states=r.distinct, states_generated=r.generated)
        if limit and len(out) > limit:
            out = self.rng('limit' + module).sample(out, limit)
        self.behaviours += len(out)
        return out

    # -- recording ------------------------------------------------------
    def begin(self):
        """Start a new session (a behaviour of its own in the trace)."""
        self.session += 1
        return self.session

    def event(self, op, **fields):
        ev = dict(n=len(self.events)+1, sid=self.session, op=op, case='', err='')
        if {'n', 'sid', 'op'} & set(fields):
            raise HarnessError('reserved field')
        ev.update(clean(fields))
        self.events.append(ev)
        return ev

    def call(self, f, *args, **kwargs):
        """(value, '') or (None, description of the exception)."""
        # processor time, so that a busy machine is not taken for a hang; the
        # clock only stops a call that waits. Shorter once a call has hung.
        busy, wait = (10, 60) if self.hung else (60, 300)

        def alarm(signum, frame):
            self.hung = True
            raise Timeout('no result after %d s' % (wait if signum == signal.SIGALRM else busy))
        old = [(n, signal.signal(n, alarm)) for n in (signal.SIGALRM, signal.SIGPROF)]
        signal.alarm(wait)
        signal.setitimer(signal.ITIMER_PROF, busy)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with quiet():
                    return f(*args, **kwargs), ''
        except HarnessError:
            raise
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = ['%s:%d' % (os.path.basename(t.filename), t.lineno) for t in tb[-3:]]
            return None, '%s: %s [%s]' % (type(e).__name__, str(e)[:200], ' '.join(at))
        finally:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            for n, handler in old:
                signal.signal(n, handler)

    # -- judging --------------------------------------------------------
    def validate(self, module, cfg=None, shards=6, corruptions=None, env=None, keys=None):
        """Have TLC judge the recorded events by the trace specification."""
        t = time.time()
        events, self.events = self.events, []
        if not events and self.crashes:
            return
        if not events:
            raise HarnessError('nothing was recorded for %s' % module)
        groups = {}
        for ev in events:
            groups.setdefault(ev['sid'], []).append(ev)
        groups = list(groups.values())
        parts = [[] for i in range(min(shards, len(groups)))]
        sizes = [0]*len(parts)
        for g in sorted(groups, key=lambda g: -len(json.dumps(g))):
            i = sizes.index(min(sizes))
            parts[i].append(g)
            sizes[i] += len(json.dumps(g))
        bent = self._corrupt(groups, corruptions or self.scale(24, 60), keys)
        judged = self._judge(module, cfg, [[e for g in p for e in g] for p in parts + [bent]], env)
        rejected = [x for j in judged[:-1] for x in j]
        bent_rejected = judged[-1]
        byn = {ev['n']: ev for ev in events}
        for n, bad in sorted(rejected):
            self.rejects.append((byn[n], [e for e in events if e['sid'] == byn[n]['sid']], sorted(bad)))
        hit = {n for n, bad in bent_rejected if n < 0}
        self.corrupted += len(bent)
        self.corrupted_rejected += len(hit)
        if bent and not hit:
            raise HarnessError('%s rejected none of %d corrupted recordings' % (module, len(bent)))
        self.validated += len(groups)
        c = self.models.setdefault('trace ' + (cfg or module), dict(events=0, sessions=0, ops={}))
        c['events'] += len(events)
        c['sessions'] += len(groups)
        for ev in events:
            c['ops'][ev['op']] = c['ops'].get(ev['op'], 0)+1
        if not hasattr(self, 'samples'):
            self.samples = []
        for op in sorted({ev['op'] for ev in events}):
            sample = next((ev for ev in events if ev['op'] == op and len(json.dumps(ev)) < 1500), None)
            if sample is not None and len(self.samples) < 4:
                self.samples.append(sample)
        self.timing['validate'] = self.timing.get('validate', 0) + round(time.time()-t, 1)

    def _judge(self, module, cfg, shards, env):
        """Per shard [(event number, violated clauses)]; the shards are judged
        at the same time."""
        out, restarts = [[] for s in shards], 0
        todo = [(i, events, self._start_judge(module, cfg, events, env)) for i, events in enumerate(shards) if events]
        while todo:
            i, events, p = todo.pop(0)
            r = self.wait_tlc(p)
            out[i].extend((x['n'], x['bad']) for x in r.printed('REJECT'))
            if r.code == 0:
                # TLC counts the state before each event, and the last one
                if r.distinct != len(events) + 1:
                    raise HarnessError('%s read %d of %d events' % (module, r.distinct-1, len(events)))
                continue
            # The specification is not defined on something that was recorded
            # (for instance arithmetic on a value out of all range). That event
            # is rejected, and its session ends there.
            at = re.findall(r'^(?:/\\ )?l = (\d+)', r.out, re.M)
            if not at or 'Error:' not in r.out or 'OutOfMemory' in r.out or int(at[-1]) > len(events):
                raise HarnessError('TLC failed on %s:\n%s' % (module, r.out[-4000:]))
            l = int(at[-1])
            bad = events[l-1]
            if os.environ.get('VERIF_DEBUG'):
                print(r.out[-3000:])
            out[i].append((bad['n'], ['defined']))
            bad['err'] = bad['err'] or _tlc_error(r.out)
            restarts += 1
            if restarts > 8:
                continue    # enough is known
            rest = [ev for ev in events[l:] if ev['sid'] != bad['sid']]
            if rest:
                todo.append((i, rest, self._start_judge(module, cfg, rest, env)))
        return out

    def _start_judge(self, module, cfg, events, env):
        path = os.path.join(self.scratch, 'trace%d.ndjson' % self.ntlc)
        with open(path, 'w') as f:
            for ev in events:
                f.write(json.dumps(ev) + '\n')
        e = dict(env or {})
        e['TRACE'] = path
        return self.start_tlc(module, cfg, env=e, heap='3g')

    def _corrupt(self, groups, count, keys=None):
        """Sessions whose last recorded result has been changed in one place;
        the changed events get negative numbers. keys limits the
        change to the fields of these names."""
        rng = self.rng('corrupt')
        byop = {}
        for g in groups:
            if len(json.dumps(g)) > 200000:
                continue
            for i, ev in enumerate(g):
                if not ev['err'] and any(True for x in _leaves(ev.get('res', []), None, keys)):
                    byop.setdefault(ev['op'], []).append((g, i))
        out = []
        ops = sorted(byop)
        for k in range(count if ops else 0):
            g, i = rng.choice(byop[ops[k % len(ops)]])
            g = copy.deepcopy(g[:i+1])
            if not _bend(rng, g[-1]['res'], lambda v: g[-1].__setitem__('res', v), keys):
                continue
            for ev in g:
                ev['sid'] = 10**6 + k
                ev['n'] = 10**6 + abs(ev['n'])
            g[-1]['n'] = -(k+1)
            out.append(g)
        return out

    # -- reporting ------------------------------------------------------
    def finish(self):
        self.collect_models()
        known = known_findings(self.prop)
        printed, seen = set(), set()
        violations = []
        rdir = os.path.join(EVIDENCE, 'replay')
        for ev, session, bad in self.rejects:
            for clause in bad:
                k = next((k for k in known if k['clause'] == clause and k['case'] == ev['case']), None)
                if k:
                    if k['text'] not in printed:
                        printed.add(k['text'])
                        print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
                    continue
                if (ev['op'], clause) in seen or len(violations) == 25:
                    continue
                seen.add((ev['op'], clause))
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, '%s-%d.json' % (self.prop, len(violations)+1))
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, clause=clause,
                                   rejected_event=ev, session=session if len(session) < 200 else []), f, indent=1)
                violations.append(dict(clause=clause, op=ev['op'], case=ev['case'], err=ev['err'], replay=path))
        for text in sorted(set(self.crashes))[:3]:
            # what was under test ended a process, or raised outside of a recorded call
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%d.json' % (self.prop, len(violations)+1))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, clause='answers', error=text), f, indent=1)
            violations.append(dict(clause='answers', op='process', case='', err=text, replay=path))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   behaviours_replayed=self.behaviours, models=self.models,
                   corrupted_recordings=self.corrupted,
                   corrupted_recordings_rejected=self.corrupted_rejected,
                   samples=getattr(self, 'samples', []))
        if violations:
            cov['violated'] = violations
        if self.notes:
            cov['notes'] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=cov, wall_s=round(time.time()-self.t0, 1), violations=len(violations))
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for v in violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, v['replay']))
            print('  clause %s at %s %s %s' % (v['clause'], v['op'], v['case'], v['err']))
        print('%s: %d violations; %d model states, %d traces validated, %d/%d corrupted rejected, %.1f s' % (
            self.prop, len(violations), self.states, self.validated,
            self.corrupted_rejected, self.corrupted, time.time()-self.t0))
        return 1 if violations else 0


def _tlc_error(out):
    m = re.search(r'Error: (?!The behavior|The error occurred)(.*(?:\n.*){0,3})', out)
    return ' '.join(m.group(1).split())[:160] if m else '?'


def _leaves(v, setter, keys=None, ok=None):
    ok = keys is None if ok is None else ok
    if isinstance(v, dict):
        for k in sorted(v):
            yield from _leaves(v[k], lambda x, v=v, k=k: v.__setitem__(k, x), keys,
                               keys is None or ok or k in keys)
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from _leaves(v[i], lambda x, v=v, i=i: v.__setitem__(i, x), keys, ok)
    elif ok:
        yield v, setter


def _bend(rng, res, setter, keys=None):
    leaves = list(_leaves(res, setter, keys))
    if not leaves:
        return False
    v, put = rng.choice(leaves)
    if isinstance(v, bool):
        put(not v)
    elif isinstance(v, int):
        put(v + rng.choice([1, -1, 3, 1000, -1000, 100000]))
    elif isinstance(v, str):
        put(v + 'x')
    else:
        return False
    return True


@contextlib.contextmanager
def quiet():
    """The code under test prints; keep the output of a check readable."""
    with open(os.devnull, 'w') as null:
        with contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
            yield


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) case=(\S+) clause=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(dict(case=m.group(2), clause=m.group(3), text=m.group(4).strip()))
    return out


def from_repo(e):
    """What an exception that was raised in the code under test says."""
    tb = traceback.extract_tb(e.__traceback__)
    files = [t.filename for t in tb] + [str(getattr(e, 'filename', ''))]
    if isinstance(e, (HarnessError, KeyboardInterrupt)) or not any(f.startswith('/repo/') for f in files):
        return ''
    return told(e)


def not_readable(e):
    """What is wrong with an answer that could not be converted (its shape or
    kind is not one that the code under test is known to give)."""
    if isinstance(e, (Unreadable, TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError)):
        return 'the answer cannot be read: ' + told(e)
    return ''


def told(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '%s: %s [%s]' % (type(e).__name__, str(e)[:200], ' '.join(
        '%s:%d' % (os.path.basename(t.filename), t.lineno) for t in tb[-3:]))


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(argv) > 2:
        tier = argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    sys.path.insert(0, '/repo')
    sys.path.insert(0, os.path.join(ROOT, 'harness', 'standin'))
    import logging
    logging.disable(logging.CRITICAL)
    ctx = Ctx(prop, tier, seed)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 2
        try:
            code = drive(ctx)
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    try:
        code = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(code):
            if os.WTERMSIG(code) not in CRASHES:
                print('%s: the machinery was ended, no verdict' % prop)
                return 2
            ctx.crashes.append('the process ended with signal %d' % os.WTERMSIG(code))
            return ctx.finish()
        return os.WEXITSTATUS(code)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def drive(ctx):
    try:
        driver = importlib.import_module('props.' + ctx.prop.lower())
        try:
            driver.run(ctx)
        except Exception as e:
            text = from_repo(e) or not_readable(e)
            if not text:
                raise
            traceback.print_exc()
            ctx.crashes.append(text)
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        print('%s: the machinery failed, no verdict' % ctx.prop)
        return 2
    finally:
        for p in ctx.running:
            p.kill()
            p.wait()


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules['core'] = sys.modules['__main__']
    sys.exit(main(sys.argv))
