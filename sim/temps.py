"""P15: temporary files of spaces, readers and saves end with their owner."""
import atexit, copy, gc, json, os, random, stat
import simlib, world, faults
from simlib import L, Violation, bypass
from hist import Refs, run_op, toron
from disagg import DGen
from gen import LINKS

KINDS = ('fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql')
STEPS = dict(new=4, load=7, bind=2, reader=12, iter=6, closer=5, drops=5, save=7, op=8, translate=3, dead=1, collect=1)


class Temps:
    RUNS = dict(quick=320, thorough=24000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (step, fault kind and position, outcome, live owners) tuples'
    RULE = ('Each case is a seeded life of several spaces and readers (created, read, cached, bound, used, saved, translated, partly consumed, '
            'closed, dropped) with faults on some steps; one step is repeated from a snapshot under many drawn fault points, each followed by the '
            'end of all owners, or by a normal process exit. An evaluation is one comparison of both directories with the files the living owners '
            'should have; non-trivial = a fault fired, or an owner ended.')
    ASSUMPTIONS = ['Removing files (unlink) itself is not made to fail.',
                   'An interrupt is not delivered inside the Python library call that creates a temporary file.',
                   'The end of a process is a normal one (no kill, no os._exit).']

    def __init__(self, prop):
        self.PROP = prop

    def generate(self, rng, tier, i):
        g = DGen(rng, {})
        setup = g.prepare()
        setup += [['addlink', 0, 'e1', {}]]
        n, steps = rng.choice([4, 8, 14]), []
        names = list(STEPS)
        for _ in range(n):
            k = rng.choices(names, [STEPS[x] for x in names])[0]
            s = [k, rng.getrandbits(16)]
            if k in ('new', 'load'):
                s += [rng.random() < 0.7]
            elif k == 'reader':
                s += [rng.random() < 0.75, rng.random() < 0.2]
            elif k == 'iter':
                s += [rng.choice([1, 2, 5, 1000])]
            elif k == 'closer':
                s += [rng.choice([1, 1, 2, 3])]
            elif k == 'save':
                s += [rng.choice(['a', 'b', 'c']), rng.random() < 0.7, rng.random() < 0.15, rng.choice(['', '', '', '', 'file', 'dir'])]
            elif k == 'op':
                s += [g.more()]
            fault = None
            if rng.random() < 0.3:
                fault = self.fault(rng)
            steps.append([s, fault])
        return dict(setup=setup, steps=steps, at=rng.randrange(n), k=14 if tier == 'quick' else 40,
                    exit=rng.random() < 0.6, sweep=rng.choice(['', '', '', 'fs', 'sigsql', 'sqlint', 'mem']))

    def fault(self, rng):
        return dict(k=rng.choice(KINDS), n=int(2 ** rng.uniform(0, 9)), e=rng.choice(faults.ERRS), v=rng.choice([1, 5, 30]),
                    r=rng.choice([3, 1 << 30]))

    def shrink_paths(self, case):
        return [('steps',), ('setup',)]

    def simplify(self, case):
        for j in range(len(case['steps'])):
            if case['steps'][j][1]:
                c = json.loads(json.dumps(case))
                c['steps'][j][1] = None
                yield c
        for at in range(len(case['steps'])):
            if at != case['at']:
                yield dict(case, at=at)

    # ------------------------------------------------------------ the world
    def listing(self):
        with bypass():
            out = set()
            for root, dirs, names in os.walk(self.d):
                if '/aux' in root:
                    continue
                for n in names:
                    out.add(os.path.relpath(os.path.join(root, n), self.d))
            return out

    def expected(self):
        return self.user | set(x['file'] for x in self.owners if x['file'])

    def check(self, where, pin=None):
        self.res.evals += 1
        got, exp = self.listing(), self.expected()
        # a roll-back that failed leaves its journal until the next use
        got -= {x['file'] + '-journal' for x in self.owners if x['file']}
        if any(x['bind'] for x in self.owners):
            got -= {'work/base.toron-journal'}
        if got - exp:
            raise Violation('file-left-behind', f'{where}: {sorted(got - exp)} remain(s), not owned by anyone alive', pin)
        if exp - got:
            raise Violation('file-removed', f'{where}: {sorted(exp - got)} removed although in use', pin)

    def pick(self, kind, n, cond=lambda x: True):
        xs = [x for x in self.owners if x['kind'] == kind and cond(x)]
        return xs[n % len(xs)] if xs else None

    def act(self, s):
        """Run one step; returns the function to do the bookkeeping of a success."""
        t = toron()
        k, n = s[0], s[1]
        if k == 'new':
            return self.adopt('space', lambda: t.DataSpace(cache_to_drive=s[2]), s[2])
        if k == 'load':
            return self.adopt('space', lambda: t.read_file(self.base, cache_to_drive=s[2]), s[2])
        if k == 'bind':
            return self.adopt('space', lambda: t.bind_file(self.base, mode='rw'), False, True)
        if k == 'reader':
            x = self.pick('space', n)
            if not x:
                return None
            sel = ['[sex="M"]'] if s[3] else []
            return self.adopt('reader', lambda: x['obj'](*sel, cache_to_drive=s[2]), s[2], of=x)
        if k == 'iter':
            x = self.pick('reader', n, lambda x: not x['closed'])
            if not x:
                return None

            def go():
                for _ in range(s[2]):
                    if next(x['obj'], None) is None:
                        break
            return go, lambda: x.update(read=True)
        if k == 'translate':
            x = self.pick('reader', n, lambda x: not x['closed'])
            y = self.pick('space', n // 7)
            if not x or not y:
                return None
            return (lambda: x['obj'].translate(y['obj'])), lambda: None
        if k == 'closer':
            x = self.pick('reader', n)
            if not x:
                return None

            def go():
                for _ in range(s[2]):
                    x['obj'].close()
            return go, lambda: x.update(closed=True, file=None)
        if k == 'save':
            x = self.pick('space', n)
            if not x:
                return None
            path = os.path.join(self.d, 'work', s[2] + '.toron')
            if s[4]:
                path = os.path.join(self.d, 'work', 'nodir', s[2] + '.toron')

            def go():
                if not s[5]:
                    return x['obj'].to_file(path, fsync=s[3])
                with faults.readonly(path if s[5] == 'file' else os.path.dirname(path)):
                    x['obj'].to_file(path, fsync=s[3])
            return go, lambda: self.user.add(os.path.relpath(path, self.d))
        if k == 'op':
            x = self.pick('space', n, lambda x: not x['bind'])
            if not x:
                return None
            return (lambda: world.execute(x['obj'], s[2], self.refs.spaces)), lambda: None
        if k == 'dead':                        # a cycle keeps a space alive until collected
            x = self.pick('space', n, lambda x: not self.readers(x))
            if not x:
                return None
            def go():
                c = [x['obj']]
                c.append(c)
                x['obj'] = None
            return go, lambda: (self.owners.remove(x), gc.collect())
        if k == 'drops':
            x = self.pick('space', n, lambda x: not self.readers(x))
            if not x:
                return None
            return (lambda: x.update(obj=None)), lambda: self.owners.remove(x)
        if k == 'collect':
            return (lambda: gc.collect()), lambda: None
        raise AssertionError(k)

    def readers(self, x):
        """Readers of this space: alive until closed and dropped."""
        return [r for r in self.owners if r['kind'] == 'reader' and r['of'] is x and r['obj'] is not None]

    def adopt(self, kind, make, cached, bind=False, of=None):
        slot = {}

        def go():
            slot['obj'] = make()

        def book():
            new = sorted(self.listing() - self.expected())
            if len(new) != (1 if cached else 0):
                raise Violation('unexpected-files', f'a {"cached" if cached else "memory or bound"} {kind} has the files {new}')
            self.owners.append(dict(kind=kind, obj=slot.pop('obj'), file=new[0] if new else None, bind=bind, of=of, closed=False))
        return go, book

    def attempt(self, s, f, where, pin=None):
        """Run a step, with fault f or none; (exception name, fired)."""
        a = self.act(s)
        if a is None:
            return 'skipped', False
        go, book = a
        a = None
        if f is None:
            err, fired = None, False
            try:
                go()
            except Exception as e:
                err = e
                if not simlib._in_toron(e.__traceback__) and s[0] != 'op':
                    raise
        else:
            err, fired = faults.attempt(go, f)
        en = type(err).__name__ if err is not None else None
        if err is not None:
            err.__traceback__ = None
        err = None
        if en is None:
            book()
        elif s[0] == 'save':
            # a failing save may have replaced the target already (P02)
            p = os.path.relpath(os.path.join(self.d, 'work', s[2] + '.toron'), self.d)
            if p in self.listing() and not s[4]:
                self.user.add(p)
        elif s[0] in ('closer', 'drops', 'dead'):
            raise Violation('close-failed', f'{where}: {en}', pin)
        go = book = None
        gc.collect()
        self.check(where, pin)
        return en, fired

    def end(self, how, where, pin=None):
        """All owners end; nothing but the user's files stays."""
        if how:
            where += '; then a normal exit'
            atexit._run_exitfuncs()
            for x in self.owners:
                x['file'] = None
            self.check(where, pin)
            return
        for x in [x for x in self.owners if x['kind'] == 'reader']:
            x['obj'].close()
            x['file'] = None
            self.check(where + '; then reader closed', pin)
            x['obj'] = None
            self.owners.remove(x)
        x = None
        gc.collect()
        for x in list(self.owners):
            x['obj'] = None
            self.owners.remove(x)
            x = None
            gc.collect()
            self.check(where + '; then space dropped', pin)

    def usable(self, where, pin=None):
        """What the living owners hold can still be read."""
        for x in self.owners:
            try:
                if x['kind'] == 'space':
                    with bypass():
                        list(x['obj'].select_index())
                        x['obj'].max_index_id
                elif not x['closed'] and x['file']:
                    with bypass():
                        for _ in range(2):
                            next(x['obj'], None)
            except Exception as e:
                # labels may have changed under a reader
                if x['kind'] == 'reader' and not isinstance(e, (OSError, __import__('sqlite3').Error)):
                    continue
                raise Violation('owner-unusable', f'{where}: {x["kind"]} {x["file"]}: {type(e).__name__}: {e}', pin)
            x = None
        self.check(where + '; then read', pin)

    def run(self, case, res):
        self.res, self.d = res, res.dir
        self.refs = Refs()
        t = toron()
        self.base = os.path.join(self.d, 'work', 'base.toron')
        with bypass():
            s = t.DataSpace()
            for op in case['setup']:
                run_op(s, op, self.refs)
            s.to_file(self.base, fsync=False)
            del s
            # files of somebody else, with likely names
            for n in ('tmp/tmpother.toron', 'work/a-other.temp', 'work/a.toron-journal.bak', 'tmp/tmpother2'):
                with open(os.path.join(self.d, n), 'w') as f:
                    f.write('x')
        gc.collect()
        self.user = self.listing()
        self.owners = []
        rng = random.Random(case['seed'])
        for j, (s, f) in enumerate(case['steps']):
            where = f'step {j} {json.dumps(s, ensure_ascii=False)[:160]}'
            if j == case['at']:
                self.many(case, s, where, rng)
            en, fired = self.attempt(s, f, where + (f' under {f}' if f else ''))
            res.count(f'step.{s[0]}.{en or "ok"}')
            if fired:
                res.count(f'fault.{f["k"]}')
            if fired or s[0] in ('closer', 'drops', 'dead'):
                res.nontrivial += 1
            res.sig(s[0], f and f['k'], en, [(x['kind'], bool(x['file']), x['closed']) for x in self.owners])
            self.usable(where)
        self.end(case['exit'], 'end')
        res.sample = dict(steps=case['steps'][:4], owners=len(self.owners))

    def many(self, case, s, where, rng):
        res = self.res
        files0 = simlib.snapshot_dir(self.d)

        def plain():
            a = self.act(s)
            if a:
                a[0]()
        if 'pin' in case:
            plan = case['pin']
        else:
            counts = faults.measure(plain)
            simlib.restore_dir(self.d, files0)
            plan = faults.make_plan(rng, counts, case['k'], KINDS)
            if case['sweep']:
                kw = {'e': 5} if case['sweep'] == 'fs' else {'v': 1} if case['sweep'] == 'sqlint' else {}
                p = faults.sweep(counts, case['sweep'], **kw)
                plan += [p[j] for j in sorted(rng.sample(range(len(p)), min(len(p), 60)))]
        for f in plan:
            how = f.get('exit', rng.random() < 0.4)
            f = dict(f, exit=how)

            def sub():
                pin = dict(pin=[f])
                w = f'{where} under {f}'
                ev = res.evals
                en, fired = self.attempt(s, f, w, pin)
                self.usable(w, pin)
                self.end(how, w, pin)
                return en, fired, res.evals - ev
            en, fired, ev = simlib.forked(sub)
            simlib.restore_dir(self.d, files0)
            res.evals += ev
            if fired:
                res.nontrivial += 1
                res.count(f'fault.{f["k"]}')
                res.sig(s[0], s[2:3], f['k'], f['n'], en)
            res.count(f'probe.{s[0]}.{"exit" if how else "drop"}.{en or "ok"}')


def make(prop):
    return Temps(prop)
