"""P07: read-only bindings and files that were only read stay untouched."""
import json, os, random, sqlite3, stat
import simlib, world, faults
from simlib import L, Violation, bypass
from gen import Gen
from hist import Refs, run_op, public_reads, toron
from modes import WHAT, NAMES

WRITES = (simlib.EV_CREATE, simlib.EV_WRITE, simlib.EV_TRUNC, simlib.EV_RENAME, simlib.EV_UNLINK, simlib.EV_CHMOD, simlib.EV_LINK)


class Ro:
    RUNS = dict(quick=2400, thorough=40000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (kind of opening, operation, outcome, file state) tuples'
    RULE = ('Each case opens one generated file several times (read-only bindings, memory and cached reads; permissions and file names vary) and runs a '
            'seeded sequence of modifying and reading operations on the opened spaces, with faults, while another user sometimes really changes the '
            'file; an evaluation is one operation after which file bytes, identity, permissions, the directory and the recorded file operations are '
            'compared; non-trivial = the operation would have changed the space.')
    ASSUMPTIONS = ['The file is not in need of recovery from an earlier crash (reading then rolls the unfinished transaction back, by design of SQLite).']

    def __init__(self, prop):
        self.PROP = prop

    def generate(self, rng, tier, i):
        g = Gen(rng, bad=0.05)
        setup = g.setup(wgs=rng.choice([0, 1, 2]), links=rng.choice([0, 1, 2]), nidx=rng.choice([1, 3, 5]))
        for _ in range(rng.choice([0, 4])):
            setup.append(g.next())
        st0 = json.loads(json.dumps(None))
        import copy
        base, steps = copy.deepcopy(g.st), []
        for _ in range(rng.choice([4, 8, 12])):
            x = rng.random()
            who = rng.randrange(4)
            if x < 0.1:
                g.st = copy.deepcopy(base)
                op = g.next()
                base = copy.deepcopy(g.st)
                steps.append(['W', op])
            elif x < 0.25:
                steps.append(['R', who, rng.getrandbits(20)])
            elif x < 0.32:
                steps.append(['D', who])
            elif x < 0.38:
                steps.append(['O', who, rng.choice(['ro', 'read', 'cache']), self.fault(rng)])
            elif x < 0.46:
                steps.append(['M', rng.choice(['ro', 'rw']), rng.choice(['missing', 'nodir/missing', 'empty', 'garbage', 'other', 'dir', 'short']), self.fault(rng)])
            else:
                g.st = copy.deepcopy(base)
                steps.append(['X', who, g.next(), self.fault(rng) if rng.random() < 0.3 else None])
                g.st = copy.deepcopy(base)
        return dict(setup=setup, steps=steps, kinds=['ro', 'read', 'cache', rng.choice(['ro', 'read'])],
                    perm=rng.choice([0o644, 0o644, 0o444, 0o400, 0o666]), dirperm=rng.choice([0o755, 0o755, 0o555]), name=rng.choice(NAMES))

    def fault(self, rng):
        if rng.random() < 0.5:
            return None
        return dict(k=rng.choice(['fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql', 'sigfs']), n=int(2 ** rng.uniform(0, 8)),
                    e=rng.choice([5, 13, 28]), v=rng.choice([1, 5, 30]), r=3)

    def shrink_paths(self, case):
        return [('steps',), ('setup',)]

    def snap(self):
        with bypass():
            out = {}
            for n in sorted(os.listdir(self.wd)):
                p = os.path.join(self.wd, n)
                s = os.lstat(p)
                data = None
                if stat.S_ISREG(s.st_mode):
                    with open(p, 'rb') as f:
                        data = f.read()
                out[n] = (stat.S_IMODE(s.st_mode), s.st_ino, s.st_mtime_ns, data)
            return out

    def unchanged(self, before, where, wrote=False):
        after = self.snap()
        if set(after) != set(before):
            raise Violation('directory-changed', f'{where}: was {sorted(before)}, is {sorted(after)}')
        for n in before:
            a, b = before[n], after[n]
            if a != b:
                what = [x for x, y, z in zip(('permissions', 'inode', 'modification time', 'content'), a, b) if y != z]
                raise Violation('file-changed', f'{where}: {n}: {what}')
        for k, fid, off, b1, b2 in simlib.read_log():
            if k in WRITES:
                p = os.fsdecode(b1) if k not in (simlib.EV_WRITE, simlib.EV_TRUNC) else self.fids.get(fid, '')
                if p.startswith(self.wd + '/') or (k == simlib.EV_RENAME and os.fsdecode(b2).startswith(self.wd + '/')):
                    raise Violation('file-touched', f'{where}: file operation {k} on {p}')
            if k in (simlib.EV_OPENW, simlib.EV_CREATE):
                self.fids[fid] = os.fsdecode(b1)

    def open(self, kind):
        t = toron()
        if kind == 'ro':
            return t.bind_file(self.path, mode='ro')
        return t.read_file(self.path, cache_to_drive=kind == 'cache')

    def run(self, case, res):
        refs = self.refs = Refs()
        t = toron()
        self.wd = os.path.join(res.dir, 'work')
        self.path = path = os.path.join(self.wd, case['name'] + '.toron')
        self.fids = {}
        with bypass():
            s = t.DataSpace()
            for op in case['setup']:
                run_op(s, op, refs)
            s.to_file(path, fsync=False)
            del s
            for n, data in (('empty', b''), ('garbage', b'not a database ' * 90), ('short', open(path, 'rb').read()[:1500])):
                with open(os.path.join(self.wd, n), 'wb') as f:
                    f.write(data)
            os.mkdir(os.path.join(self.wd, 'dir'))
            con = sqlite3.connect(os.path.join(self.wd, 'other'))
            con.execute('create table property(key, value)')
            con.execute('create table x(y)')
            con.commit()
            con.close()
            disk = world.read_state(path)
            os.chmod(path, case['perm'])
            os.chmod(self.wd, case['dirperm'])
        model = world.Model(refs.uids)
        before = self.snap()
        spaces, states = [], []
        for kind in case['kinds']:
            L.sim_log_start()
            try:
                spaces.append(self.open(kind))
            except Exception as e:
                raise Violation('cannot-open', f'{kind} with permissions {case["perm"]:o}, directory {case["dirperm"]:o}: {type(e).__name__}: {e}')
            self.unchanged(before, f'opening as {kind}')
            states.append(disk)
        kinds = list(case['kinds'])
        for n, step in enumerate(case['steps']):
            where = f'step {n} {json.dumps(step)}'
            res.evals += 1
            L.sim_log_start()
            if step[0] == 'W':
                # another user changes the file for real
                with bypass():
                    os.chmod(path, 0o644)
                    os.chmod(self.wd, 0o755)
                    s = t.bind_file(path, mode='rw')
                    run_op(s, step[1], refs)
                    s = None
                    disk = world.read_state(path)
                    os.chmod(path, case['perm'])
                    os.chmod(self.wd, case['dirperm'])
                before = self.snap()
                states = [disk if k == 'ro' else st for k, st in zip(kinds, states)]
                res.count('probe.changed_by_another_user')
                continue
            if step[0] == 'M':
                self.missing(step, where, res)
                self.unchanged(before, where)
                continue
            w = step[1]
            kind = kinds[w]
            where += f' on a space opened as {kind}'
            if step[0] == 'O':
                kind = step[2]
                if step[3]:
                    e, fired = faults.attempt(lambda: self.open(kind), step[3])
                    if fired:
                        res.count('fault.' + step[3]['k'])
                    e = None
                    self.unchanged(before, where + ' (failing)')
                spaces[w] = None
                spaces[w] = self.open(kind)
                kinds[w], states[w] = kind, disk
                self.unchanged(before, where)
                res.count('probe.opened_' + kind)
                continue
            if step[0] == 'R':
                self.reads(spaces[w], states[w], model, step[2], where)
                self.unchanged(before, where)
                res.count('probe.reads_' + kind)
                continue
            if step[0] == 'D':
                # readers, and saving elsewhere
                try:
                    r = spaces[w](cache_to_drive=n % 2 == 1)
                    list(r)
                    r.close()
                except Exception as e:
                    if not simlib._in_toron(e.__traceback__):
                        raise
                spaces[w].to_file(os.path.join(res.dir, 'aux', 'copy.toron'))
                self.unchanged(before, where)
                with bypass():
                    got = world.read_state(os.path.join(res.dir, 'aux', 'copy.toron'))
                d = world.diff(states[w], got)
                if d:
                    raise Violation('copy-differs', f'{where}: ' + '; '.join(d))
                res.count('probe.saved_elsewhere_' + kind)
                continue
            op, f = step[2], step[3]
            try:
                exp, mk = model.apply(states[w], op), 'ok'
            except world.Err:
                exp, mk = states[w], 'err'
            except world.Unspecified:
                exp, mk = None, 'unspec'
            if f:
                e, fired = faults.attempt(lambda: world.execute(spaces[w], op, refs.spaces), f)
                if fired:
                    res.count('fault.' + f['k'])
            else:
                e, fired = run_op(spaces[w], op, refs), False
            msg = f'{type(e).__name__}: {e}' if e else 'accepted'
            failed, e = e is not None, None
            self.unchanged(before, f'{where} ({msg})')
            changes = mk == 'ok' and world.compare(states[w], exp)
            if changes:
                res.nontrivial += 1
            res.count(f'op.{kind}.{op[0]}.{"err" if failed else "ok"}')
            res.sig(kind, op[0], failed, world.digest(states[w]))
            if kind == 'ro':
                if changes and not failed:
                    raise Violation('modification-accepted', f'{where} was accepted: ' + '; '.join(changes))
            else:
                if mk == 'ok' and failed and not fired:
                    raise Violation('own-copy-not-modifiable', f'{where}: {msg}')
                try:
                    states[w] = world.space_state(spaces[w], None, res.dir)
                except PermissionError:
                    raise
        res.sample = dict(kinds=case['kinds'], perm=oct(case['perm']), steps=len(case['steps']))
        with bypass():
            os.chmod(self.wd, 0o755)
        spaces = None

    def missing(self, step, where, res):
        """Names that are not spaces: refused, nothing created or changed."""
        t = toron()
        p = os.path.join(self.wd, step[2])
        fn = lambda: t.bind_file(p, mode=step[1])
        if step[2] in ('missing', 'nodir/missing', 'empty', 'garbage', 'other', 'dir', 'short'):
            if step[3]:
                e, fired = faults.attempt(fn, step[3])
                if fired:
                    res.count('fault.' + step[3]['k'])
            else:
                try:
                    fn()
                    e = None
                except Exception as x:
                    e = x
            if e is None:
                raise Violation('not-a-space-opened', where)
            e = None
        res.count(f'probe.refused_{step[1]}_{step[2].replace("/", "_")}')

    def reads(self, space, st, model, seed, where):
        try:
            pairs = public_reads(space, st, WHAT, self.refs.uids, model, random.Random(seed))
        except Exception as e:
            if not simlib._in_toron(e.__traceback__):
                raise
            raise Violation('read-fails', f'{where}: {type(e).__name__}: {e}')
        for name, want, got in pairs:
            d = world.diff(want, got)
            if d:
                raise Violation('read-differs', f'{where}; {name}: ' + '; '.join(d))


def make(prop, **kw):
    return Ro(prop)
