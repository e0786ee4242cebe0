"""P17: commands of the command line apply completely or not at all."""
import copy, csv, hashlib, io, json, logging, os, random, re, sqlite3, sys, uuid, zlib
import simlib, world, faults
from simlib import L, Violation, bypass
from hist import run_op, toron
from gen import LINKS, COLS, ATTRS, GROUPS, SEL
from disagg import DGen, SELS
from world import level_hex

KINDS = ('fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql')
BACKUP = {'label', 'weight', 'partition', 'attribute', 'link', 'renlabel', 'rendomain', 'index', 'quantity', 'mapping',
          'uplabel', 'upweight', 'upattr', 'rmlink'}
EXPORTS = ('xindex', 'xquantity', 'xmapping', 'info')
KINDSW = dict(label=3, weight=3, partition=2, attribute=3, link=4, renlabel=2, rendomain=1, uplabel=2, upweight=5, upattr=2, rmlink=3,
              index=8, quantity=8, mapping=6, init=2, xindex=2, xquantity=2, xmapping=2, info=1)
NAMES = dict(A='left file.toron', B='right.toron')
ODD = ['a,b', 'q"r', 'n\nl', 'cr\rx', ' sp ', "'", 'crlf\r\nx', '#', '-1', '=x', '1e3', '007']


def code(uid, i):
    c = zlib.crc32(i.to_bytes(8, 'big', signed=True) + uuid.UUID(uid).bytes) & 0xffffffff
    return f'{i}X{c:08X}'


def decode(uid, text):
    i = text.partition('X')[0]
    try:
        n = int(i)
        return n if int(text.partition('X')[2], 16) == zlib.crc32(n.to_bytes(8, 'big', signed=True) + uuid.UUID(uid).bytes) & 0xffffffff else None
    except (ValueError, OverflowError):
        return None


def to_csv(rows):
    f = io.StringIO()
    csv.writer(f, lineterminator='\n', quoting=csv.QUOTE_MINIMAL).writerows([['' if x is None else x for x in r] for r in rows])
    return f.getvalue()


class Tty(io.StringIO):
    def isatty(self):
        return True


class Feed(io.RawIOBase):
    """Standard input from a pipe, failing after some bytes if asked to."""
    def __init__(self, data, fail=None):
        self.data, self.pos, self.fail = data, 0, fail

    def readable(self):
        return True

    def readinto(self, b):
        if self.fail is not None and self.pos >= self.fail:
            raise OSError(5, 'Input/output error')
        n = min(len(b), len(self.data) - self.pos, 512)
        if self.fail is not None:
            n = min(n, self.fail - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Sink(io.RawIOBase):
    """Standard output, failing after some bytes if asked to."""
    def __init__(self, fail=None, err=28):
        self.out, self.fail, self.err = bytearray(), fail, err

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.fail is not None and len(self.out) + len(b) > self.fail:
            raise OSError(self.err, os.strerror(self.err))
        self.out += b
        return len(b)


class Exited(BaseException):
    pass


class Cli:
    RUNS = dict(quick=300, thorough=16000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (command, options, fault kind and position, outcome) tuples'
    RULE = ('Each case is one command line on two generated files (with links, weights, quantities), run by the real entry point with simulated '
            'standard streams: once without faults against the same edit through the API, then under drawn faults (also failing and broken standard '
            'streams), and killed at every file operation; or an export followed by loading it again. An evaluation is one run or reconstructed '
            'disk; non-trivial = a fault fired, the process was killed, or data was changed.')
    ASSUMPTIONS = ['The exit code is that of the Python interpreter for the value returned or exception raised by the entry point.',
                   'Removing files (unlink) itself is not made to fail.',
                   'A command that edits two files is two edits, one file after the other.']

    def __init__(self, prop):
        self.PROP = prop

    # ------------------------------------------------------------ generation
    def generate(self, rng, tier, i):
        ga, gb = DGen(rng, {}, bad=0.0), DGen(rng, {}, bad=0.0)
        a, b = ga.prepare(), gb.prepare(rng.choice([1, 3, 6]))
        links = []
        for name in LINKS[:rng.choice([0, 1, 1, 2])]:
            for d in rng.choice([['AB'], ['BA'], ['AB', 'BA'], ['AB', 'BA']]):
                s, t = (ga, gb) if d == 'AB' else (gb, ga)
                seen, rows = set(), []
                full = level_hex((1,) * len(t.st['cols']))
                for _ in range(rng.choice([0, 2, 5, 12])):
                    o, n = rng.choice(list(s.st['index'])), rng.choice(list(t.st['index']))
                    if (o, n) not in seen and (o or n):
                        seen.add((o, n))
                        rows.append([o, n, full, rng.choice([0.0, 1.0, 2.5, 0.1, 1e9, round(rng.uniform(0, 9), 4)])])
                links.append([d, name, rng.choice([None, True, False]), rng.choice([None, ['[sex="M"]']]), rows])
        names = list(KINDSW)
        kind = rng.choices(names, [KINDSW[x] for x in names])[0]
        if rng.random() < 0.16:
            kind = rng.choice(['rtindex', 'rtquantity', 'rtmapping', 'rtmapping'])
        ga.bad = 0.12 if rng.random() < 0.5 else 0.0
        gb.bad = ga.bad
        cmd = self.command(kind, rng, ga, gb, links)
        odd = {}
        if kind in ('rtindex', 'rtquantity', 'rtmapping', 'xindex', 'xquantity') and rng.random() < 0.6:
            odd = dict(zip(rng.sample(ga.pool, 1), rng.sample(ODD, 1)))
        more = []
        for _ in range(rng.choice([0, 4, 8])):
            more.append(self.command(rng.choice([k for k in KINDSW if k != 'init'] + ['link', 'rmlink', 'mapping', 'xmapping']), rng, ga, gb, links))
        return dict(a=a, b=b, links=links, cmd=cmd, odd=odd, more=more, nobackup=rng.random() < 0.2, oldbackup=rng.random() < 0.4,
                    times=[rng.choice([0, 1e9, 1.5e9, 2e9]) for _ in range(4)] if rng.random() < 0.7 else None,
                    k=22 if tier == 'quick' else 60, sweep=rng.choice(['', '', 'fs', 'sqlint', 'sigsql', 'mem']),
                    crash=rng.random() < 0.6, power=1 if tier == 'quick' else 4)

    def arglist(self, rng, xs):
        if rng.random() < 0.5 and xs:
            t = to_csv([xs])[:-1]
            return [t.replace(',', rng.choice([',', ', ', ' , '])) if not any(',' in x or '"' in x for x in xs) else t]
        return list(xs)

    def truncate(self, rng, text):
        if rng.random() < 0.12:
            return text[:rng.randint(0, len(text))]
        if rng.random() < 0.05:
            return text + rng.choice(['\n', ',\n', '"open\n', 'x\n'])
        return text

    def command(self, kind, rng, ga, gb, links):
        st, bad = ga.st, (lambda p=0.12: rng.random() < p)
        c = dict(kind=kind)
        if kind == 'label':
            c['xs'] = rng.sample([x for x in COLS if x not in st['cols']] or ['Z'], 1)
            if bad():
                c['xs'] += rng.choice([['index_id'], [st['cols'][0]], ['year'], ['']])
            elif rng.random() < 0.3:
                c['xs'] += ['extra col']
            c['args'] = self.arglist(rng, c['xs'])
        elif kind == 'weight':
            c.update(name=rng.choice(GROUPS + ['new w']), desc=rng.choice([None, 'text, "q"']), sel=rng.choice([None, ['[sex="M"]'], ['[sex]', '[year="2001"]'], ['[broken'] if bad(0.5) else None]),
                     default=rng.random() < 0.4)
        elif kind == 'partition':
            c['xs'] = ga.subset() if not bad() else ['nope']
            c['args'] = self.arglist(rng, c['xs'])
        elif kind == 'attribute':
            c['xs'] = rng.sample(ATTRS + ['a1', 'b 2', 'index_id' if bad(0.4) else 'c3', st['cols'][0] if bad(0.4) else 'd4'], rng.choice([1, 2, 3]))
            if bad():
                c['xs'].append(c['xs'][0])
            c['args'] = self.arglist(rng, c['xs'])
        elif kind in ('link', 'rmlink', 'mapping'):
            c.update(name=rng.choice(LINKS[:2] if not bad() else ['nope']), dir=rng.choice(['both', 'both', 'left', 'right']))
            if kind == 'link':
                c.update(desc=rng.choice([None, 'about']), sel=rng.choice([None, ['[sex="M"]'], ['[broken'] if bad(0.5) else None]), default=rng.random() < 0.3)
            if kind == 'mapping':
                c.update(limit=rng.choice([None, 2, 5, 50]), overlap=rng.random() < 0.4, incomplete=rng.random() < 0.75,
                         text=self.mapping_text(rng, ga, gb, c['name']))
        elif kind == 'renlabel':
            c.update(old=rng.choice(st['cols']) if not bad() else 'nope', new=rng.choice(COLS + ['N1', 'value' if bad(0.3) else 'N2']))
        elif kind == 'rendomain':
            c['new'] = rng.choice(['d', 'pop 2', 'ü'])
        elif kind == 'uplabel':
            c.update(name=rng.choice(st['cols']) if not bad() else 'nope', n=rng.choice([None, 1, 2, 0, 9]), right=rng.random() < 0.5)
        elif kind == 'upattr':
            c.update(name=rng.choice(st['attrs']) if not bad() else 'nope', n=rng.choice([None, 1, 2, 0, 9]), right=rng.random() < 0.5)
        elif kind == 'upweight':
            c.update(name=rng.choice(list(st['wg']) or ['w1']) if not bad() else 'nope', desc=rng.choice([None, 'new text', 'x']),
                     add=rng.choice([None, None, ['[sex="F"]', '[year]'], ['[kind\n="a"]'], ['[broken'] if bad(0.5) else None]),
                     rm=rng.choice([None, None, rng.sample(SELS, 2)]), default=rng.random() < 0.5)
        elif kind == 'index':
            head, rows, _, lc, wc = ga.g_insidx()
            head = list(head)
            if 'index_id' in head:
                p = head.index('index_id')
                rows = [[('{A:%s}' % x if str(x).isdigit() and not bad(0.05) else '{A!%s}' % x if str(x).isdigit() else x) if j == p else x for j, x in enumerate(r)] for r in rows]
                if not bad(0.05):
                    head[p] = 'index_code'
            c.update(lc=lc if rng.random() < 0.7 else None, wc=wc if rng.random() < 0.7 else None, text=self.truncate(rng, to_csv([head] + rows)))
        elif kind == 'quantity':
            o = ga.load() if rng.random() < 0.4 else ['insq'] + (ga.g_insq() or ga.load()[1:])
            head = [x if x != 'value' else 'quantity' if rng.random() < 0.6 else 'my value' for x in o[1]]
            c.update(col='my value' if 'my value' in head else None, policy=o[4].get('on_existing') if rng.random() < 0.8 else None,
                     il=bool(o[4].get('allow_invalid_label')), ip=bool(o[4].get('allow_invalid_partition')), text=self.truncate(rng, to_csv([head] + o[2])))
        elif kind == 'init':
            c.update(domain=rng.choice([None, 'my dom', '']), exists=rng.random() < 0.2, name=rng.choice(['new one.toron', 'n2', ' ', 'nodir/x.toron']))
        elif kind in ('xmapping', 'rtmapping'):
            have = [n for d, n, *_ in links if d == 'AB']
            c['name'] = rng.choice(have) if have and (not bad() or kind == 'rtmapping') else 'nope'
            c['dir'] = 'right'
        if kind.startswith('rt'):
            c['mode'] = rng.choice(['same', 'emptied', 'emptied', 'fresh'])
        if kind in EXPORTS and rng.random() < 0.5:
            c['outfail'] = [rng.choice([0, 5, 60, 300, 1500]), rng.choice([28, 5, 28, 32])]
        if 'text' in c and rng.random() < 0.12:
            c['infail'] = rng.choice(['eio', 'eio', 'utf8'])
            c['inpos'] = rng.randint(0, len(c['text'].encode()))
        return c

    def mapping_text(self, rng, ga, gb, name):
        """Mapping rows: index codes, labels, or both."""
        sides = []
        style = rng.choice(['codes', 'codes', 'labels', 'mixed'])
        for g, f in ((ga, 'A'), (gb, 'B')):
            cols = list(g.st['cols'])
            withcode = style == 'codes' or (style == 'mixed' and rng.random() < 0.6)
            sides.append((g, f, cols, withcode))
        bad = rng.random() < 0.25
        if rng.random() < 0.2:
            sides.reverse()
        rows = [(['lcode'] if sides[0][3] else []) + sides[0][2] + [name] + (['rcode'] if sides[1][3] else []) + sides[1][2]]

        def half(side, k):
            g, f, cols, wc = side
            ids = [x for x in g.st['index'] if x] or [0]
            i = ids[k % len(ids)] if rng.random() < 0.8 else rng.choice(list(g.st['index']))
            lab = list(g.st['index'][i])
            out = []
            usecode = wc and rng.random() < 0.9
            if wc:
                out.append(('{%s:%d}' if not (bad and rng.random() < 0.1) else '{%s!%d}') % (f, i) if usecode else '')
            if not usecode and rng.random() < 0.3:
                lev = rng.choice(sorted(world.full_struct(g.st)) if g.st['parts'] else [(1,) * len(cols)])
                lab = [x if b else '' for x, b in zip(lab, lev)]
            if bad and rng.random() < 0.1:
                lab[0] = 'zzz'
            return out + lab
        n = max(len(ga.st['index']), len(gb.st['index']))
        for k in range(rng.choice([n, n, 1, 3])):
            v = rng.choice(['1', '2.5', '0', '10', '0.125', '1000000'])
            if bad and rng.random() < 0.15:
                v = rng.choice(['-1', 'abc', ''])
            rows.append(half(sides[0], k) + [v] + half(sides[1], k))
        return self.truncate(rng, to_csv(rows))

    def shrink_paths(self, case):
        return [('more',), ('a',), ('b',), ('links',)]

    def simplify(self, case):
        for k in ('odd', 'oldbackup', 'crash', 'sweep', 'times'):
            if case[k]:
                yield dict(case, **{k: type(case[k])()})

    # ----------------------------------------------------------------- world
    def path(self, f):
        return os.path.join(self.wd, NAMES[f])

    def bpath(self, f):
        return os.path.join(self.wd, 'backup-' + NAMES[f])

    def fresh(self):
        with bypass():
            simlib.restore_dir(self.d, self.snap)
            # modification times are arbitrary: clocks jump, files are copied
            for p, t in zip((self.path('A'), self.path('B'), self.bpath('A'), self.bpath('B')), self.case.get('times') or ()):
                if t and os.path.exists(p):
                    os.utime(p, (t, t))

    def states(self, files=None):
        """{file name: content or None} of the command's directory."""
        out = {}
        with bypass():
            if files is None:
                names = os.listdir(self.wd)
                for n in names:
                    if not n.endswith(('-journal', '-wal')):
                        out[n] = self.read(os.path.join(self.wd, n))
            else:
                for p in sorted(files):
                    if p.startswith(self.wd + '/') and not p.endswith(('-journal', '-wal')):
                        q = os.path.join(self.d, 'aux', 'probe.toron')
                        for s in ('', '-journal', '-wal'):
                            if p + s in files:
                                with open(q + s, 'wb') as f:
                                    f.write(files[p + s])
                        try:
                            out[os.path.basename(p)] = self.read(q)
                        finally:
                            for s in ('', '-journal', '-wal'):
                                if os.path.exists(q + s):
                                    os.unlink(q + s)
        return out

    def read(self, p):
        try:
            st = world.read_state(p)
        except world.BadFile as e:
            return f'unreadable: {e}'
        st['props'].pop('created_date', None)
        return st

    def argv(self, c, nobackup):
        k = c['kind']
        flag = ['--no-backup'] if nobackup and k in BACKUP else []
        d = {'left': ['--left'], 'right': ['--right'], 'both': []}.get(c.get('dir'), [])
        A, B = self.path('A'), self.path('B')
        if k == 'label':
            return [A, 'add', 'label'] + flag + ['--'] + c['args']
        if k == 'weight':
            out = [A, 'add', 'weight', c['name']] + flag
            if c['desc'] is not None:
                out += ['--description', c['desc']]
            if c['default']:
                out += ['--default']
            return out + (['--selectors'] + c['sel'] if c['sel'] else [])
        if k == 'partition':
            return [A, 'add', 'partition'] + flag + c['args']
        if k == 'attribute':
            return [A, 'add', 'attribute'] + flag + c['args']
        if k == 'link':
            out = [A, 'add', 'link', B, c['name']] + flag + d
            if c['desc'] is not None:
                out += ['--description', c['desc']]
            if c['default']:
                out += ['--default']
            return out + (['--selectors'] + c['sel'] if c['sel'] else [])
        if k == 'rmlink':
            return [A, 'remove', 'link', B, c['name']] + flag + d
        if k == 'renlabel':
            return [A, 'rename', 'label'] + flag + [c['old'], c['new']]
        if k == 'rendomain':
            return [A, 'rename', 'domain'] + flag + [c['new']]
        if k in ('uplabel', 'upattr'):
            out = [A, 'update', 'label' if k == 'uplabel' else 'attribute', c['name'], '--move-right' if c['right'] else '--move-left']
            return out + ([str(c['n'])] if c['n'] is not None else []) + flag
        if k == 'upweight':
            out = [A, 'update', 'weight', c['name']] + flag
            if c['desc']:
                out += ['--description', c['desc']]
            if c['default']:
                out += ['--default']
            if c['add']:
                out += ['--add-selector'] + c['add']
            return out + (['--remove-selector'] + c['rm'] if c['rm'] else [])
        if k in ('index', 'xindex'):
            out = [A, 'index'] + flag
            if c.get('lc'):
                out += ['--on-label-conflict', c['lc']]
            if c.get('wc'):
                out += ['--on-weight-conflict', c['wc']]
            return out
        if k in ('quantity', 'xquantity'):
            out = [A, 'quantity'] + flag
            if c.get('col'):
                out += ['--column', c['col']]
            if c.get('policy'):
                out += ['--on-existing', c['policy']]
            return out + (['--allow-invalid-label'] if c.get('il') else []) + (['--allow-invalid-partition'] if c.get('ip') else [])
        if k in ('mapping', 'xmapping'):
            out = [A, 'mapping', B, c['name']] + flag + (d if k == 'mapping' else [])
            if c.get('limit'):
                out += ['--match-limit', str(c['limit'])]
            return out + (['--allow-overlapping'] if c.get('overlap') else []) + (['--allow-incomplete'] if c.get('incomplete') else [])
        if k == 'init':
            return [self.newpath(c), 'init'] + (['--domain', c['domain']] if c['domain'] is not None else [])
        if k == 'info':
            return [A, 'info']
        raise AssertionError(k)

    def newpath(self, c):
        return self.path('A') if c['exists'] else os.path.join(self.wd, c['name'])

    def text(self, t):
        for f, uid in self.uid.items():
            t = re.sub(r'\{%s:(\d+)\}' % f, lambda m: code(uid, int(m.group(1))), t)
            t = re.sub(r'\{%s!(\d+)\}' % f, lambda m: code(uid, int(m.group(1)) + 1).replace(str(int(m.group(1)) + 1) + 'X', m.group(1) + 'X'), t)
        return t

    def invoke(self, argv, text=None, infail=None, outfail=None):
        """Run the entry point like a process; returns (exit code, output)."""
        import toron.cli.main as m
        sink = Sink(*outfail) if outfail else Sink()
        old = sys.stdin, sys.stdout, sys.stderr, os._exit
        out = io.TextIOWrapper(io.BufferedWriter(sink), encoding='utf-8')

        def leave(n):
            raise Exited(n)
        try:
            if text is None:
                sys.stdin = Tty()
            else:
                data = text.encode('utf-8', 'surrogateescape')
                fail = None
                if infail:
                    if infail[0] == 'utf8':
                        data = data[:infail[1]] + b'\xff\xfe' + data[infail[1]:]
                    else:
                        fail = infail[1]
                sys.stdin = io.TextIOWrapper(io.BufferedReader(Feed(data, fail)), encoding='utf-8')
            sys.stdout, sys.stderr, os._exit = out, io.StringIO(), leave
            logging.disable(0)
            try:
                rc = m.main(argv)
                out.flush()
            except Exited as e:
                rc = e.args[0]
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            return int(rc), bytes(sink.out), sys.stderr.getvalue()
        finally:
            logging.disable(logging.CRITICAL)
            sys.stdin, sys.stdout, sys.stderr, os._exit = old
            out.close = lambda: None
            try:
                out.detach()
            except Exception:
                pass

    def run_command(self, argv, text=None, infail=None, outfail=None):
        try:
            return self.invoke(argv, text, infail, outfail)
        except Exception as e:
            e.__traceback__ = None
            return 1, f'{type(e).__name__}: {e}', ''

    # ------------------------------------------------------------- reference
    def reference(self, c, text):
        """(accepted, {file: content}) by the same edit through the API; None
        where the edit has no counterpart there."""
        t, k = toron(), c['kind']
        sp = {f: t.read_file(self.path(f)) for f in 'AB'}
        ops = []
        add = lambda f, op: ops.append((f, op))
        if k == 'label':
            add('A', ['addcols', [x for x in c['xs'] if x]])
        elif k == 'weight':
            add('A', ['addwg', c['name'], c['desc'], c['sel'], c['default'] or None])
        elif k == 'partition':
            add('A', ['addpart', c['xs']])
        elif k == 'attribute':
            have = sp['A'].get_registered_attributes()
            new = [x for x in c['xs'] if x not in have]
            if new:
                add('A', ['setattrs', list(have) + new])
        elif k == 'link':
            for d in {'both': ['right', 'left'], 'right': ['right'], 'left': ['left']}[c['dir']]:
                src, trg = ('A', 'B') if d == 'right' else ('B', 'A')
                add(trg, ['addlink', 'AB'.index(src), c['name'], dict(other_filename_hint=self.path(src), description=c['desc'], selectors=c['sel'],
                                                                      is_default=c['default'] or None)])
        elif k == 'rmlink':
            ok = 0
            for d in {'both': ['left', 'right'], 'right': ['right'], 'left': ['left']}[c['dir']]:
                src, trg = ('A', 'B') if d == 'right' else ('B', 'A')
                try:
                    sp[trg].drop_link(sp[src], c['name'])
                    ok += 1
                except t.ToronError:
                    pass
            if not ok:
                return False, None
        elif k == 'renlabel':
            add('A', ['rencol', c['old'], c['new']])
        elif k == 'rendomain':
            add('A', ['dom', c['new']])
        elif k in ('uplabel', 'upattr'):
            n = 1 if c['n'] is None else c['n']
            if not n:
                return False, None
            add('A', ['chlabel' if k == 'uplabel' else 'chattr', c['name'], n if c['right'] else -n])
        elif k == 'upweight':
            g = sp['A'].get_weight_group(c['name'])
            if not g:
                return False, None
            ch = {}
            if c['desc']:
                ch['description'] = c['desc']
            if c['add'] or c['rm']:
                s = {str(x) for x in g.selectors or []} | {x for x in c['add'] or []}
                s -= {x for x in c['rm'] or []}
                ch['selectors'] = sorted(x.replace('\n', ' ') for x in s)
            if ch:
                add('A', ['editwg', c['name'], ch])
            if c['default']:
                add('A', ['setdefwg', c['name']])
        elif k in ('index', 'quantity'):
            try:
                rows = list(csv.reader(io.StringIO(text, newline='')))
            except csv.Error:
                return False, None
            if k == 'index':
                if not rows:
                    return False, None
                pos = {j for r in rows[:10] for j, x in enumerate(r) if decode(self.uid['A'], x) is not None}
                if len(pos) == 1:
                    p = pos.pop()
                    out = [rows[0][:p] + ['index_id'] + rows[0][p + 1:]]
                    for r in rows[1:]:
                        if len(r) <= p:
                            return False, None
                        if r[p]:
                            i = decode(self.uid['A'], r[p])
                            if i is None:
                                return False, None
                            r = r[:p] + [i] + r[p + 1:]
                        out.append(r)
                    rows = out
                elif 'index_id' in rows[0]:
                    return False, None
                fn = lambda: sp['A'].insert_index(rows, on_label_conflict=c['lc'] or 'abort', on_weight_conflict=c['wc'] or 'abort')
            else:
                fn = lambda: sp['A'].insert_quantities2(value_column=c['col'] or 'quantity', data=iter(rows), allow_invalid_label=c['il'],
                                                        allow_invalid_partition=c['ip'], on_existing=c['policy'] or 'abort')
            try:
                fn()
            except Exception as e:
                e.__traceback__ = None
                return False, None
        elif k == 'mapping':
            return None, None
        for f, op in ops:
            e = run_op(sp[f], op, type('R', (), {'spaces': [sp['A'], sp['B']]}))
            if e is not None:
                e.__traceback__ = None
                return False, None
        out = {}
        for f in 'AB':
            out[NAMES[f]] = world.space_state(sp[f], None, self.d)
            out[NAMES[f]]['props'].pop('created_date', None)
        return True, out

    # ------------------------------------------------------------------ runs
    def run(self, case, res):
        self.res, self.case, self.d = res, case, res.dir
        self.wd = os.path.join(self.d, 'work')
        t, c = toron(), case['cmd']
        sub = lambda ops: json.loads(json.dumps(ops)) if not case['odd'] else self.oddly(ops, case['odd'])
        with bypass():
            sp = {'A': t.DataSpace(), 'B': t.DataSpace()}
            refs = type('R', (), {'spaces': [sp['A'], sp['B']]})
            for f, key in (('A', 'a'), ('B', 'b')):
                for op in sub(case[key]):
                    run_op(sp[f], op, refs)
            for d, name, dflt, sel, rows in case['links']:
                src, trg = d
                j = 'AB'.index(src)
                run_op(sp[trg], ['addlink', j, name, dict(is_default=dflt, selectors=sel)], refs)
                if rows:
                    run_op(sp[trg], ['insm2', j, name, rows], refs)
            self.uid = {f: sp[f].unique_id for f in 'AB'}
            for f in 'AB':
                sp[f].to_file(self.path(f), fsync=False)
                if case['oldbackup']:
                    s = t.read_file(self.path(f))
                    s.set_domain('older')
                    s.to_file(self.bpath(f), fsync=False)
                    s = None
            sp = refs = None
        first = simlib.snapshot_dir(self.d)
        # a history of commands without faults
        for c2 in case.get('more', ()):
            self.snap = simlib.snapshot_dir(self.d)
            self.before = self.states()
            self.case = dict(case, cmd=c2)
            self.plain(case, c2)
        self.case = case
        simlib.restore_dir(self.d, first)
        self.snap = first
        self.before = self.states()
        if c['kind'].startswith('rt'):
            return self.roundtrip(case, c)
        argv, rc, infail = self.plain(case, c)
        if not infail:
            self.faults(case, c)
        if case['crash'] and 'pin' not in case and rc == 0 and c['kind'] not in EXPORTS + ('init',):
            self.crashes(case, c)
        res.sample = dict(argv=argv[1:], rc=rc, kind=c['kind'])

    def plain(self, case, c):
        """One command, without faults."""
        res = self.res
        self.argv_ = argv = self.argv(c, case['nobackup'])
        self.where = f'toron {" ".join(map(repr, argv[1:]))}'.replace(self.wd, '')
        text = self.text(c['text']) if 'text' in c else None
        infail = [c['infail'], c['inpos']] if c.get('infail') else None
        self.inp = (text, infail)
        res.count(f'command.{c["kind"]}')
        # without faults
        with bypass():
            ok, after = (None, None) if c['kind'] in EXPORTS + ('init',) else self.reference(c, text)
        self.fresh()
        rc, out, msg = self.run_command(argv, text, infail)
        got = self.states()
        self.after = self.before if rc else got
        if rc and c['kind'] == 'mapping' and c['dir'] == 'both' and got[NAMES['B']] != self.before[NAMES['B']]:
            # the second direction was refused; the first one stands, entirely
            self.fresh()
            self.run_command(argv + ['--right'], text, infail)
            self.after = dict(self.before, **{NAMES['B']: self.states()[NAMES['B']]})
            res.count('outcome.second_direction_rejected')
        self.out = out
        where = self.where + f' (exit code {rc}{", " + out if isinstance(out, str) else ""}{" " + msg.strip()[:300] if rc else ""})'
        if infail:
            if rc == 0:
                raise Violation('exit-zero-on-error', where + ': standard input failed')
            ok = False
        self.judge(rc, got, where, None, clean=True)
        if ok is not None:
            if ok != (rc == 0):
                raise Violation('exit-code', f'{where}: the edit itself is {"accepted" if ok else "rejected"}')
            if ok:
                self.same_content(after, got, where)
        if c['kind'] == 'init':
            self.judge_init(c, rc, got, where)
        if rc == 0 and got != self.before:
            res.nontrivial += 1
        res.count('outcome.ok' if rc == 0 else 'outcome.rejected')
        return argv, rc, infail

    def oddly(self, ops, odd):
        def f(x):
            if isinstance(x, str):
                return odd.get(x, x)
            if isinstance(x, list):
                return [f(y) for y in x]
            return x
        return [[op[0]] + f(op[1:]) for op in ops]

    def same_content(self, after, got, where, pin=None):
        for f in 'AB':
            x, y = after[NAMES[f]], got[NAMES[f]]
            if isinstance(y, str):
                raise Violation('file-damaged', f'{where}: {NAMES[f]}: {y}', pin)
            d = world.diff(x, y)
            if d:
                raise Violation('incomplete-effect', f'{where}: {NAMES[f]}: ' + '; '.join(d), pin)

    def judge_init(self, c, rc, got, where):
        new = set(got) - set(self.before)
        if rc:
            return
        n = os.path.basename(c['name'])
        if c['exists'] or new != {n} or isinstance(got[n], str):
            raise Violation('init', f'{where}: {sorted(new)}')
        self.judge_content(c, got[n], where)

    def judge_content(self, c, got, where, pin=None):
        dom = c['domain'] or os.path.splitext(os.path.basename(c['name']))[0]
        if isinstance(got, str) or got['domain'] != dom or got['index'] != {0: ()} or got['uid'] in self.uid.values():
            raise Violation('init', f'{where}: {got if isinstance(got, str) else (got["domain"], got["index"])}', pin)

    def judge(self, rc, got, where, pin, clean=False, killed=False, signal=False):
        """Files after a run that ended with code *rc* (or was killed)."""
        res, c = self.res, self.case['cmd']
        res.evals += 1
        A, B = NAMES['A'], NAMES['B']
        two = c['kind'] in ('link', 'rmlink', 'mapping') and c['dir'] == 'both'
        for f in (A, B):
            if f not in got:
                raise Violation('file-missing', f'{where}: {f}', pin)
            if isinstance(got[f], str):
                raise Violation('file-damaged', f'{where}: {f}: {got[f]}', pin)
            was = got[f] == self.before[f]
            done = got[f] == self.after.get(f)
            if rc == 0 and not done and not clean:
                raise Violation('incomplete-effect', f'{where}: {f}: ' + '; '.join(world.diff(self.after[f], got[f])), pin)
            if rc and not was and (not (two or killed or signal) or clean and c['kind'] != 'mapping'):
                raise Violation('failed-but-changed', f'{where}: {f}: ' + '; '.join(world.diff(self.before[f], got[f])), pin)
            if not was and not done:
                raise Violation('partly-applied', f'{where}: {f} is neither as before nor as after: ' + '; '.join(world.diff(self.before[f], got[f])), pin)
        nob = self.case['nobackup'] or c['kind'] not in BACKUP
        files = [A, B] if c['kind'] in ('link', 'rmlink', 'mapping') else [A]
        for f in (A, B):
            b, old = got.get('backup-' + f), self.before.get('backup-' + f)
            if nob or f not in files:
                if b != old:
                    raise Violation('unwanted-backup', f'{where}: backup-{f}', pin)
                continue
            if b == self.before[f]:
                res.count('probe.backup_exact')
                continue
            if rc == 0 and not killed or got[f] != self.before[f]:
                raise Violation('backup-missing', f'{where}: backup-{f} is {"missing" if b is None else "not a copy of the file before the command"}', pin)
            if b != old:
                raise Violation('backup-damaged', f'{where}: backup-{f}: {b if isinstance(b, str) else "neither the old backup nor a copy"}', pin)
        extra = set(got) - set(self.before) - {'backup-' + A, 'backup-' + B}
        if c['kind'] == 'init':
            n = os.path.basename(c['name'])
            if n in extra and not c['exists'] and not killed:
                # under a fault that strikes after the file was put in place
                # (flushing its directory) the file may stand, but whole
                self.judge_content(c, got[n], where, pin)
                if rc == 0 or not clean:
                    extra -= {n}
        if extra and not killed:
            raise Violation('file-left-behind', f'{where}: {sorted(extra)}', pin)

    def faults(self, case, c):
        res = self.res
        text, infail = self.inp
        go = lambda: self.invoke(self.argv_, text)
        self.fresh()
        if 'pin' in case:
            plan = case['pin']
        else:
            counts = faults.measure(go)
            rng = random.Random(case['seed'])
            plan = faults.make_plan(rng, counts, case['k'], KINDS)
            if case['sweep']:
                kw = {'e': 5} if case['sweep'] == 'fs' else {'v': 1} if case['sweep'] == 'sqlint' else {}
                p = faults.sweep(counts, case['sweep'], **kw)
                plan += [p[j] for j in sorted(rng.sample(range(len(p)), min(len(p), 60)))]
            if c.get('outfail'):
                plan.append(dict(k='stdout', n=c['outfail'][0], e=c['outfail'][1]))
            plan += [dict(k='perm', w=w) for w in ('A', 'B', 'bA', 'bB', 'dir')]
        for f in plan:
            self.fresh()

            def sub():
                slot = []
                if f['k'] == 'stdout':
                    slot.append(self.run_command(self.argv_, text, None, (f['n'], f['e'])))
                    err, fired = None, True
                elif f['k'] == 'perm':
                    with faults.readonly({'A': self.path('A'), 'B': self.path('B'), 'bA': self.bpath('A'), 'bB': self.bpath('B'), 'dir': self.wd}[f['w']]):
                        err, fired = faults.attempt(lambda: slot.append(go()), dict(k='fs', n=faults.HUGE, e=5))
                    fired = True
                else:
                    err, fired = faults.attempt(lambda: slot.append(go()), f)
                rc = slot[0][0] if slot and err is None else 1
                en = type(err).__name__ if err is not None else None
                if err is not None:
                    err.__traceback__ = None
                err = None
                out = slot[0][1] if slot else None
                ev = res.evals
                pin = dict(pin=[f])
                where = f'{self.where} under {f} (exit code {rc}, {en})'
                got = self.states()
                self.judge(rc, got, where, pin, signal=en == 'KeyboardInterrupt')
                if c['kind'] == 'init' and f['k'] != 'stdout':
                    n = os.path.basename(c['name'])
                    if rc == 0 and not c['exists'] and isinstance(got.get(n), (str, type(None))):
                        raise Violation('init', f'{where}: {got.get(n)}', pin)
                if rc == 0 and c['kind'] in EXPORTS and out != self.out and f.get('e') != 32:
                    raise Violation('incomplete-output', f'{where}: {len(out)} of {len(self.out)} bytes', pin)
                return rc, fired, res.evals - ev
            rc, fired, ev = simlib.forked(sub)
            res.evals += ev
            if fired:
                res.nontrivial += 1
                res.count(f'fault.{f["k"]}')
                res.sig(c['kind'], [x.replace(self.wd, '') for x in self.argv_[1:]], f, rc)
            res.count('outcome.fault.ok' if rc == 0 else 'outcome.fault.failed')

    def crashes(self, case, c):
        res = self.res
        text, infail = self.inp
        self.fresh()
        initial = simlib.snapshot_dir(self.d)
        L.sim_log_start()
        self.run_command(self.argv_, text)
        L.sim_log_stop()
        log = simlib.read_log()
        seen = set()

        def judge(files, where, pin=None):
            key = hashlib.sha256(repr(sorted((p, b) for p, b in files.items() if p.startswith(self.wd))).encode()).hexdigest()
            if key in seen:
                return
            seen.add(key)
            got = {}
            names = [NAMES['A'], NAMES['B'], 'backup-' + NAMES['A'], 'backup-' + NAMES['B']]
            got = {n: s for n, s in self.states({p: b for p, b in files.items() if os.path.basename(p).removesuffix('-journal') in names}).items()}
            self.judge(1, got, where, pin, killed=True)
            res.nontrivial += 1
        if 'pcut' not in case:
            marks = [k for k in range(len(log))]
            for i, m, files in simlib.process_crash_states(initial, log):
                if files is not None:
                    res.count('fault.kill')
                    judge(files, f'{self.where}, killed after file operation {i} of {len(log)}')
        cuts = [case['pcut'][0]] if 'pcut' in case else range(1, len(log) + 1, max(1, len(log) // 40))
        for cut in cuts:
            for r in [case['pcut'][1]] if 'pcut' in case else range(case['power']):
                prng = random.Random(f'{case["seed"]}/{cut}/{r}')
                m, files, info = simlib.power_crash_state(initial, log, cut, prng)
                res.count('fault.power_loss_' + info['writes'])
                judge(files, f'{self.where}, power lost after file operation {cut} of {len(log)} {info}', dict(pcut=[cut, r]))

    # ------------------------------------------------------------ round trips
    def roundtrip(self, case, c):
        res, t, k = self.res, toron(), c['kind'][2:]
        A, B = self.path('A'), self.path('B')
        if k == 'mapping' and c['name'] == 'nope':
            res.count('probe.roundtrip_skipped')
            return
        trg = B if k == 'mapping' else A
        name = os.path.basename(trg)
        args = [A, 'mapping', B, c['name']] if k == 'mapping' else [A, k]
        rc, out, msg = self.run_command(args)
        where = f'export of {k} (exit code {rc}{", " + out if isinstance(out, str) else ""})'
        res.evals += 1
        if rc:
            raise Violation('export-fails', where)
        if self.states() != self.before:
            raise Violation('export-changes-file', where)
        text = out.decode('utf-8')
        mode = c['mode']
        with bypass():
            con = sqlite3.connect(trg, isolation_level=None)
            if mode != 'same':
                for sql in {'index': ['DELETE FROM weight', 'UPDATE weight_group SET is_complete=0'],
                            'quantity': ['DELETE FROM quantity', 'DELETE FROM label_location', 'DELETE FROM attribute_group'],
                            'mapping': ['DELETE FROM mapping WHERE link_id IN (SELECT link_id FROM link WHERE name=?)',
                                        'UPDATE link SET is_locally_complete=0, other_index_hash=NULL WHERE name=?']}[k]:
                    con.execute(sql, (c['name'],) if k == 'mapping' else ())
            con.close()
            if mode == 'fresh' and k != 'mapping':
                # another file with the same structure
                s0, s = self.before[name], t.DataSpace()
                if s0['domain']:
                    s.set_domain(s0['domain'])
                s.add_index_columns(*s0['cols'])
                s.set_registered_attributes(s0['attrs'])
                s.add_partition_definitions(*[set(x) for x in s0['parts']])
                for g, x in s0['wg'].items():
                    s.add_weight_group(g, x['desc'], x['sel'], make_default=g == s0['defwg'])
                if k == 'quantity' and len(s0['index']) > 1:
                    s.insert_index([v for i, v in s0['index'].items() if i], s0['cols'])
                s.to_file(trg, fsync=False)
                s = None
            start = self.states()
        if k == 'index':
            opts = ['--no-backup']
            if mode == 'same':
                opts += ['--on-weight-conflict', random.Random(case['seed']).choice(['ignore', 'replace'])]
        elif k == 'quantity':
            opts = ['--no-backup', '--allow-invalid-label', '--allow-invalid-partition']
            if mode == 'same':
                opts += ['--on-existing', random.Random(case['seed']).choice(['ignore', 'replace'])]
        else:
            opts = ['--no-backup', '--right', '--allow-incomplete']
            if mode == 'same':
                res.count('probe.roundtrip_skipped')
                return
        rc, out, msg = self.run_command(args + opts, text)
        where = f'loading the exported {k} again into {"the same file" if mode == "same" else "an emptied copy" if mode != "fresh" else "a new file"} (exit code {rc}{", " + out if isinstance(out, str) else ""} {msg.strip()[:300] if rc else ""})'
        res.evals += 1
        rows = {'index': len(self.before[name]['index']) - 1, 'quantity': len(self.before[name]['q'])}.get(k)
        if rc:
            raise Violation('reload-fails', where)
        x, y = self.before[name], self.states()[name]
        if isinstance(y, str):
            raise Violation('file-damaged', f'{where}: {y}')
        if mode == 'fresh' and k == 'index':
            bylab = lambda s: (sorted(s['index'].values()), {g: (sorted((s['index'][i], v) for i, v in w['w'].items()), w['complete']) for g, w in s['wg'].items()})
            d = [] if bylab(x) == bylab(y) else [f'{bylab(x)} became {bylab(y)}']
        elif mode == 'fresh':
            d = [] if x['q'] == y['q'] else [f'{x["q"]} became {y["q"]}']
        elif k == 'mapping':
            lk = (self.uid['A'], c['name'])
            x, y = x['links'][lk], y['links'][lk]
            f = lambda m: {a: v for a, (v, p) in m.items()}
            d = [] if f(x['m']) == f(y['m']) and x['complete'] == y['complete'] and x['hash'] == y['hash'] else [f'{x} became {y}']
            for a, (v, p) in x['m'].items():
                if not d and abs(p - y['m'][a][1]) > 1e-12:
                    d = [f'share of {a}: {p} became {y["m"][a][1]}']
        else:
            ign = ('locs', 'ags')
            d = world.diff({a: v for a, v in x.items() if a not in ign}, {a: v for a, v in y.items() if a not in ign})
        if d:
            raise Violation('reload-differs', f'{where}: ' + '; '.join(d))
        res.nontrivial += 1
        res.count(f'probe.roundtrip_{k}_{mode}')
        res.sig('rt', k, mode, hashlib.sha256(text.encode()).hexdigest())


def make(prop):
    import toron.cli.main    # once, before the runs are forked
    return Cli(prop)
