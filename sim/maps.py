"""P21: loading mapping files."""
import argparse, csv, gc, io, json, logging, os, random
import simlib, world, faults
from simlib import Violation, bypass
from hist import run_op, toron
from disagg import DGen

KINDS = ('fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql')
GOOD = ['1', '2.5', '0', '10', '0.125', '1000000', '1e3', '7', '0.3', '33.3333', ' 4', '1e-9']
BAD = ['-1', 'abc', '1,000', '5%', '-0.001', 'nan', '1 2', '12abc', '0x10', 'inf?']


class Unspecified(Exception):
    pass


class Refused(Exception):
    pass


class Listener(logging.Handler):
    def __init__(self):
        super().__init__()
        self.warnings = 0

    def emit(self, record):
        self.warnings += record.levelno >= logging.WARNING


def near(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1e-9, abs(a), abs(b))


def side_matches(st, rows, limit, overlap, graph):
    """For each row (position): [(index_id, share)], from the content alone."""
    if st['defwg'] is None:
        raise Refused('no default weight group')
    w = st['wg'][st['defwg']]['w']
    n = len(st['cols'])
    at = {}
    skipped = 0
    for k, (i, lab) in enumerate(rows):
        level = (1,) * n if i is not None else tuple(1 if x else 0 for x in lab)
        if level not in st['struct'] or (graph and not any(level)):
            if graph:
                skipped += 1
                continue
            raise Refused('level')
        at.setdefault(level, []).append(k)
    gran = lambda lv: st['struct'][lv] if st['struct'][lv] is not None else -1
    order = sorted(at, key=gran, reverse=True)
    tie = len({gran(x) for x in order}) < len(order)
    out, seen = {}, {}
    for level in order:
        new = {}
        for k in at[level]:
            i, lab = rows[k]
            if i is not None:
                if i not in st['index']:
                    skipped += 1
                    continue
                m = [i]
            else:
                m = [j for j, l in st['index'].items() if all(not x or x == y for x, y in zip(lab, l))]
                if len(m) > limit or not m:
                    skipped += 1
                    continue
                if len(m) > 1 and not overlap:
                    if tie:
                        raise Unspecified
                    m2 = [j for j in m if j not in seen]
                    skipped += len(m2) < len(m)
                    m = m2
            ws = [w.get(j, 0.0 if j == 0 and not graph else None) for j in m]
            if len(m) > 1 and None in ws:
                skipped += 1
                continue
            if not m:
                continue
            tot = sum(x or 0.0 for x in ws)
            out[k] = [(j, x / tot if tot else 1 / len(m)) for j, x in zip(m, ws)] if len(m) > 1 else [(m[0], 1.0)]
            for j in m:
                new[j] = level
        seen.update(new)
    return out, skipped


def predict(src, trg, srows, trows, vals, sm, tm, graph):
    """Mappings that have to be stored in *trg*."""
    out = {}
    empty = 0
    for k, v in enumerate(vals):
        if k not in sm or k not in tm:
            continue
        i, lab = trows[k]
        level = (1,) * len(trg['cols']) if i is not None else tuple(1 if x else 0 for x in lab)
        if not any(level):
            empty += 1
            continue
        for a, p in sm[k]:
            for b, q in tm[k]:
                if a or b:
                    key = (a, b, world.level_hex(level))
                    out[key] = out.get(key, 0.0) + v * p * q
    return out, empty


class Maps:
    RUNS = dict(quick=2000, thorough=40000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (entry point, options, number of rows skipped, resulting mapping shape, fault, storage modes) tuples'
    RULE = ('Each case is a mapping file (index codes, labels at seeded levels, ambiguous, duplicate, unmatched and malformed rows) for two generated '
            'spaces in seeded storage modes, loaded through the command-line reader or load_mapping with seeded options and, in a part of the cases, an '
            'injected fault; an evaluation is one comparison of the stored mappings, the refusal, the warnings or a listing with an independent model; '
            'non-trivial = at least one row was ambiguous, skipped or refused, or a fault fired.')
    ASSUMPTIONS = ['Which of two partitions of exactly equal granularity comes first is not specified (cases that depend on it are not judged).',
                   'Rows with an empty value are not generated.']

    def __init__(self, prop):
        self.PROP = prop

    # ------------------------------------------------------------ generation
    def generate(self, rng, tier, i):
        gs = {}
        for f in 'AB':
            g = gs[f] = DGen(rng, {}, bad=0.0)
            n = rng.choice([1, 3, 6, 10])
            g.ops = g.prepare(n)
            for _ in range(6):
                if g.st['parts'] or rng.random() < 0.2:
                    break
                g = gs[f] = DGen(rng, {}, bad=0.0)
                g.ops = g.prepare(n)
            if rng.random() < 0.5:
                g.ops = [o for o in g.ops if o[0] != 'insq']
            for _ in range(rng.choice([0, 0, 1, 2])):
                g.ops.append(g.more())
        graph = rng.random() < 0.3
        bad, fuzzy = rng.random() < 0.2, rng.choice([0.15, 0.45, 0.8])
        style = [not graph and rng.random() < 0.4 for _ in 'AB']
        full = rng.random() < 0.5
        rows = []
        halves = []
        for f, code in zip('AB', style):
            st = gs[f].st
            levels = sorted(world.full_struct(st))
            levels += [x for x in levels if 0 < sum(x) < len(x)] * 5
            ids = [x for x in st['index'] if x] or [0]
            h = []
            n = max(len(gs[x].st['index']) for x in 'AB')
            for k in range(rng.choice([n + 2, n + 6, 25])):
                j = ids[k % len(ids)] if rng.random() < 0.8 or full and k < len(ids) else rng.choice(list(st['index']))
                lab = list(st['index'][j])
                if code and rng.random() < 0.85:
                    if rng.random() < 0.04:
                        j = max(st['index']) + rng.choice([1, 5])
                    h.append([j, lab if rng.random() < 0.5 else [''] * len(lab)])
                    continue
                if rng.random() < fuzzy:
                    lev = rng.choice(levels)
                    lab = [x if b else '' for x, b in zip(lab, lev)]
                elif bad and rng.random() < 0.05:
                    lab = [x if rng.random() < 0.5 else '' for x in lab]
                if rng.random() < 0.03:
                    lab[0] = 'zzz'
                h.append([None, lab])
            halves.append(h)
        m = min(len(h) for h in halves)
        dup = rng.random() < 0.3
        for k in range(m if full else rng.randint(1, m)):
            v = rng.choice(BAD) if bad and rng.random() < 0.08 else rng.choice(GOOD)
            rows.append([halves[0][k], v, halves[1][k]])
            if dup and rng.random() < 0.2:
                rows.append([halves[0][k], rng.choice(GOOD), halves[1][rng.randrange(m)]])
        rng.shuffle(rows)
        c = dict(a=gs['A'].ops, b=gs['B'].ops, entry='graph' if graph else 'cli', codes=style, rows=rows,
                 modes=[rng.choice(['mem', 'drive', 'rw']) for _ in 'AB'], dir=rng.choice(['right', 'right', 'left', 'both']),
                 limit=rng.choice([1, 2, 3, 5, 50, 50]), overlap=rng.random() < 0.4, partial=rng.random() < 0.65,
                 links=rng.choice(['both', 'both', 'both', 'both', 'both', 'right', 'left']), swap=not graph and all(style) and rng.random() < 0.3,
                 drop=rng.random() < 0.15, cut=rng.choice([None, None, None, 0, 3]), pre=rng.random() < 0.1, fault=None)
        if rng.random() < 0.3:
            c['fault'] = dict(k=rng.choice(KINDS), n=int(2 ** rng.uniform(0, 9)), e=rng.choice(faults.ERRS), v=rng.choice([1, 5, 30]), r=3)
            if rng.random() < 0.5:
                c['fault']['back'] = rng.randrange(8)
        return c

    def shrink_paths(self, case):
        return [('rows',), ('a',), ('b',)]

    def simplify(self, case):
        for k, v in (('fault', None), ('dir', 'right'), ('modes', ['mem', 'mem']), ('overlap', False), ('cut', None), ('pre', False), ('swap', False), ('drop', False), ('partial', True)):
            if case[k] != v:
                yield dict(case, **{k: v})

    # ----------------------------------------------------------------- world
    def open(self):
        t = toron()
        out = []
        for f, m in zip('AB', self.case['modes']):
            p = self.paths[f]
            out.append(t.bind_file(p, mode='rw') if m == 'rw' else t.read_file(p, cache_to_drive=m == 'drive'))
        return out

    def states(self, sp):
        out = []
        for f, m, s in zip('AB', self.case['modes'], sp):
            st = world.space_state(s, self.paths[f] if m == 'rw' else None, self.d)
            st['props'].pop('created_date', None)
            out.append(st)
        return out

    def table(self, sp, st):
        """Header and rows of the input."""
        case = self.case
        from toron.cli.common import index_id_to_code
        import uuid
        halves = []
        for j in (0, 1):
            uid = uuid.UUID(sp[j].unique_id).bytes
            cols = list(st[j]['cols'])
            code = case['codes'][j] and any(r[0 if j == 0 else 2][0] is not None for r in case['rows'])
            keep = list(range(len(cols)))
            if case['drop'] and code and all(r[0 if j == 0 else 2][0] is not None for r in case['rows']):
                keep = keep[1:]
            h = [(['code'] if code else []) + [cols[k] for k in keep]]
            for r in case['rows']:
                i, lab = r[0 if j == 0 else 2]
                h.append(([index_id_to_code(i, uid) if i is not None else ''] if code else []) + [lab[k] for k in keep])
            halves.append(h)
        vals = ['e1'] + [r[1] for r in case['rows']]
        if case['swap'] and all(len(h) and h[0][0] == 'code' for h in halves):
            halves.reverse()
        return [x + [v] + y for x, v, y in zip(halves[0], vals, halves[1])]

    def act(self, sp, table):
        case = self.case
        if case['entry'] == 'graph':
            from toron import graph
            d = {'right': '->', 'left': '<-', 'both': '<->'}[case['dir']]
            graph.load_mapping(sp[0], d, sp[1], 'e1', iter(table), match_limit=case['limit'], allow_overlapping=case['overlap'])
            return 0
        from toron.cli import command_mapping
        f = io.StringIO(newline='')
        csv.writer(f).writerows(table)
        f.seek(0)
        ns = argparse.Namespace(stdin=f, link='e1', direction=case['dir'], match_limit=case['limit'],
                                allow_overlapping=case['overlap'], allow_incomplete=case['partial'])
        return int(command_mapping.read_from_stdin(ns, sp[0], sp[1]))

    def expected(self, before):
        """('refused', why) or ('loaded', {target: mappings}, rows skipped)"""
        case = self.case
        graph = case['entry'] == 'graph'
        have = {0: ('B', 'e1') in self.linked(before[0], before[1]), 1: ('A', 'e1') in self.linked(before[1], before[0], 'A')}
        want = {'right': [1], 'left': [0], 'both': [1, 0]}[case['dir']]
        if graph:
            if any(have[x] for x in want):
                raise Unspecified
        elif case['dir'] == 'both':
            want = [x for x in want if have[x]]
            if not want:
                raise Refused('no link')
        elif not have[want[0]]:
            raise Refused('no link')
        vals = []
        for r in case['rows']:
            try:
                v = float(r[1])
                if not 0 <= v < float('inf'):
                    raise ValueError
            except ValueError:
                raise Refused(f'value {r[1]!r}')
            vals.append(v)
        rows = [[(r[x][0], r[x][1]) for r in case['rows']] for x in (0, 2)]
        m, skipped = [], 0
        for j in (0, 1):
            x, s = side_matches(before[j], rows[j], case['limit'], case['overlap'], graph)
            m.append(x)
            skipped += s
        both = set(m[0]) & set(m[1])
        lost = sum(1 for j in (0, 1) for k in m[j] if k not in both)
        out, empty = {}, 0
        for j in want:
            o = 1 - j
            out[j], e = predict(before[o], before[j], rows[o], rows[j], vals, m[o], m[j], graph)
            empty += e
            old = self.old(before, j)
            if set(old) & set(out[j]):
                raise Refused('mapping exists')
            out[j].update(old)
        if not graph and not case['partial']:
            if empty:
                raise Unspecified
            for j in (0, 1):
                mapped = {i for k in both for i, _ in m[j][k]}
                if any(i and i not in mapped for i in before[j]['index']):
                    raise Refused('incomplete')
        amb = any(len(x) > 1 for y in m for x in y.values())
        return out, skipped, amb, lost

    def linked(self, trg, src, f='B'):
        return {(f, n) for (u, n) in trg['links'] if u == src['uid']}

    def old(self, st, j):
        return {k: v[0] for k, v in st[j]['links'].get((st[1 - j]['uid'], 'e1'), {'m': {}})['m'].items()}

    # ------------------------------------------------------------------- run
    def run(self, case, res):
        self.res, self.case, self.d = res, case, res.dir
        t = toron()
        work = os.path.join(self.d, 'work')
        self.paths = {f: os.path.join(work, f + '.toron') for f in 'AB'}
        with bypass():
            sp = [t.DataSpace(), t.DataSpace()]
            refs = type('R', (), {'spaces': sp})
            for s, key in zip(sp, 'ab'):
                for op in case[key]:
                    run_op(s, op, refs)
            if case['entry'] == 'cli':
                if case['links'] in ('both', 'right'):
                    run_op(sp[1], ['addlink', 0, 'e1', {}], refs)
                    if case['pre']:
                        a, b = max(sp[0].select_index(), default=(0,))[0], max(sp[1].select_index(), default=(0,))[0]
                        run_op(sp[1], ['insm2', 0, 'e1', [[a, b, world.level_hex((1,) * len(sp[1].index_columns)), 2.0]]], refs)
                if case['links'] in ('both', 'left'):
                    run_op(sp[0], ['addlink', 1, 'e1', {}], refs)
            for f, s in zip('AB', sp):
                s.to_file(self.paths[f], fsync=False)
            sp = refs = s = None
            gc.collect()
            snap = simlib.snapshot_dir(self.d)
            sp = self.open()
            before = self.states(sp)
            for st in before:
                if not st['cols'] or len(set(map(tuple, st['index'].values()))) < 1:
                    return
            table = self.table(sp, before)
        log = logging.getLogger('app-toron')
        where = f'{case["entry"]} {case["dir"]} limit={case["limit"]} overlap={case["overlap"]} partial={case["partial"]} {case["modes"]}'
        for f in ([case['fault'], None] if case['fault'] else [None]):
            lst = Listener()
            log.addHandler(lst)
            logging.disable(0)
            slot = []
            try:
                if f is None:
                    err = None
                    try:
                        slot.append(self.act(sp, table))
                    except Exception as e:
                        err = e
                        if not simlib._in_toron(e.__traceback__):
                            raise
                else:
                    err, fired = faults.attempt(lambda: slot.append(self.act(sp, table)), f, self.d)
                    if fired:
                        res.count('fault.' + f['k'])
                        res.nontrivial += 1
            finally:
                logging.disable(logging.CRITICAL)
                log.removeHandler(lst)
            ok = err is None and slot[0] == 0
            why = f'{type(err).__name__}: {err}'[:200] if err is not None else f'returned {slot[0]}'
            if err is not None:
                err.__traceback__ = err.__context__ = err.__cause__ = None
                err = None
            gc.collect()
            after = self.states(sp)
            done = self.judge(case, before, after, ok, why, lst.warnings, f, where, sp)
            sp = None
            gc.collect()
            if f is not None:
                with bypass():
                    simlib.restore_dir(self.d, snap)
                    sp = self.open()
        res.sample = dict(header=table[0], rows=table[1:4], dir=case['dir'], limit=case['limit'])

    def judge(self, case, before, after, ok, why, warnings, f, where, sp):
        res = self.res
        res.evals += 1
        graph = case['entry'] == 'graph'
        try:
            out, skipped, amb, lost = self.expected(before)
        except Unspecified:
            res.count('probe.unspecified')
            return
        except Refused as e:
            res.count('refused.' + str(e).split()[0])
            res.nontrivial += 1
            if ok:
                raise Violation('accepted', f'{where}: accepted although it must be refused ({e})')
            for j in (0, 1):
                d = self.changed(before[j], after[j], j, graph)
                if d and case['dir'] != 'both':
                    raise Violation('refused-but-changed', f'{where}: refused ({why}) but {"AB"[j]} changed: {d}')
            res.sig(case['entry'], 'refused', str(e), case['dir'])
            return
        if not ok:
            if f is None:
                raise Violation('refused', f'{where}: {why}')
            for j in (0, 1):
                d = self.changed(before[j], after[j], j, graph)
                if d:
                    if (graph or case['dir'] == 'both' or faults.is_signal(f)) and not self.wrong(before, after, j, out, graph):
                        continue          # a direction was complete (load_mapping can still fail at its summary, an interrupt arrive after the commit)
                    raise Violation('failed-but-changed', f'{where}: {why} under {f}, but {"AB"[j]} changed: {d}')
            res.sig(case['entry'], 'failed', f['k'], case['dir'])
            return
        for j in (0, 1):
            w = self.wrong(before, after, j, out, graph)
            if w:
                raise Violation('mapping', f'{where}: {"AB"[j]}: {w}')
        if amb or skipped:
            res.nontrivial += 1
        if skipped and not warnings and not graph:
            raise Violation('silent', f'{where}: {skipped} rows were not matched as given, and no warning was logged')
        res.count('probe.rows_skipped', skipped)
        res.count('probe.rows_one_side_only', lost)
        res.count('probe.ambiguous' if amb else 'probe.exact')
        res.sig(case['entry'], case['dir'], min(skipped, 3), amb, tuple(sorted(map(len, out.values()))), case['limit'], case['overlap'], f and f['k'], tuple(case['modes']))
        if f is None:
            for j in out:
                self.listing(before, after, j, out, sp, where)

    def listing(self, before, after, j, out, sp, where):
        """The mapping as it is listed."""
        from toron import graph
        self.res.evals += 1
        src, trg = before[1 - j], before[j]
        with bypass():
            try:
                rows = list(graph.get_mapping(sp[1 - j], sp[j], 'e1', header=False))
                plain = list(sp[j].select_mappings(sp[1 - j], 'e1', header=False))
            except Exception as e:
                if not simlib._in_toron(e.__traceback__):
                    raise
                raise Violation('listing', f'{where}: {"AB"[j]}: listing failed: {type(e).__name__}: {e}')
        d1, d2 = (1 if src['domain'] else 0), (1 if trg['domain'] else 0)
        p = 1 + d1 + len(src['cols'])
        got, un = {}, {0: [], 1: []}
        for r in rows:
            if len(r) != p + 3 + d2 + len(trg['cols']) or r[0] not in (None, *src['index']) or r[p + 1] not in (None, *trg['index']):
                raise Violation('listing', f'{where}: {"AB"[j]}: {r!r} is listed')
            a, v, b = r[0], r[p], r[p + 1]
            if a is not None and tuple(r[1 + d1:p]) != src['index'][a] or b is not None and tuple(r[p + 2 + d2:-1]) != trg['index'][b]:
                raise Violation('listing', f'{where}: {"AB"[j]}: listed labels of {r!r} are not those of its records')
            if a == b == 0:
                continue              # undefined records always match each other
            if a is None or b is None:
                un[0 if b is None else 1].append(a if b is None else b)
                continue
            got.setdefault((a, b, r[-1]), []).append(v)
        want = {}
        for (a, b, lv), v in out[j].items():
            bits = bytes.fromhex(lv).ljust(-(-len(trg['cols']) // 8), b'\0')
            fields = [c for i, c in enumerate(trg['cols']) if not bits[i // 8] & 128 >> i % 8]
            want.setdefault((a, b, ', '.join(fields) or None), []).append(v)
        for k in set(got) | set(want):
            x, y = sorted(got.get(k, [])), sorted(want.get(k, []))
            if len(x) != len(y) or not all(near(p, q) for p, q in zip(x, y)):
                raise Violation('listing', f'{where}: {"AB"[j]}: {k} is listed with {x}, loaded {y}')
        for s, st, pos in ((0, src, 0), (1, trg, 1)):
            miss = sorted(i for i in st['index'] if i and i not in {k[pos] for k in want})
            if sorted(i for i in un[s] if i) != miss:
                raise Violation('listing-unmatched', f'{where}: {"AB"[j]}: records {sorted(un[s])} of the {"source" if s == 0 else "target"} are listed as unmatched, not {miss}')
        if len(plain) < sum(1 for k in out[j] if k[1]):
            raise Violation('listing', f'{where}: {"AB"[j]}: select_mappings gives {len(plain)} rows for {len(out[j])} mappings')

    def changed(self, a, b, j, graph):
        if graph:       # the link itself is added beforehand
            b = dict(b, links={k: v for k, v in b['links'].items() if v['m']})
            a = dict(a, links={k: v for k, v in a['links'].items() if v['m']})
        return world.diff(a, b)

    def wrong(self, before, after, j, out, graph):
        want = out.get(j)
        if want is None:
            return '; '.join(self.changed(before[j], after[j], j, graph))
        got = self.old(after, j)
        for k in sorted(set(got) | set(want)):
            if k not in got:
                return f'mapping {k} is missing, expected {want[k]}'
            if k not in want:
                return f'mapping {k} = {got[k]} was not in the data'
            if not near(got[k], want[k]):
                return f'mapping {k} = {got[k]}, expected {want[k]}'
        a = dict(before[j], links={k: v for k, v in before[j]['links'].items() if k != (before[1 - j]['uid'], 'e1')})
        b = dict(after[j], links={k: v for k, v in after[j]['links'].items() if k != (before[1 - j]['uid'], 'e1')})
        return '; '.join(world.diff(a, b))


def make(prop):
    return Maps(prop)
