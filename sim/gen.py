"""Seeded generation of operation histories.  The generator tracks the
expected content with the reference model only to choose sensible arguments;
checks never rely on that prediction."""
import copy, json
import world
from world import Model, Err, Unspecified, level_hex, full_struct, closure

COLS = ['A', 'B', 'C', 'state', 'county name', "o'x", 'q"t', 'D']
WIDE = COLS + ['E', 'F', 'G', 'H']      # more than eight columns: levels of more than one byte
LABS = ['x', 'y', 'z', 'w', 'ü', "o'b", 'a b', '10']
ATTRS = ['year', 'kind', 'sex']
# some values are shared between attributes
ATTRV = {'year': ['2001', '2002'], 'kind': ['a', 'b', 'ü', 'M', '2001'], 'sex': ['M', 'F', 'a']}
GROUPS = ['w1', 'w2', 'w3', 'pop "x"']
LINKS = ['e1', 'e2', 'e3']
REFS = ['S0', 'S1']
SEL = [None, None, ['[year="2001"]'], ['[kind="a"]'], ['[sex]'], ['[year="2001"][kind="a"]']]

EMPTY = dict(cols=[], uid='U', hash=None, domain='', attrs=[], disp=None, parts=[],
             index={0: ()}, seq=0, struct={}, wg={}, orphans=[], defwg=None, q={},
             locs=[], ags=[], links={}, props={}, fk=[])

BASE = dict(addcols=2, rencol=1, rencols=1, chlabel=1, setattrs=1, chattr=1, dom=1,
            addpart=2, addparts=1, dropparts=1, insidx=10, updidx=5, delidx=4, delidxc=1,
            addwg=2, editwg=1, dropwg=1, setdefwg=1, insw=6, updw=4, delw=2, delwc=1,
            addlink=2, editlink=1, droplink=1, insm2=6, insm=2, updm=3, delm=2, delmc=1,
            reify=1, insq=6, delunm=1, delnoidx=1)


BADSEL = [[1], [None], ['[sex]', 2], [['[sex]']], {'a': '1'}, [True], 5, [1.5], ['[sex]', None], [{}]]
GOODSEL = SEL + ['[sex]', '[kind="ü"]', ['[year="2001"]', '[kind="a"][sex]'], ['[kind="it\'s"]'], ['[kind="a b;--"]']]
BADPROPS = ['x', [1], 5, [{'a': 1}], True, '{"a": 1}', 1.5]
GOODPROPS = [None, {'a': 1}, {'k': [1, None, {'x': 'ü'}], 'é "q"': {'n': 1.5, 't': True}}, {'': ''}, {'a': {}, 'b': []}]
TEXTS = [None, 'text', 'ü', "it's", 'a"b', 'x' * 300, 'line\nbreak', '5', 'null', '[1]']


class Gen:
    def __init__(self, rng, weights=None, bad=0.08, only=None, meta=False):
        self.r = rng
        self.meta = meta
        self.w = dict(BASE, **(weights or {}))
        if only:
            self.w = {k: v for k, v in self.w.items() if k in only}
        self.bad = bad
        self.model = Model(REFS)
        self.st = copy.deepcopy(EMPTY)

    # -- pieces
    def isbad(self):
        return self.r.random() < self.bad

    def label(self):
        return self.r.choice(LABS)

    def labels(self):
        return tuple(self.label() for _ in self.st['cols'])

    def ids(self):
        return [i for i in self.st['index'] if i]

    def num(self, bad=True):
        r = self.r
        if bad and self.isbad():
            return r.choice([-1.0, -0.5, 'abc', None, '', float('nan'), 1e999])
        return r.choice([0.0, 1.0, 2.0, 3.0, 0.5, 10.0, 7.25, 100.0, r.randint(0, 50), round(r.uniform(0, 9), 3)])

    def perm(self, cols):
        cols = list(cols)
        if self.r.random() < 0.3:
            self.r.shuffle(cols)
        return cols

    def apply(self, op):
        try:
            self.st = self.model.apply(self.st, op)
        except (Err, Unspecified):
            pass
        except Exception:
            pass
        return op

    def nrows(self, hi=6):
        return self.r.choice([1, 1, 2, 3, 4, hi])

    # -- operations
    def op(self):
        names = list(self.w)
        for _ in range(60):
            n = self.r.choices(names, [self.w[x] for x in names])[0]
            o = getattr(self, 'g_' + n)()
            if o is not None:
                return [n] + o
        return ['dom', 'd']

    def next(self):
        return self.apply(self.op())

    def setup(self, ncols=None, nidx=None, wgs=1, links=0, attrs=True):
        """A usual prefix: columns, partitions, records."""
        r = self.r
        ops = []
        do = lambda op: ops.append(self.apply(op))
        k = ncols or r.choice([1, 2, 2, 3, 3, 2, 3, 4, 5])
        if ncols is None and r.random() < 0.05:
            k = r.choice([8, 9, 10, 12])
        do(['addcols', WIDE[:k] if r.random() < 0.6 else r.sample(WIDE if k > 5 else COLS, k)])
        if 5 > k > 2 and r.random() < 0.4:       # many definitions, many unions
            do(['addparts', [[c] for c in self.st['cols'][:r.choice([k, k - 1])]]])
        for _ in range(r.choice([0, 1, 2]) if k > 1 else 0):
            p = self.g_addpart()
            if p:
                do(['addpart'] + p)
        if attrs:
            do(['setattrs', ATTRS[:r.choice([1, 2, 3])]])
        n = nidx if nidx is not None else r.choice([2, 4, 6])
        rows = [self.labels() for _ in range(n)]
        do(['insidx', list(self.st['cols']), rows])
        for g in GROUPS[:wgs]:
            do(['addwg', g])
            do(['insw'] + self.g_insw(g, bad=False))
        for i in range(links):
            do(['addlink', i % 2, LINKS[i // 2], {}])
            o = self.g_insm2()
            if o:
                do(['insm2'] + o)
        return ops

    def g_addcols(self):
        left = [c for c in WIDE if c not in self.st['cols']]
        if 5 <= len(self.st['cols']) < 8 or not left:
            return None
        if self.isbad():
            return [[self.r.choice(['index_id', 'A', 'weight', 'year'])]]
        return [self.r.sample(left, self.r.choice([1, 1, 2]) if len(left) > 1 else 1)]

    def g_rencol(self):
        if not self.st['cols']:
            return None
        new = self.r.choice(COLS + ['N1', 'N2', 'index_id', 'year']) if not self.isbad() else 'value'
        old = self.r.choice(self.st['cols']) if not self.isbad() else 'nope'
        return [old, new]

    def g_rencols(self):
        if not self.st['cols']:
            return None
        left = [c for c in COLS + ['N1', 'N2', 'N3'] if c not in self.st['cols']]
        k = min(self.r.randint(1, len(self.st['cols'])), len(left))
        return [dict(zip(self.r.sample(self.st['cols'], k), self.r.sample(left, k)))]

    def g_legren(self):
        return self.g_rencols()

    def g_chlabel(self):
        if not self.st['cols']:
            return None
        return [self.r.choice(self.st['cols']) if not self.isbad() else 'nope', self.r.choice([-5, -1, -1, 1, 1, 2, 9, 0])]

    def g_setattrs(self):
        if self.isbad():
            return [self.r.choice([['year', 'year'], ['A'], ['index_id']])]
        return [self.r.sample(ATTRS, self.r.choice([1, 2, 3]))]

    def g_chattr(self):
        if not self.st['attrs']:
            return None
        return [self.r.choice(self.st['attrs'] + ['nope']), self.r.choice([-1, 1, 2, -9])]

    def g_dom(self):
        if self.meta:
            return [self.r.choice(['d', 'pop', 'ü', "it's", 'a"b', 'x y', '5', 'null']) if not self.isbad() else self.r.choice([5, None, ['d'], {'a': 'b'}, True])]
        return [self.r.choice(['d', 'pop', 'ü'])]

    def subset(self):
        c = self.st['cols']
        return sorted(self.r.sample(c, self.r.randint(1, len(c))))

    def g_addpart(self):
        if not self.st['cols']:
            return None
        if self.isbad():
            return [self.r.choice([['nope'], self.subset()])]
        return [self.subset()]

    def g_addparts(self):
        if not self.st['cols']:
            return None
        return [[self.subset() for _ in range(self.r.choice([1, 2, 2]))] + ([['nope']] if self.isbad() else [])]

    def g_dropparts(self):
        if not self.st['parts']:
            return None
        return [[list(self.r.choice(self.st['parts'])) if self.r.random() < 0.8 else self.subset()
                 for _ in range(self.r.choice([1, 1, 2]))]]

    def g_insidx(self):
        r, st = self.r, self.st
        if not st['cols']:
            return None
        cols = self.perm(st['cols'])
        if self.isbad():
            cols = cols[:-1] or ['nope']
        groups = [g for g in st['wg'] if r.random() < 0.4]
        byid = bool(self.ids()) and r.random() < 0.25
        head = (['index_id'] if byid else []) + cols + groups + (['extra'] if r.random() < 0.1 else [])
        rows = []
        for _ in range(self.nrows()):
            if byid and r.random() < 0.8:
                i = r.choice(self.ids()) if not self.isbad() else r.choice([0, 99, 'x'])
                lab = dict(zip(st['cols'], st['index'].get(i, self.labels()))) if r.random() < 0.6 else dict(zip(st['cols'], self.labels()))
                row = [i if r.random() < 0.7 else str(i)]
            else:
                lab = dict(zip(st['cols'], self.labels() if r.random() < 0.8 or not self.ids() else st['index'][r.choice(self.ids())]))
                row = [''] if byid else []
            row += [lab.get(c, 'q') for c in cols]
            if self.isbad():
                row[-1] = ''
            if r.random() < 0.02:
                row = (row[:1] if byid else []) + ['-'] * len(cols)
            row += [self.num() if r.random() < 0.9 else '' for g in groups]
            row += ['e'] * (len(head) - len(row))
            rows.append(row)
        if r.random() < 0.02:
            rows.append([])
        pol = lambda: r.choice(['abort', 'ignore', 'replace', 'replace'])
        wts = None
        if groups and r.random() < 0.3:
            wts = r.sample(groups, 1)
        return [head, rows, wts, pol(), pol()]

    def g_updidx(self):
        r, st = self.r, self.st
        if not self.ids():
            return None
        cols = self.perm(['index_id'] + st['cols'])
        rows = []
        for _ in range(self.nrows(4)):
            i = r.choice(self.ids()) if not self.isbad() else r.choice([0, 99, self.ids()[0]])
            lab = self.labels() if r.random() < 0.6 else st['index'][r.choice(self.ids())]
            if self.isbad():
                lab = ('',) + lab[1:]
            d = dict(zip(st['cols'], lab), index_id=i)
            rows.append([d[c] for c in cols])
        return [cols, rows, r.random() < 0.5]

    def idrow(self, cols, extra=None):
        r, st = self.r, self.st
        i = r.choice(list(st['index'])) if self.isbad() else r.choice(self.ids() or [0])
        lab = st['index'][i] if not self.isbad() else self.labels()
        d = dict(zip(st['cols'], lab), index_id=i if not self.isbad() else r.choice([99, i]))
        d.update(extra or {})
        return [d[c] for c in cols]

    def g_delidx(self):
        if len(self.ids()) < 2:
            return None
        cols = self.perm(['index_id'] + self.st['cols'])
        return [cols, [self.idrow(cols) for _ in range(self.r.choice([1, 1, 2]))]]

    def crit(self):
        st = self.st
        if not st['cols']:
            return None
        cs = self.r.sample(st['cols'], self.r.randint(1, len(st['cols'])))
        lab = st['index'][self.r.choice(self.ids() or [0])]
        return {c: lab[st['cols'].index(c)] if not self.isbad() else self.label() for c in cs}

    def g_delidxc(self):
        if len(self.ids()) < 3:
            return None
        c = self.crit()
        return [c] if c and all(k.isidentifier() for k in c) else None

    def sel(self, edit=False):
        if edit and self.r.random() < 0.15:  # text changed to something else that looks alike
            old = [g['sel'] for g in list(self.st['wg'].values()) + list(self.st['links'].values()) if g['sel']]
            if old:
                n = len(json.dumps(self.r.choice(old)))
                return self.r.choice([[int('1' * (n - 2))], [['x' * (n - 6)]] if n > 6 else [[1]], 'y' * (n - 2), {'z': 1}])
        s = self.r.choice(BADSEL if self.r.random() < 0.4 else GOODSEL)
        return [s] if edit and isinstance(s, str) and self.r.random() < 0.7 else s

    def uprops(self):
        return self.r.choice(BADPROPS if self.r.random() < 0.4 else GOODPROPS)

    def g_addwg(self):
        if self.meta:
            return [self.r.choice(GROUPS), self.r.choice(TEXTS), self.sel(), self.r.choice([None, None, True, False])]
        if len(self.st['wg']) >= 3 and not self.isbad():
            return None
        return [self.r.choice(GROUPS), self.r.choice([None, 'text']), self.r.choice(SEL), self.r.choice([None, None, True, False])]

    def g_editwg(self):
        if not self.st['wg']:
            return None
        if self.meta:
            ch = {'description': self.r.choice(TEXTS), 'name': self.r.choice(GROUPS), 'selectors': self.sel(True)}
            ch = {k: ch[k] for k in self.r.sample(sorted(ch), self.r.choice([1, 1, 2, 3]))}
            return [self.r.choice(list(self.st['wg'])), ch]
        ch = self.r.choice([{'description': 'new'}, {'name': self.r.choice(GROUPS)}, {'selectors': ['[kind="b"]']}])
        return [self.r.choice(list(self.st['wg'])), ch]

    def g_dropwg(self):
        if not self.st['wg']:
            return None
        return [self.r.choice(list(self.st['wg'])) if not self.isbad() else 'nope']

    def g_setdefwg(self):
        return [self.r.choice(list(self.st['wg']))] if self.st['wg'] else None

    def g_insw(self, group=None, bad=True):
        r, st = self.r, self.st
        if not st['cols']:
            return None
        g = group or (r.choice(list(st['wg'])) if st['wg'] and r.random() < 0.85 else r.choice(GROUPS))
        vc = 'val' if r.random() < 0.3 else None
        head = (['index_id'] if r.random() < 0.6 else []) + self.perm(st['cols']) + [vc or g]
        rows, seen = [], set()
        ids = self.ids()
        if not bad or r.random() < 0.5:
            r.shuffle(ids)
            ids = ids[:r.choice([len(ids), max(1, len(ids) - 1)])]
            for i in ids:
                d = dict(zip(st['cols'], st['index'][i]), index_id=i)
                rows.append([d[c] for c in head[:-1]] + [self.num(bad)])
        else:
            for _ in range(self.nrows(4)):
                if ids:
                    rows.append(self.idrow(head[:-1]) + [self.num()])
        if r.random() < 0.2 and rows:
            rows[0][-1] = str(rows[0][-1])
        return [g, head, rows, vc, r.choice(['abort', 'ignore', 'replace', 'sum', 'replace'])]

    def g_updw(self):
        if not self.st['wg'] or not self.ids():
            return None
        g = self.r.choice(list(self.st['wg']))
        head = ['index_id'] + self.perm(self.st['cols']) + [g]
        return [g, head, [self.idrow(head[:-1]) + [self.num()] for _ in range(self.nrows(4))]]

    def g_delw(self):
        if not self.st['wg'] or not self.ids():
            return None
        g = self.r.choice(list(self.st['wg']))
        head = ['index_id'] + self.perm(self.st['cols'])
        return [g, head, [self.idrow(head) for _ in range(self.nrows(3))]]

    def g_delwc(self):
        c = self.crit()
        if not self.st['wg'] or not c or not all(k.isidentifier() for k in c):
            return None
        return [self.r.choice(list(self.st['wg'])), c]

    # links
    def src(self):
        return self.r.randrange(2)

    def linkname(self, src):
        names = [k[1] for k in self.st['links'] if k[0] == REFS[src]]
        if not names:
            return None
        return self.r.choice(names) if not self.isbad() else 'nope'

    def g_addlink(self):
        if self.meta:
            opts = dict(is_default=self.r.choice([None, True, False]), selectors=self.sel(), description=self.r.choice(TEXTS),
                        user_properties=self.uprops(), other_filename_hint=self.r.choice(TEXTS))
            return [self.src(), self.r.choice(LINKS), {k: opts[k] for k in self.r.sample(sorted(opts), self.r.choice([0, 1, 2, 3]))}]
        opts = {}
        if self.r.random() < 0.3:
            opts['is_default'] = self.r.choice([True, False])
        if self.r.random() < 0.3:
            opts['selectors'] = self.r.choice(SEL[2:])
        if self.r.random() < 0.3:
            opts['description'] = 'txt'
        return [self.src(), self.r.choice(LINKS), opts]

    def g_editlink(self):
        s = self.src()
        n = self.linkname(s)
        if not n:
            return None
        if self.meta:
            ch = dict(is_default=self.r.choice([True, False]), selectors=self.sel(True), description=self.r.choice(TEXTS),
                      user_properties=self.uprops(), other_filename_hint=self.r.choice(TEXTS), name=self.r.choice(LINKS))
            return [s, n, {k: ch[k] for k in self.r.sample(sorted(ch), self.r.choice([1, 1, 2, 3]))}]
        return [s, n, self.r.choice([{'description': 'd2'}, {'is_default': True}, {'is_default': False}, {'name': self.r.choice(LINKS)}])]

    def g_droplink(self):
        s = self.src()
        n = self.linkname(s)
        return [s, n] if n else None

    def levels(self):
        return sorted(level_hex(b) for b in full_struct(self.st) if any(b)) if self.st['parts'] else []

    def g_insm2(self):
        s = self.src()
        n = self.linkname(s)
        if not n or not self.ids() or not self.levels():
            return None
        r = self.r
        full = level_hex((1,) * len(self.st['cols']))
        rows, seen = [], {k[:] for k in self.st['links'].get((REFS[s], n), {'m': {}})['m']}
        for _ in range(r.choice([1, 3, 6, 10])):
            lv = full if r.random() < 0.8 else r.choice(self.levels())
            if self.isbad():
                lv = r.choice(['ff', full, '01'])
            o = r.choice([0, 1, 2, 3, 4, 5])
            i = r.choice(list(self.st['index'])) if not self.isbad() else 99
            if (o, i, lv) in seen and not self.isbad():
                continue
            seen.add((o, i, lv))
            rows.append([o, i, lv, self.num() if self.isbad() else self.num(False)])
        if r.random() < 0.35:                # make it locally complete
            for i in self.ids():
                if not any(k[1] == i for k in seen):
                    o = r.randint(1, 4)
                    seen.add((o, i, full))
                    rows.append([o, i, full, self.num(False)])
        return [s, n, rows] if rows else None

    def mrows(self, s, n, k, existing=0.5, levels=True):
        st, r = self.st, self.r
        m = list(st['links'].get((REFS[s], n), {'m': {}})['m'])
        head = ['other_index_id', n, 'index_id', 'mapping_level'] + self.perm(st['cols'])
        full = level_hex((1,) * len(st['cols']))
        rows = []
        for _ in range(k):
            if m and r.random() < existing:
                o, i, lv = r.choice(m)
                v = st['links'][(REFS[s], n)]['m'][(o, i, lv)][0]
                if i not in st['index']:
                    continue
            else:
                o, i, lv, v = r.randint(0, 5), r.choice(self.ids() or [0]), full, self.num(False)
            if self.isbad():
                lv = r.choice([None, 'ff', full])
            lab = st['index'][i] if not self.isbad() else self.labels()
            d = dict(zip(st['cols'], lab), other_index_id=o, index_id=i, mapping_level=lv)
            d[n] = v if r.random() < 0.5 else self.num()
            rows.append([d[c] for c in head])
        return [s, n, head, rows] if rows else None

    def g_insm(self):
        s = self.src(); n = self.linkname(s)
        return self.mrows(s, n, self.nrows(4), 0.1) if n and n != 'nope' else None

    def g_updm(self):
        s = self.src(); n = self.linkname(s)
        return self.mrows(s, n, self.nrows(4), 0.7) if n and n != 'nope' else None

    def g_delm(self):
        s = self.src(); n = self.linkname(s)
        return self.mrows(s, n, self.nrows(3), 0.95) if n and n != 'nope' else None

    def g_delmc(self):
        s = self.src(); n = self.linkname(s); c = self.crit()
        return [s, n, c] if n and c and all(k.isidentifier() for k in c) else None

    def g_reify(self):
        s = self.src(); n = self.linkname(s)
        c = self.crit() if self.r.random() < 0.6 else {}
        return [s, n, c] if n and c is not None and all(k.isidentifier() for k in c) else None

    # quantities
    def g_insq(self):
        r, st = self.r, self.st
        if not st['cols'] or not st['attrs'] or not self.ids():
            return None
        attrs = [a for a in st['attrs'] if r.random() < 0.85] or st['attrs'][:1]
        head = self.perm(st['cols']) + attrs + ['value']
        if r.random() < 0.1:
            head = ['domain'] + head
        levels = sorted(full_struct(st)) if st['parts'] else []
        levels = [l for l in levels if any(l)] or [(1,) * len(st['cols'])]
        rows, last = [], None
        keys = list(st['q'])
        for _ in range(self.nrows(8)):
            if self.isbad():
                lev = tuple(r.randint(0, 1) for _ in st['cols'])
            else:
                lev = r.choice(levels)
            lab = st['index'][r.choice(self.ids())] if not self.isbad() else self.labels()
            d = {c: (l if f else '') for c, l, f in zip(st['cols'], lab, lev)}
            if last and r.random() < 0.06:   # the values of an earlier row at other columns
                vals = [x for x in last if x]
                lev = r.choice([l for l in levels if sum(l) == len(vals)] or [()])
                if lev:
                    it = iter(vals)
                    d = {c: (next(it) if f else '') for c, f in zip(st['cols'], lev)}
            last = [d[c] for c in st['cols']]
            for a in attrs:
                d[a] = r.choice(ATTRV.get(a, ['v1', 'v2'])) if not self.isbad() else ''
                if self.meta and self.r.random() < 0.06:
                    d[a] = r.choice([5, 1.5, True, ['a'], {'a': 'b'}, "it's", 'a"b', '5', 'null', '{}'])
            if keys and r.random() < 0.25:
                k = r.choice(keys)
                d.update(zip(st['cols'], k[0]))
                d.update({a: '' for a in attrs})
                d.update({a: v for a, v in json.loads(k[1]).items()})
            d['domain'] = st['domain'] if not self.isbad() else 'other'
            v = self.num() if not self.isbad() else r.choice(['12', '1.5', 'abc', None])
            if isinstance(v, float) and (v != v or abs(v) == float('inf')):
                v = 'xyz'
            d['value'] = v if r.random() < 0.8 else -5.5
            rows.append([d[c] for c in head])
        opts = {'on_existing': r.choice(['abort', 'ignore', 'replace', 'sum', 'sum'])}
        if r.random() < 0.25:
            opts['allow_invalid_label'] = True
        if r.random() < 0.25:
            opts['allow_invalid_partition'] = True
        return [head, rows, 'value', opts]

    def g_insq1(self):
        o = self.g_insq()
        if not o:
            return None
        head = ['domain'] + [c for c in o[0] if c != 'domain'] if self.st['domain'] else [c for c in o[0] if c != 'domain']
        rows = [[dict(zip(o[0], r), domain=self.st['domain'])[c] for c in head] for r in o[1]]
        return [head, rows, 'value', [c for c in head if c in self.st['attrs']]]

    def g_dropcols(self):
        if len(self.st['cols']) < 2:
            return None
        return [self.r.sample(self.st['cols'], self.r.randint(1, len(self.st['cols']) - 1))]

    def g_delunm(self):
        return []

    def g_delnoidx(self):
        return []
