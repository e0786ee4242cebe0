"""P16: files of older formats are upgraded losslessly and atomically."""
import hashlib, json, os, random, sqlite3, sys, threading
import simlib, world, faults
from simlib import L, Violation, bypass
from disagg import DGen
from hist import Refs, run_op, toron
from gen import LINKS

KINDS = ('fs', 'stick', 'short', 'sqlint', 'mem', 'memrun', 'sigsql', 'sigfs')
WAYS = ['read', 'readcache', 'rw', 'rwc', 'ro']


def q(name):
    return '"' + name.replace('"', '""') + '"'


def old_ddl(cols):
    """Tables of format 0.2.0."""
    idx = ''.join(f""", {q(c)} TEXT NOT NULL CHECK ({q(c)} != '') DEFAULT '-'""" for c in cols)
    loc = ''.join(f""", {q(c)} TEXT NOT NULL DEFAULT ''""" for c in cols)
    stc = ''.join(f""", {q(c)} INTEGER NOT NULL CHECK ({q(c)} IN (0, 1)) DEFAULT 0""" for c in cols)
    names = ', '.join(map(q, cols))
    ddl = f"""
    CREATE TABLE node_index(index_id INTEGER PRIMARY KEY AUTOINCREMENT{idx});
    CREATE TABLE location(_location_id INTEGER PRIMARY KEY{loc});
    CREATE TABLE structure(_structure_id INTEGER PRIMARY KEY, _granularity REAL{stc});
    CREATE TABLE weight_group(weight_group_id INTEGER PRIMARY KEY, name TEXT NOT NULL, description TEXT, selectors TEXT_SELECTORS,
        is_complete INTEGER NOT NULL CHECK (is_complete IN (0, 1)) DEFAULT 0, UNIQUE (name));
    CREATE TABLE weight(weight_id INTEGER PRIMARY KEY, weight_group_id INTEGER, index_id INTEGER CHECK (index_id > 0), weight_value REAL NOT NULL,
        FOREIGN KEY(weight_group_id) REFERENCES weight_group(weight_group_id) ON DELETE CASCADE,
        FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED, UNIQUE (index_id, weight_group_id));
    CREATE TABLE attribute_group(attribute_group_id INTEGER PRIMARY KEY, attributes TEXT_ATTRIBUTES NOT NULL, UNIQUE (attributes));
    CREATE TABLE quantity(quantity_id INTEGER PRIMARY KEY, _location_id INTEGER, attribute_group_id INTEGER, quantity_value NUMERIC NOT NULL,
        FOREIGN KEY(_location_id) REFERENCES location(_location_id) ON DELETE CASCADE,
        FOREIGN KEY(attribute_group_id) REFERENCES attribute_group(attribute_group_id) ON DELETE CASCADE);
    CREATE TABLE crosswalk(crosswalk_id INTEGER PRIMARY KEY, other_unique_id TEXT NOT NULL, other_filename_hint TEXT, name TEXT NOT NULL,
        description TEXT, selectors TEXT_SELECTORS, is_default INTEGER CHECK (is_default IS NULL OR is_default=1) DEFAULT NULL,
        user_properties TEXT_USERPROPERTIES, other_index_hash TEXT,
        is_locally_complete INTEGER NOT NULL CHECK (is_locally_complete IN (0, 1)) DEFAULT 0,
        UNIQUE (name, other_unique_id), UNIQUE (is_default, other_unique_id));
    CREATE TABLE relation(relation_id INTEGER PRIMARY KEY, crosswalk_id INTEGER,
        other_index_id INTEGER NOT NULL CHECK (TYPEOF(other_index_id) = "integer"), index_id INTEGER, mapping_level BLOB_BITFLAGS,
        relation_value REAL NOT NULL CHECK (TYPEOF(relation_value) = "real" AND 0.0 <= relation_value),
        proportion REAL CHECK (0.0 <= proportion AND proportion <= 1.0),
        FOREIGN KEY(crosswalk_id) REFERENCES crosswalk(crosswalk_id) ON DELETE CASCADE,
        FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED, UNIQUE (crosswalk_id, other_index_id, index_id));
    CREATE TABLE property(key TEXT PRIMARY KEY NOT NULL, value TEXT_JSON);
    """
    if cols:
        ddl += f"""
    CREATE UNIQUE INDEX unique_index_label_columns ON node_index({names});
    CREATE UNIQUE INDEX unique_location_label_columns ON location({names});
    CREATE UNIQUE INDEX unique_structure_label_columns ON structure({names});
    """
    return ddl + """
    CREATE TRIGGER trigger_on_update_for_undefined BEFORE UPDATE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
        BEGIN SELECT RAISE(FAIL, 'cannot modify undefined record (index_id 0)'); END;
    CREATE TRIGGER trigger_on_delete_for_undefined BEFORE DELETE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
        BEGIN SELECT RAISE(FAIL, 'cannot delete undefined record (index_id 0)'); END;
    """


def make_old(twin, old, version, odd):
    """Write the content of *twin* (current format) as a file of an older
    format; adjusts *twin* to what the older format can express."""
    con = sqlite3.connect(twin, isolation_level=None)
    ex = con.execute
    if version == '0.2.0':
        ex("DELETE FROM property WHERE key='label_display_order'")
        # one level for each pair of records
        ex("""DELETE FROM mapping WHERE mapping_id NOT IN
              (SELECT MAX(mapping_id) FROM mapping GROUP BY link_id, other_index_id, index_id)""")
        keys = sorted({k for (a,) in ex('SELECT attributes FROM attribute_group') for k in json.loads(a)})
        ex("REPLACE INTO property VALUES ('registered_attributes', ?)", (json.dumps(keys),))
        dom = ex("SELECT value FROM property WHERE key='domain'").fetchone()
        dom = json.loads(dom[0]) if dom else ''
        old_dom = {'domain': dom} if dom else None
        if odd['domain'] and dom:
            old_dom = {'zone': dom, 'kind': 'b'}
            ex("REPLACE INTO property VALUES ('domain', ?)", (json.dumps(f'kind_b_zone_{dom}'),))
        elif odd['domain']:
            old_dom = {}
    ex("DELETE FROM property WHERE key IN ('created_date')")
    ver = json.dumps(version)
    if version == '0.3.0':
        con.close()
        with open(twin, 'rb') as f, open(old, 'wb') as g:
            g.write(f.read())
        con = sqlite3.connect(old, isolation_level=None)
        con.execute("DELETE FROM property WHERE key IN ('user_properties', 'created_date')")
        con.execute("UPDATE property SET value=? WHERE key='toron_schema_version'", (ver,))
        con.close()
        return
    cols = [r[1] for r in ex("PRAGMA table_info('label_index')")][1:]
    appid, uver = ex('PRAGMA application_id').fetchone()[0], ex('PRAGMA user_version').fetchone()[0]
    get = lambda sql: ex(sql).fetchall()
    o = sqlite3.connect(old, isolation_level=None)
    o.execute('PRAGMA foreign_keys=OFF')
    o.executescript(old_ddl(cols))
    o.execute('BEGIN')

    def put(table, rows):
        for r in rows:
            o.execute(f'INSERT INTO {table} VALUES ({",".join("?" * len(r))})', r)
    put('node_index', get('SELECT * FROM label_index'))
    put('location', get('SELECT * FROM label_location'))
    put('structure', get('SELECT * FROM label_structure'))
    for t in ('weight_group', 'weight', 'attribute_group'):
        put(t, get(f'SELECT * FROM {t}'))
    put('crosswalk', get('SELECT * FROM link'))
    rows, n = [], 0
    for qid, l, a, v in get('SELECT * FROM quantity'):
        if odd['split'] and v == int(v) and abs(v) < 1e9:
            # several records for one location and attribute group
            rows.append((qid, l, a, v - 3))
            rows.append((None, l, a, 3))
        else:
            rows.append((qid, l, a, v))
    for r in [r for r in rows if r[0] is not None] + [r for r in rows if r[0] is None]:
        put('quantity', [r])
    full = world.level_hex((1,) * len(cols))
    mapped0 = set()
    for mid, link, oi, i, lv, v, p in get('SELECT * FROM mapping'):
        if odd['null'] and lv is not None and lv.hex() == full and (mid + odd['null']) % 2:
            lv = None
        if oi == 0:
            mapped0.add(link)
        put('relation', [(mid, link, oi, i, lv, float(v), p)])
    if odd['zero']:
        for (link,) in get('SELECT link_id FROM link'):
            if link not in mapped0:
                put('relation', [(None, link, 0, 0, None, 0.0, 1.0)])
    for k, v in get('SELECT key, value FROM property'):
        if k in ('registered_attributes', 'created_date', 'user_properties', 'domain'):
            continue
        if k == 'toron_schema_version':
            v = ver
        if k == 'partition_definitions':
            k = 'discrete_categories'
        put('property', [(k, v)])
    if old_dom is not None:
        put('property', [('domain', json.dumps(old_dom))])
    o.execute('DELETE FROM sqlite_sequence')
    put('sqlite_sequence', get("SELECT 'node_index', seq FROM sqlite_sequence WHERE name='label_index'"))
    o.execute('COMMIT')
    o.execute(f'PRAGMA application_id = {appid}')
    o.execute(f'PRAGMA user_version = {uver}')
    o.close()
    con.close()


def raw_dump(path):
    """Everything in a file, as SQL rows (for the old format)."""
    con = sqlite3.connect('file:' + path + '?mode=rw', uri=True, isolation_level=None)
    try:
        if [r[0] for r in con.execute('PRAGMA integrity_check')] != ['ok']:
            raise world.BadFile('integrity check failed')
        out = {}
        for kind, name, sql in con.execute("SELECT type, name, sql FROM sqlite_master ORDER BY type, name").fetchall():
            out[name] = (kind, sql, sorted(con.execute(f'SELECT * FROM {q(name)}').fetchall(), key=repr) if kind == 'table' else None)
        return out
    finally:
        con.close()


class Migr:
    RUNS = dict(quick=120, thorough=6000)
    LEVEL = 'exploration'
    MEASURE = 'distinct (format, way of opening, fault or cut position, outcome, content digest) tuples'
    RULE = ('Each case is a generated space written as a file of format 0.2.0 or 0.3.0 (with the oddities these allowed), opened in every way, then '
            'under drawn faults in one way, killed at every file operation and under drawn power losses while being upgraded in place, opened by '
            'several clients under the seeded scheduler, and used further in lockstep with the same space of the current format; an evaluation is '
            'one opening, judged disk state or operation; non-trivial = a fault, kill or overlap happened or the upgrade completed.')
    ASSUMPTIONS = ['Old files are built by the harness from the published table definitions of those formats (as in the migration tests).',
                   'Opening several times at once may fail with "database is locked".']

    def __init__(self, prop):
        self.PROP = prop

    def generate(self, rng, tier, i):
        g = DGen(rng, dict(chlabel=0, setattrs=1), bad=0.0)
        setup = g.prepare()
        if rng.random() < 0.7:
            for j in range(rng.choice([1, 2])):
                setup.append(g.apply(['addlink', j % 2, LINKS[0], {}]))
                o = g.g_insm2()
                if o:
                    setup.append(g.apply(['insm2'] + o))
        for _ in range(rng.choice([0, 2, 5])):
            setup.append(g.next())
        more = [g.next() for _ in range(rng.choice([0, 2, 4]))]
        clients = None
        if rng.random() < 0.5:
            clients = [rng.choice(['rw', 'rw', 'rwc', 'read', 'readcache']) for _ in range(rng.choice([2, 2, 3]))]
        return dict(setup=setup, more=more, version=rng.choice(['0.2.0', '0.2.0', '0.3.0']),
                    odd=dict(domain=rng.random() < 0.3, split=rng.random() < 0.5, null=rng.choice([0, 1, 2]), zero=rng.random() < 0.5),
                    way=rng.choice(['rw', 'rw', 'rwc', 'read', 'readcache']), k=24 if tier == 'quick' else 60, power=1 if tier == 'quick' else 4,
                    sweep=rng.choice(['', 'sqlint', 'sigsql', 'fs', 'mem']), clients=clients, sw=rng.choice([20, 60, 150, 300]), plan=None)

    def shrink_paths(self, case):
        return [('more',), ('setup',)] + ([('clients',)] if case['clients'] else []) + ([('plan',)] if case['plan'] is not None else [])

    def simplify(self, case):
        if case['clients']:
            yield dict(case, clients=None)
        for k, v in case['odd'].items():
            if v:
                yield dict(case, odd=dict(case['odd'], **{k: 0}))

    # ---------------------------------------------------------------- parts
    def open(self, way, path):
        t = toron()
        if way in ('read', 'readcache'):
            return t.read_file(path, cache_to_drive=way == 'readcache')
        return t.bind_file(path, mode=way)

    def expect(self, got, where, pin=None):
        self.res.evals += 1
        props = dict(got['props'])
        date = props.pop('created_date', None)
        if not (isinstance(date, str) and len(date) >= 19 and date[:2] == '20'):
            raise Violation('creation-date', f'{where}: created_date is {date!r}', pin)
        d = world.diff(self.exp, dict(got, props=props))
        if d:
            raise Violation('upgrade-changed-content', f'{where}: ' + '; '.join(d), pin)

    def disk(self, path, where, pin=None, files=None):
        """'old' or 'new': what the file holds after recovery; else a violation."""
        with bypass():
            p = os.path.join(self.d, 'aux', 'disk.toron')
            for s in ('', '-journal', '-wal'):
                data = (files or {}).get(path + s) if files is not None else None
                if files is None and os.path.exists(path + s):
                    with open(path + s, 'rb') as f:
                        data = f.read()
                if data is not None:
                    with open(p + s, 'wb') as f:
                        f.write(data)
            try:
                try:
                    if raw_dump(p) == self.old_dump:
                        return 'old'
                    st = world.read_state(p)
                except (world.BadFile, sqlite3.Error) as e:
                    raise Violation('file-damaged', f'{where}: {type(e).__name__}: {e}', pin)
                self.expect(st, where + ' (neither the old nor the upgraded content)', pin)
                return 'new'
            finally:
                for s in ('', '-journal', '-wal'):
                    if os.path.exists(p + s):
                        os.unlink(p + s)

    def fresh(self):
        """The old file once more."""
        with bypass():
            for n in os.listdir(self.wd):
                os.unlink(os.path.join(self.wd, n))
            with open(self.path, 'wb') as f:
                f.write(self.bytes)

    def same_file(self, where, pin=None):
        with bypass():
            names = sorted(os.listdir(self.wd))
            with open(self.path, 'rb') as f:
                same = f.read() == self.bytes
        if not same or names != [os.path.basename(self.path)]:
            raise Violation('old-file-changed', f'{where}: bytes {"same" if same else "differ"}, directory {names}', pin)

    def state(self, space, way):
        return world.space_state(space, self.path if way in ('rw', 'rwc') else None, self.d)

    def run(self, case, res):
        self.res, self.case, self.d = res, case, res.dir
        t = toron()
        refs = Refs()
        self.wd = os.path.join(self.d, 'work')
        self.path = os.path.join(self.wd, 'old file.toron')
        twin = os.path.join(self.d, 'aux', 'twin.toron')
        with bypass():
            s = t.DataSpace()
            for op in case['setup']:
                run_op(s, op, refs)
            s.to_file(twin, fsync=False)
            uid = s.unique_id
            del s
            make_old(twin, self.path, case['version'], case['odd'])
            self.exp = world.read_state(twin)
            with open(self.path, 'rb') as f:
                self.bytes = f.read()
            self.old_dump = raw_dump(self.path)
            with open(twin, 'rb') as f:
                self.twin_bytes = f.read()
        rng = random.Random(case['seed'])
        res.count(f'format.{case["version"]}')
        # every way of opening, without faults
        for way in WAYS:
            self.fresh()
            where = f'{way} of a {case["version"]} file'
            try:
                s = self.open(way, self.path)
            except Exception as e:
                if way == 'ro':
                    e.__traceback__ = None
                    self.same_file(where)
                    res.count('way.ro.refused')
                    res.evals += 1
                    continue
                raise Violation('open-fails', f'{where}: {type(e).__name__}: {e}')
            if way == 'ro':
                raise Violation('readonly-upgrade', where)
            if s.unique_id != uid:
                raise Violation('identity-changed', where)
            self.expect(self.state(s, way), where)
            if way in ('read', 'readcache'):
                self.same_file(where)
            else:
                with bypass():
                    with open(self.path, 'rb') as f:
                        b = f.read()
                for mode in ('ro', 'rw', 'rwc'):
                    s2 = t.bind_file(self.path, mode=mode)
                    s2.unique_id, s2.domain
                    s2 = None
                with bypass():
                    with open(self.path, 'rb') as f:
                        if f.read() != b:
                            raise Violation('second-opening-changes', where)
            res.count(f'way.{way}.ok')
            res.nontrivial += 1
            if way == case['way']:
                self.lockstep(case, s, way, refs, twin)
            s = None
        self.faults(case, rng)
        if 'pin' not in case:
            self.crashes(case, rng)
        if case['clients'] and 'pin' not in case:
            self.clients(case, uid)
        res.sample = dict(version=case['version'], odd=case['odd'], way=case['way'], rows=len(self.exp['index']))

    def lockstep(self, case, s, way, refs, twin):
        """The upgraded space behaves like the same space of today's format."""
        with bypass():
            with open(twin, 'wb') as f:
                f.write(self.twin_bytes)
            b = toron().read_file(twin)
        for op in case['more']:
            e1 = run_op(s, op, refs)
            with bypass():
                e2 = run_op(b, op, refs)
            n1, n2 = type(e1).__name__ if e1 else None, type(e2).__name__ if e2 else None
            where = f'{json.dumps(op)} on a space upgraded from {case["version"]} ({way})'
            if n1 != n2:
                raise Violation('upgraded-space-differs', f'{where}: {n1} {e1}, else {n2} {e2}')
            x = self.state(s, way)
            x['props'].pop('created_date', None)
            y = world.space_state(b, None, self.d)
            y['props'].pop('created_date', None)
            d = world.diff(y, x)
            if d:
                raise Violation('upgraded-space-differs', f'{where}: ' + '; '.join(d))
            self.res.evals += 1

    def faults(self, case, rng):
        res, way = self.res, case['way']
        self.fresh()
        plain = lambda: self.open(way, self.path)
        if 'pin' in case:
            plan = case['pin']
        elif 'pcut' in case:
            return
        else:
            counts = faults.measure(plain)
            plan = faults.make_plan(rng, counts, case['k'], KINDS)
            if case['sweep']:
                kw = {'e': 5} if case['sweep'] == 'fs' else {'v': 1} if case['sweep'] == 'sqlint' else {}
                p = faults.sweep(counts, case['sweep'], **kw)
                plan += [p[j] for j in sorted(rng.sample(range(len(p)), min(len(p), 80)))]
        for f in plan:
            self.fresh()

            def sub():
                pin = dict(pin=[f])
                where = f'{way} of a {case["version"]} file under {f}'
                ev = res.evals
                slot = []
                err, fired = faults.attempt(lambda: slot.append(plain()), f)
                en = type(err).__name__ if err is not None else None
                if err is not None:
                    err.__traceback__ = None
                err = None
                where += f' ({en or "opened"})'
                if en is None:
                    self.expect(self.state(slot[0], way), where, pin)
                slot.clear()
                if way in ('read', 'readcache'):
                    self.same_file(where, pin)
                    kind = 'old'
                else:
                    kind = self.disk(self.path, where, pin)
                    if en is None and kind != 'new':
                        raise Violation('not-upgraded', where, pin)
                if en:
                    try:
                        s = self.open(way, self.path)
                    except Exception as e:
                        raise Violation('retry-fails', f'{where}; again: {type(e).__name__}: {e}', pin)
                    self.expect(self.state(s, way), where + '; again', pin)
                return en, fired, kind, res.evals - ev
            en, fired, kind, ev = simlib.forked(sub)
            res.evals += ev
            if fired:
                res.nontrivial += 1
                res.count(f'fault.{f["k"]}')
                res.sig(case['version'], way, f, en, kind, world.digest(self.exp))
            res.count(f'outcome.{kind}.{"error" if en else "ok"}')

    def crashes(self, case, rng):
        res, t = self.res, toron()
        self.fresh()
        initial = simlib.snapshot_dir(self.d)
        L.sim_log_start()
        s = self.open('rw', self.path)
        L.sim_log_stop()
        s = None
        log = simlib.read_log()
        seen = set()

        def judge(files, where, pin=None):
            key = hashlib.sha256(repr(sorted((p, b) for p, b in files.items() if p.startswith(self.path))).encode()).hexdigest()
            if key in seen:
                return
            seen.add(key)
            if self.path not in files:
                raise Violation('file-missing', where, pin)
            kind = self.disk(self.path, where, pin, files)
            with bypass():
                for p, b in files.items():
                    if p.startswith(self.path):
                        with open(p, 'wb') as f:
                            f.write(b)
                for n in os.listdir(self.wd):
                    p = os.path.join(self.wd, n)
                    if p not in files:
                        os.unlink(p)
            try:
                s = self.open('rw', self.path)
            except Exception as e:
                raise Violation('recovery-fails', f'{where} ({kind}): {type(e).__name__}: {e}', pin)
            self.expect(self.state(s, 'rw'), where + ' (reopened)', pin)
            res.nontrivial += 1
            res.count(f'probe.recovers_{kind}')
            res.sig(case['version'], 'crash', where, kind)
        if 'pcut' not in case:
            for i, marks, files in simlib.process_crash_states(initial, log):
                if files is not None:
                    res.count('fault.kill')
                    judge(files, f'killed after file operation {i} of {len(log)} of upgrading a {case["version"]} file')
        for cut in [case['pcut'][0]] if 'pcut' in case else range(1, len(log) + 1):
            for r in [case['pcut'][1]] if 'pcut' in case else range(case['power']):
                prng = random.Random(f'{case["seed"]}/{cut}/{r}')
                marks, files, info = simlib.power_crash_state(initial, log, cut, prng)
                res.count('fault.power_loss_' + info['writes'])
                judge(files, f'power lost after file operation {cut} of {len(log)} {info} of upgrading a {case["version"]} file', dict(pcut=[cut, r]))

    def clients(self, case, uid):
        """Several clients open the old file at the same time."""
        res = self.res
        self.fresh()
        ways, n = case['clients'], len(case['clients'])
        states, errs, bad = [None] * n, [None] * n, []

        def client(tid):
            L.sim_thread_enter(tid)
            try:
                L.sim_point()
                s = self.open(ways[tid], self.path)
                if ways[tid] in ('read', 'readcache'):
                    states[tid] = self.state(s, ways[tid])
                else:
                    states[tid] = s.unique_id, s.domain
                s = None
            except Exception as e:
                e.__traceback__ = None
                errs[tid] = e
            except BaseException as e:
                bad.append(repr(e))
            finally:
                L.sim_thread_exit()
        sys.setswitchinterval(100)
        L.sim_sched_seed(case['seed'] & 0xffffffffffff, 0)
        L.sim_sched_plan_clear()
        for st, tid in case['plan'] or []:
            L.sim_sched_plan_add(st, tid)
        L.sim_sched_start(n, case['sw'], case['plan'] is not None, 3000000)
        th = [threading.Thread(target=client, args=(i,), daemon=True) for i in range(n)]
        for x in th:
            x.start()
        for x in th:
            x.join()
        plan = [[L.sim_sched_switch_step(i), L.sim_sched_switch_tid(i)] for i in range(L.sim_sched_nswitch())]
        pin = None if case['plan'] is not None else dict(plan=plan)
        if bad:
            raise RuntimeError(bad[0])
        res.count('probe.context_switches', len(plan))
        where = f'{ways} of one {case["version"]} file at the same time'
        for i in range(n):
            if errs[i] is None:
                continue
            if 'locked' not in str(errs[i]):
                raise Violation('concurrent-open-fails', f'{where}: client {i}: {type(errs[i]).__name__}: {errs[i]}', pin)
            res.count('probe.open_locked')
        for i in range(n):
            if isinstance(states[i], dict):
                self.expect(states[i], f'{where}: client {i}', pin)
            elif states[i] is not None and states[i] != (uid, self.exp['domain']):
                raise Violation('upgraded-space-differs', f'{where}: client {i}: {states[i]}', pin)
        kind = self.disk(self.path, where, pin)
        if kind != 'new' and any(w in ('rw', 'rwc') and s is not None for w, s in zip(ways, states)):
            raise Violation('not-upgraded', where, pin)
        res.count(f'probe.clients_{kind}')
        res.nontrivial += 1
        res.sig('clients', ways, plan[:40], kind)


def make(prop):
    return Migr(prop)
