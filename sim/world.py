"""Logical content of a space, operations as JSON, and a reference model that
predicts the content after every operation."""
import copy, hashlib, itertools, json, math, os, sqlite3 as _sq, zlib
import simlib
from simlib import bypass, Violation

# ------------------------------------------------------------------ dump
class BadFile(Exception):
    """The file cannot be read as a complete space."""


OBJECTS = {}


def learn_objects():
    """Triggers of a fresh space (every other one has to have these, too)."""
    import shutil, tempfile, toron
    d = tempfile.mkdtemp(prefix='toron-sim-')
    try:
        for cols in ((), ('a', 'b')):
            s = toron.DataSpace()
            if cols:
                s.add_index_columns(*cols)
            s.to_file(os.path.join(d, 'x'), fsync=False)
            con = _sq.connect(os.path.join(d, 'x'))
            OBJECTS[bool(cols)] = {tuple(r) for r in con.execute("SELECT name, tbl_name FROM sqlite_master WHERE type='trigger' AND tbl_name GLOB 'label_*'")}
            con.close()
    finally:
        shutil.rmtree(d)


def parsed(x):
    """A JSON value of a column; text that is not JSON is kept recognisable."""
    if not x:
        return None
    try:
        return json.loads(x)
    except ValueError:
        return {'!not JSON': x}


def check_objects(q, cols):
    """The constraints that keep records distinct and the undefined one fixed."""
    lack = OBJECTS.get(bool(cols), set()) - {tuple(r) for r in q("select name, tbl_name from sqlite_master where type='trigger'")}
    if lack:
        raise BadFile(f'lacks triggers {sorted(lack)}')
    for table in ('label_index', 'label_location', 'label_structure') if cols else ():
        if not any(r[2] and {x[2] for x in q(f"pragma index_info('{r[1]}')")} <= set(cols) for r in q(f"pragma index_list('{table}')")):
            raise BadFile(f'labels of {table} are not constrained to be distinct')


def read_state(path):
    """Logical content of a file, straight from its tables (no toron code)."""
    tmp = None
    if os.path.exists(path + '-journal'):
        # an unfinished transaction has to be rolled back first: on a copy,
        # so that looking at a file never changes it
        tmp = path + '.look'
        with bypass():
            for a, b in ((path, tmp), (path + '-journal', tmp + '-journal')):
                with open(a, 'rb') as f:
                    data = f.read()
                with open(b, 'wb') as f:
                    f.write(data)
    uri = 'file:' + (tmp or path).replace('%', '%25').replace('?', '%3f').replace('#', '%23') + '?mode=' + ('rw' if tmp else 'ro')
    con = None
    try:
        con = _sq.connect(uri, uri=True, isolation_level=None)
        return _state(con)
    except _sq.Error as e:
        raise BadFile(f'{type(e).__name__}: {e}')
    finally:
        if con is not None:
            con.close()
        if tmp:
            with bypass():
                for p in (tmp, tmp + '-journal'):
                    if os.path.exists(p):
                        os.unlink(p)


def _state(con):
    cur = con.cursor()
    q = lambda s: cur.execute(s).fetchall()
    props = {k: (json.loads(v) if v is not None else None) for k, v in q('select key,value from property')}
    cols = [r[1] for r in q("pragma table_info('label_index')")][1:]
    if [r[1] for r in q("pragma table_info('label_location')")][1:] != cols or \
       [r[1] for r in q("pragma table_info('label_structure')")][2:] != cols:
        raise BadFile('label columns of the tables differ')
    check_objects(q, cols)
    st = {'cols': cols}
    st['uid'] = props.pop('unique_id', None)
    st['hash'] = props.pop('index_hash', None)
    st['domain'] = props.pop('domain', None) or ''
    st['attrs'] = props.pop('registered_attributes', None) or []
    st['disp'] = props.pop('label_display_order', None)
    pd = props.pop('partition_definitions', None) or []
    st['parts'] = sorted(sorted(x) for x in pd)
    dwg = props.pop('default_weight_group_id', None)
    st['index'] = {r[0]: tuple(r[1:]) for r in q('select * from label_index')}
    seq = q("select seq from sqlite_sequence where name='label_index'")
    st['seq'] = seq[0][0] if seq else 0
    st['struct'] = {}
    for r in q('select * from label_structure'):
        if tuple(r[2:]) in st['struct']:
            raise BadFile(f'duplicate structure record {r!r}')
        st['struct'][tuple(r[2:])] = r[1]
    wgs, st['wg'] = {}, {}
    for i, name, desc, sel, comp in q('select weight_group_id,name,description,selectors,is_complete from weight_group'):
        wgs[i] = name
        st['wg'][name] = dict(desc=desc, sel=parsed(sel), complete=comp, w={})
    st['orphans'] = []
    for gid, idx, val in q('select weight_group_id,index_id,weight_value from weight'):
        if gid not in wgs or idx not in st['index']:
            st['orphans'].append(('weight', gid, idx, val))
        else:
            st['wg'][wgs[gid]]['w'][idx] = val
    st['defwg'] = wgs.get(dwg) if dwg is not None else None
    if dwg is not None and dwg not in wgs:
        st['orphans'].append(('default weight group', dwg))
    ag = {i: a for i, a in q('select attribute_group_id,attributes from attribute_group')}
    loc = {r[0]: tuple(r[1:]) for r in q('select * from label_location')}
    st['q'] = {}
    for lid, aid, val in q('select _location_id,attribute_group_id,quantity_value from quantity'):
        if lid not in loc or aid not in ag:
            st['orphans'].append(('quantity', lid, aid, val))
        else:
            key = (loc[lid], json.dumps(json.loads(ag[aid]), sort_keys=True))
            if key in st['q']:
                raise BadFile(f'duplicate quantity {key!r}')
            st['q'][key] = val
    st['locs'] = sorted(loc.values())
    st['ags'] = sorted(json.dumps(json.loads(a), sort_keys=True) for a in ag.values())
    links, st['links'] = {}, {}
    for r in q('select link_id,other_unique_id,other_filename_hint,name,description,selectors,is_default,user_properties,other_index_hash,is_locally_complete from link'):
        key = (r[1], r[3])
        links[r[0]] = key
        st['links'][key] = dict(hint=r[2], desc=r[4], sel=parsed(r[5]),
                                default=r[6] or 0, props=parsed(r[7]), hash=r[8], complete=r[9], m={})
    for lid, o, i, lv, v, p in q('select link_id,other_index_id,index_id,mapping_level,mapping_value,proportion from mapping'):
        if lid not in links or i not in st['index']:
            st['orphans'].append(('mapping', lid, o, i, v))
        else:
            st['links'][links[lid]]['m'][(o, i, lv.hex() if lv is not None else None)] = (v, p)
    st['props'] = {k: v for k, v in sorted(props.items())}
    st['fk'] = [tuple(r) for r in q('pragma foreign_key_check')]
    ic = [r[0] for r in q('pragma integrity_check')]
    if ic != ['ok']:
        raise BadFile('integrity_check: ' + '; '.join(ic[:3]))
    return st


_n = [0]


def space_state(space, path=None, d=None):
    """Logical content of a live space (through a saved copy, or its file)."""
    with bypass():
        if path is not None:
            return read_state(path)
        _n[0] += 1
        p = os.path.join(d or os.getcwd(), 'aux', f'dump{_n[0]}.toron')
        hint = space._path_hint if hasattr(space, '_path_hint') else None
        space.to_file(p, fsync=False)
        try:
            if hasattr(space, '_path_hint'):
                space._path_hint = hint
            return read_state(p)
        finally:
            os.unlink(p)


def approx(a, b):
    if a is None or b is None:
        return a is b
    if a == b:
        return True
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and \
        math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)


def diff(a, b, path='', out=None, limit=6):
    """Differences of two nested states (floats compared approximately)."""
    out = [] if out is None else out
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a:
                out.append(f'{path}/{k!r}: appeared {b[k]!r}')
            elif k not in b:
                out.append(f'{path}/{k!r}: missing, expected {a[k]!r}')
            else:
                diff(a[k], b[k], f'{path}/{k!r}', out, limit)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            out.append(f'{path}: expected {a!r}, got {b!r}'[:400])
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                diff(x, y, f'{path}[{i}]', out, limit)
    elif not approx(a, b):
        out.append(f'{path}: expected {a!r}, got {b!r}'[:400])
    return out[:limit]


def digest(st):
    return hashlib.blake2b(repr(_canon(st)).encode(), digest_size=8).hexdigest()


def _canon(x):
    if isinstance(x, dict):
        return [(repr(k), _canon(v)) for k, v in sorted(x.items(), key=lambda t: repr(t[0]))]
    if isinstance(x, (list, tuple)):
        return [_canon(v) for v in x]
    if isinstance(x, float):
        return round(x, 9)
    return x

# ------------------------------------------------------------- model bits
def seq_hash(ids):
    """The fingerprint of an ordered sequence of ids (an injective function
    of it); compared with toron's only for equality/inequality patterns."""
    return tuple(ids)


def level_hex(flags):
    """BitFlags bytes of a flag tuple (trailing zero bytes removed)."""
    b = bytearray((len(flags) + 7) // 8)
    for i, f in enumerate(flags):
        if f:
            b[i // 8] |= 0x80 >> (i % 8)
    while b and b[-1] == 0:
        b.pop()
    return bytes(b).hex()


def closure(parts):
    out = {frozenset()}
    for p in parts:
        p = frozenset(p)
        out |= {x | p for x in out}
    return out


def granularity(st, columns):
    rows = [l for i, l in st['index'].items() if i != 0]
    if not columns or not rows:
        return None
    pos = [st['cols'].index(c) for c in columns]
    blocks = {}
    for l in rows:
        k = tuple(l[p] for p in pos)
        blocks[k] = blocks.get(k, 0) + 1
    n = len(rows)
    return math.log2(n) - sum(c / n * math.log2(c) for c in blocks.values())


def full_struct(st):
    out = {}
    for s in closure(st['parts']):
        out[tuple(1 if c in s else 0 for c in st['cols'])] = granularity(st, [c for c in st['cols'] if c in s])
    return out


def wg_complete(st, name):
    return int(all(i in st['wg'][name]['w'] for i in st['index'] if i != 0))


def link_complete(st, key):
    mapped = {i for (o, i, lv) in st['links'][key]['m']}
    return int(all(i in mapped for i in st['index'] if i != 0))


def shares(m):
    """(other,idx,level) -> proportion for one link's mappings."""
    by = {}
    for (o, i, lv), (v, p) in m.items():
        by.setdefault(o, []).append(((o, i, lv), v))
    out = {}
    for o, lst in by.items():
        tot = sum(v for _, v in lst)
        for k, v in lst:
            out[k] = 0.0 if o == 0 else (v / tot if tot else 1 / len(lst))
    return out


def src_ids(m):
    return sorted({0} | {o for (o, i, lv) in m})


RESERVED = {'domain', 'index_id', 'value', 'weight', '_location_id', '_structure_id', '_granularity'}
UNDEF = '-'


class Err(Exception):
    """The model expects the operation to raise."""


class Unspecified(Exception):
    """The model does not say what happens (error: unchanged; else adopt)."""


def _real(x):
    try:
        f = float(x)
    except (TypeError, ValueError):
        return None
    return f if math.isfinite(f) else None


class Model:
    """apply(state, op) -> expected next state, or Err / Unspecified."""

    def __init__(self, refs):
        self.refs = refs              # source index -> unique id of the source space

    def apply(self, st, op):
        st = copy.deepcopy(st)
        getattr(self, 'op_' + op[0])(st, *op[1:])
        return st

    # -- structure helpers
    def _refresh(self, st):
        st['struct'] = full_struct(st)

    # -- label columns
    def op_addcols(self, st, names):
        if not names:
            raise Unspecified
        seen = set()
        for n in names:
            if n in RESERVED or n in st['cols'] or n in st['attrs']:
                raise Err('bad column name')
            if n in seen or n == '' or n.lower() in {c.lower() for c in st['cols']} | {x.lower() for x in seen}:
                raise Unspecified          # duplicates within the call
            seen.add(n)
        old = list(st['cols'])
        oldset = sorted(old)
        st['cols'] = old + list(names)
        st['index'] = {i: l + (UNDEF,) * len(names) for i, l in st['index'].items()}
        st['locs'] = sorted(l + ('',) * len(names) for l in st['locs'])
        st['q'] = {(l + ('',) * len(names), a): v for (l, a), v in st['q'].items()}
        whole = sorted(st['cols'])
        used_q = any(all(x != '' for x in l[:len(old)]) and True for (l, a) in st['q']) if old else False
        used_m = any(lv == level_hex((1,) * len(old)) for k in st['links'] for (o, i, lv) in st['links'][k]['m']) if old else False
        parts = [p for p in st['parts']]
        if not (used_q or used_m):
            parts = [p for p in parts if p != oldset]
        st['parts'] = parts + [whole]
        self._refresh(st)

    def op_rencol(self, st, old, new):
        self._rename(st, {old: new})

    def op_rencols(self, st, mapping):
        self._rename(st, mapping)

    def op_legren(self, st, mapping):
        if any(o not in st['cols'] for o in mapping):
            raise Unspecified
        self._rename(st, mapping)

    def _rename(self, st, mapping):
        for o in mapping:
            if o not in st['cols']:
                raise Err('no such label')
        for n in mapping.values():
            if n in RESERVED or n in st['cols'] or n in st['attrs']:
                raise Err('bad new name')
        vals = list(mapping.values())
        if len(set(x.lower() for x in vals)) != len(vals) or '' in vals or \
                {x.lower() for x in vals} & {c.lower() for c in st['cols']}:
            raise Unspecified
        f = lambda c: mapping.get(c, c)
        st['cols'] = [f(c) for c in st['cols']]
        st['parts'] = [[f(c) for c in p] for p in st['parts']]
        if st['disp'] is not None:
            st['disp'] = [f(c) for c in st['disp']]
        if not st['parts']:
            raise Unspecified

    def op_chlabel(self, st, label, offset):
        disp = [c for c in (st['disp'] or []) if c in st['cols']]
        disp += [c for c in st['cols'] if c not in disp]
        st['disp'] = self._reorder(disp, label, offset)

    def _reorder(self, seq, item, offset):
        if item not in seq:
            raise Err('no such element')
        seq = list(seq)
        i = seq.index(item)
        seq.pop(i)
        seq.insert(max(0, min(len(seq), i + offset)), item)
        return seq

    def op_setattrs(self, st, names):
        if len(set(names)) != len(names):
            raise Err('dup')
        for n in names:
            if n in RESERVED or n in st['cols']:
                raise Err('reserved')
        st['attrs'] = list(names)

    def op_chattr(self, st, name, off):
        st['attrs'] = self._reorder(st['attrs'], name, off)

    def op_dom(self, st, value):
        if not isinstance(value, str):
            raise Err('domain must be text')
        st['domain'] = value

    # -- partitions
    def op_addpart(self, st, p):
        if not st['cols'] or set(p) - set(st['cols']):
            raise Err('bad partition')
        if not p:
            raise Unspecified
        if frozenset(p) in closure(st['parts']):
            raise Err('already covered')
        st['parts'] = st['parts'] + [sorted(p)]
        self._refresh(st)

    def op_addparts(self, st, ps):
        if not st['cols'] or any(set(p) - set(st['cols']) for p in ps):
            raise Err('bad partition')
        if not all(ps):
            raise Unspecified
        st['parts'] = st['parts'] + [sorted(p) for p in ps] + [sorted(st['cols'])]
        self._refresh(st)

    def op_dropparts(self, st, ps):
        whole = set(st['cols'])
        if not st['cols']:
            raise Unspecified
        if any(set(p) == whole for p in ps):
            raise Err('whole space')
        drop = [set(p) for p in ps]
        st['parts'] = [p for p in st['parts'] if set(p) not in drop] + [sorted(whole)]
        self._refresh(st)

    # -- index
    def op_insidx(self, st, columns, rows, weights=None, lc='abort', wc='abort'):
        if weights is not None and set(weights) - set(columns):
            raise Err('weights not in data')
        if not st['cols']:
            raise Err('no label columns')
        if weights is not None and any(w not in st['wg'] for w in weights):
            raise Err('no such group')
        labs = [c for c in columns if c in st['cols']]
        if labs and set(labs) != set(st['cols']):
            raise Err('missing labels')
        if len(set(columns)) != len(columns):
            raise Unspecified
        if not labs and 'index_id' not in columns:
            if rows:
                raise Unspecified
        groups = [g for g in columns if g in st['wg'] and g not in labs and g != 'index_id'
                  and (weights is None or g in weights)]
        bylab = {l: i for i, l in st['index'].items()}
        inserted = winserted = replaced = 0
        for row in rows:
            if not row:
                continue
            d = dict(zip(columns, row))
            lab = tuple(d[c] for c in st['cols']) if labs else ()
            if '' in lab:
                continue
            if any(not isinstance(x, str) for x in lab):
                raise Unspecified
            rid = d.get('index_id', '')
            if rid == '' and not labs:
                raise Unspecified
            if rid != '':
                try:
                    rid = int(rid)
                except (TypeError, ValueError):
                    raise Err('bad id')
                if rid not in st['index']:
                    raise Err('no such id')
                if lab and lab != st['index'][rid]:
                    if lc == 'abort':
                        raise Err('label conflict')
                    if lc == 'replace':
                        if rid == 0 or lab in bylab:
                            raise Err('cannot relabel')
                        del bylab[st['index'][rid]]
                        st['index'][rid] = lab
                        bylab[lab] = rid
                        replaced += 1
                    elif lc != 'ignore':
                        raise Err('bad policy')
            elif lab in bylab:
                rid = bylab[lab]
            else:
                st['seq'] += 1
                rid = st['seq']
                st['index'][rid] = lab
                bylab[lab] = rid
                inserted += 1
            for g in groups:
                v = d[g]
                if v is None or v == '':
                    continue
                if _real(v) is None or _real(v) < 0:
                    w = st['wg'][g]['w']
                    if rid in w and wc == 'ignore' and isinstance(v, (int, float, str)):
                        try:
                            float(v)
                            continue
                        except ValueError:
                            pass
                    raise Err('bad weight')
                if rid == 0 and not float(v):
                    continue  # a weight of zero is what the undefined record has
                w = st['wg'][g]['w']
                if rid in w:
                    if wc == 'abort':
                        raise Err('weight conflict')
                    if wc == 'replace':
                        w[rid] = float(v)
                    elif wc != 'ignore':
                        raise Err('bad policy')
                else:
                    if rid == 0:
                        raise Err('undefined record')
                    w[rid] = float(v)
                    winserted += 1
        if inserted:
            st['hash'] = None
            if not st['parts']:
                st['parts'] = [sorted(st['cols'])]
            for k in st['links']:
                st['links'][k]['complete'] = 0
        if inserted or replaced:
            self._refresh(st)
        if inserted or winserted:
            for g in st['wg']:
                st['wg'][g]['complete'] = wg_complete(st, g)

    def op_updidx(self, st, columns, rows, merge=False):
        if not rows:
            raise Unspecified
        if 'index_id' not in columns or set(st['cols']) - set(columns):
            raise Err('columns')
        merged, changed = set(), False
        for row in rows:
            if '' in row:
                continue
            d = dict(zip(columns, row))
            i = d['index_id']
            if not isinstance(i, int):
                raise Unspecified
            if i not in st['index']:
                if i in merged:
                    raise Err('merged before')
                continue
            lab = tuple(d[c] for c in st['cols'])
            other = next((j for j, l in st['index'].items() if l == lab), None)
            if other is not None and other != i:
                if not merge:
                    raise Err('conflict')
                if other == 0 or i == 0:
                    raise Err('undefined record')
                self._merge(st, i, other)
                merged.add(other)
            if i == 0:
                raise Err('undefined record')
            st['index'][i] = lab
            changed = True
        if changed:
            self._refresh(st)
        if merged:
            st['hash'] = None
            for g in st['wg']:
                if wg_complete(st, g):
                    st['wg'][g]['complete'] = 1
            for k in st['links']:
                if link_complete(st, k):
                    st['links'][k]['complete'] = 1

    def _merge(self, st, keep, gone):
        for g in st['wg'].values():
            if gone in g['w']:
                v = g['w'].pop(gone)
                g['w'][keep] = g['w'].get(keep, 0.0) + v
            elif keep in g['w']:
                pass
        for l in st['links'].values():
            for (o, i, lv) in list(l['m']):
                if i == gone:
                    v, p = l['m'].pop((o, i, lv))
                    if (o, keep, lv) in l['m']:
                        v2, p2 = l['m'][(o, keep, lv)]
                        l['m'][(o, keep, lv)] = (v + v2, p + p2 if p is not None and p2 is not None else None)
                    else:
                        l['m'][(o, keep, lv)] = (v, p)
        del st['index'][gone]

    def _delete_ids(self, st, ids):
        full = level_hex((1,) * len(st['cols']))
        for i in ids:
            if i == 0:
                raise Err('undefined record')
            for l in st['links'].values():
                if any(k[1] == i and k[2] != full for k in l['m']):
                    raise Err('ambiguous mapping')
            for g in st['wg'].values():
                g['w'].pop(i, None)
            for l in st['links'].values():
                touched = {k[0] for k in l['m'] if k[1] == i}
                l['m'] = {k: v for k, v in l['m'].items() if k[1] != i}
            del st['index'][i]
        if ids:
            for l in st['links'].values():
                sh = shares(l['m'])
                l['m'] = {k: (v, sh[k]) for k, (v, p) in l['m'].items()}
                l['hash'] = None
            st['hash'] = None
            self._refresh(st)
            for g in st['wg']:
                if wg_complete(st, g):
                    st['wg'][g]['complete'] = 1
            for k in st['links']:
                if link_complete(st, k):
                    st['links'][k]['complete'] = 1

    def op_delidx(self, st, columns, rows):
        if not rows:
            raise Unspecified
        if 'index_id' not in columns or set(st['cols']) - set(columns):
            raise Err('columns')
        ids = []
        for row in rows:
            d = dict(zip(columns, row))
            i = d['index_id']
            if i in st['index'] and i not in ids and st['index'][i] == tuple(d[c] for c in st['cols']):
                ids.append(i)
        self._delete_ids(st, ids)

    def op_delidxc(self, st, crit):
        if not crit or set(crit) - set(st['cols']):
            raise Err('criteria')
        self._delete_ids(st, self._match(st, crit))

    def _match(self, st, crit):
        pos = {st['cols'].index(c): v for c, v in crit.items()}
        return [i for i, l in st['index'].items() if all(l[p] == v for p, v in pos.items())]

    # -- weights
    def _sel(self, x, edit=False):
        if not x and not isinstance(x, (type(None), list)):
            raise Unspecified
        if isinstance(x, str) and not edit:
            x = [x]
        if x and not (isinstance(x, list) and all(isinstance(y, str) for y in x)):
            raise Err('selectors')
        return x or None

    def _props(self, x):
        if not x and x is not None:
            raise Unspecified
        if x and not isinstance(x, dict):
            raise Err('user properties')
        return x

    def op_addwg(self, st, name, desc=None, sel=None, default=None):
        if name in st['wg']:
            raise Err('exists')
        if sel == []:
            raise Unspecified
        sel = self._sel(sel)
        if name in st['wg']:
            raise Err('exists')
        first = not st['wg']
        st['wg'][name] = dict(desc=desc, sel=sel, complete=0, w={})
        if default or (default is None and first):
            st['defwg'] = name

    def op_editwg(self, st, name, changes):
        if name not in st['wg']:
            return
        g = st['wg'][name]
        if 'name' in changes and changes['name'] != name:
            if changes['name'] in st['wg']:
                raise Err('exists')
            st['wg'][changes['name']] = st['wg'].pop(name)
            if st['defwg'] == name:
                st['defwg'] = changes['name']
        if 'description' in changes:
            g['desc'] = changes['description']
        if 'selectors' in changes:
            g['sel'] = self._sel(changes['selectors'], True)

    def op_dropwg(self, st, name):
        if name in st['wg']:
            del st['wg'][name]
            if st['defwg'] == name:
                st['defwg'] = None

    def op_setdefwg(self, st, name):
        if name not in st['wg']:
            raise Unspecified
        st['defwg'] = name

    def _wrows(self, st, columns, rows, value_col, need_real):
        for row in rows:
            d = dict(zip(columns, row))
            yield d, d.get(value_col)

    def op_insw(self, st, group, columns, rows, value_column=None, on_conflict='abort'):
        if on_conflict not in ('abort', 'ignore', 'replace', 'sum'):
            raise Err('policy')
        if set(st['cols']) - set(columns):
            raise Err('columns')
        vc = value_column or group
        if group not in st['wg']:
            st['wg'][group] = dict(desc=None, sel=None, complete=0, w={})
        w = st['wg'][group]['w']
        n = 0
        for row in rows:
            d = dict(zip(columns, row))
            if vc not in d:
                raise Err('no value column')
            v = _real(d[vc])
            if v is None:
                continue
            lab = tuple(d[c] for c in st['cols'])
            if 'index_id' in d:
                i = d['index_id']
                if i not in st['index'] or st['index'][i] != lab:
                    continue
            else:
                i = next((j for j, l in st['index'].items() if l == lab), None)
                if i is None:
                    continue
            if i == 0:
                continue
            if i in w:
                if on_conflict == 'abort':
                    raise Err('conflict')
                if on_conflict == 'ignore':
                    if v < 0:
                        raise Unspecified
                elif on_conflict == 'replace':
                    if v < 0:
                        raise Err('negative')
                    w[i] = v
                else:
                    if v < 0:
                        raise Unspecified
                    w[i] += v
            else:
                if v < 0:
                    raise Err('negative')
                w[i] = v
                n += 1
        if n and wg_complete(st, group):
            st['wg'][group]['complete'] = 1

    def op_updw(self, st, group, columns, rows):
        if not rows or not st['cols']:
            raise Unspecified
        if 'index_id' not in columns or group not in columns or set(st['cols']) - set(columns):
            raise Err('columns')
        if group not in st['wg']:
            raise Err('no group')
        w, n = st['wg'][group]['w'], 0
        for row in rows:
            d = dict(zip(columns, row))
            i, v = d['index_id'], d[group]
            if i not in st['index'] or st['index'][i] != tuple(d[c] for c in st['cols']):
                continue
            if i == 0 or isinstance(v, bool) or not isinstance(v, (int, float)) or not math.isfinite(v) or v < 0:
                raise Err('bad weight')
            n += i not in w
            w[i] = float(v)
        if n and wg_complete(st, group):
            st['wg'][group]['complete'] = 1

    def op_delw(self, st, group, columns, rows):
        if group not in st['wg']:
            raise Err('no group')
        if not rows:
            raise Unspecified
        if 'index_id' not in columns or set(st['cols']) - set(columns):
            raise Err('columns')
        n = 0
        for row in rows:
            d = dict(zip(columns, row))
            i = d['index_id']
            if i in st['index'] and st['index'][i] == tuple(d[c] for c in st['cols']):
                n += st['wg'][group]['w'].pop(i, None) is not None
        if n:
            st['wg'][group]['complete'] = 0

    def op_delwc(self, st, group, crit):
        if group not in st['wg'] or not crit or set(crit) - set(st['cols']):
            raise Err('bad')
        n = sum(st['wg'][group]['w'].pop(i, None) is not None for i in self._match(st, crit))
        if n:
            st['wg'][group]['complete'] = 0

    # -- links
    def _link(self, st, src, name):
        ref = self.refs[src]
        mine = [k for k in st['links'] if k[0] == ref]
        if not mine:
            raise Err('no links')
        if name:
            if (ref, name) not in st['links']:
                raise Err('no such link')
            return (ref, name)
        if len(mine) == 1:
            return mine[0]
        for k in mine:
            if st['links'][k]['default']:
                return k
        raise Err('no default')

    def op_addlink(self, st, src, name, opts):
        ref = self.refs[src]
        mine = [k for k in st['links'] if k[0] == ref]
        if (ref, name) in st['links']:
            raise Err('exists')
        d = opts.get('is_default')
        if d is None:
            d = not mine
        if d:
            for k in mine:
                st['links'][k]['default'] = 0
        st['links'][(ref, name)] = dict(hint=opts.get('other_filename_hint'), desc=opts.get('description'),
            sel=self._sel(opts.get('selectors')), default=int(bool(d)), props=self._props(opts.get('user_properties')), hash=None, complete=0, m={})

    def op_editlink(self, st, src, name, changes):
        if not name:
            raise Unspecified
        k = self._link(st, src, name)
        if changes.get('is_default') is True:
            for j in st['links']:
                if j[0] == k[0]:
                    st['links'][j]['default'] = 0
        l = st['links'][k]
        if 'is_default' in changes:
            l['default'] = int(bool(changes['is_default']))
        if 'description' in changes:
            l['desc'] = changes['description']
        if 'selectors' in changes:
            l['sel'] = self._sel(changes['selectors'], True)
        if 'user_properties' in changes:
            l['props'] = self._props(changes['user_properties'])
        if 'other_filename_hint' in changes:
            l['hint'] = changes['other_filename_hint']
        if 'name' in changes and changes['name'] != k[1]:
            if (k[0], changes['name']) in st['links']:
                raise Err('exists')
            st['links'][(k[0], changes['name'])] = st['links'].pop(k)

    def op_droplink(self, st, src, name):
        del st['links'][self._link(st, src, name)]

    def _finish_link(self, st, k):
        l = st['links'][k]
        sh = shares(l['m'])
        l['m'] = {x: (v, sh[x]) for x, (v, p) in l['m'].items()}
        l['hash'] = None
        l['complete'] = link_complete(st, k)

    def _levels(self, st):
        return {level_hex(b) for b in full_struct(st)}

    def op_insm2(self, st, src, name, rows):
        if not rows:
            raise Unspecified
        k = self._link(st, src, name)
        m, n = st['links'][k]['m'], 0
        levels = self._levels(st) - {''}
        for o, i, lv, v in rows:
            if lv not in levels:
                continue
            if o == 0 and i == 0:
                continue
            if not isinstance(o, int):
                raise Err('bad id')
            if o < 0:
                raise Unspecified
            if i not in st['index']:
                raise Err('no such record')        # at the latest when committing
            if (o, i, lv) in m or not isinstance(v, (int, float)) or not v >= 0 or not math.isfinite(v):
                raise Err('bad mapping')
            m[(o, i, lv)] = (float(v), None)
            n += 1
        if n:
            self._finish_link(st, k)

    def _mrows(self, st, columns, rows, name):
        if tuple(columns[:3]) != ('other_index_id', name, 'index_id') or set(st['cols']) - set(columns) \
                or 'mapping_level' not in columns:
            raise Err('columns')
        for row in rows:
            o, v, i = row[:3]
            d = dict(zip(columns[3:], row[3:]))
            if i not in st['index'] or st['index'][i] != tuple(d[c] for c in st['cols']):
                continue
            yield o, v, i, d['mapping_level']

    def op_insm(self, st, src, name, columns, rows):
        if not rows or not name:
            raise Unspecified
        it = list(self._mrows(st, columns, rows, name))
        k = self._link(st, src, name)
        m, n, levels = st['links'][k]['m'], 0, self._levels(st)
        for o, v, i, lv in it:
            if not lv:
                raise Err('no level') if lv is None else Unspecified
            if lv not in levels:
                continue
            if (o == 0 and i == 0) or not isinstance(o, int) or not isinstance(v, (int, float)) or not v >= 0 or v == math.inf:
                raise Err('bad mapping')
            if (o, i, lv) in m:
                raise Err('duplicate')
            m[(o, i, lv)] = (float(v), None)
            n += 1
        if n:
            self._finish_link(st, k)

    def op_updm(self, st, src, name, columns, rows):
        if not rows or not name:
            raise Unspecified
        it = list(self._mrows(st, columns, rows, name))
        k = self._link(st, src, name)
        l = st['links'][k]
        m, n, u, levels = l['m'], 0, 0, self._levels(st)
        for o, v, i, lv in it:
            if not lv:
                raise Err('no level') if lv is None else Unspecified
            if lv not in levels:
                continue
            if (o == 0 and i == 0) or not isinstance(o, int) or not isinstance(v, (int, float)) or not v >= 0 or v == math.inf:
                raise Err('bad mapping')
            found = [x for x in m if x[0] == o and x[1] == i]
            if len(found) > 1:
                raise Unspecified
            if found:
                p = m.pop(found[0])[1]
                m[(o, i, lv)] = (float(v), p)
                u += 1
            else:
                m[(o, i, lv)] = (float(v), None)
                n += 1
        if n or u:
            old = l['complete'], l['hash']
            self._finish_link(st, k)
            if not n:
                l['complete'], l['hash'] = old

    def op_delm(self, st, src, name, columns, rows):
        if not rows or not name:
            raise Unspecified
        k = self._link(st, src, name)
        if tuple(columns[:3]) != ('other_index_id', name, 'index_id') or set(st['cols']) - set(columns):
            raise Err('columns')
        full = level_hex((1,) * len(st['cols']))
        m, n = st['links'][k]['m'], 0
        for row in rows:
            o, v, i = row[:3]
            d = dict(zip(columns[3:], row[3:]))
            if i not in st['index'] or st['index'][i] != tuple(d[c] for c in st['cols']):
                continue
            if _real(v) is None:
                raise Unspecified
            found = [x for x in m if x[0] == o and x[1] == i]
            if len(found) > 1:
                raise Unspecified
            if found and m[found[0]][0] == _real(v) and found[0][2] == full:
                del m[found[0]]
                n += 1
        if n:
            self._finish_link(st, k)

    def op_delmc(self, st, src, name, crit):
        k = self._link(st, src, name)
        if not crit or set(crit) - set(st['cols']):
            raise Err('criteria')
        m, n = st['links'][k]['m'], 0
        ids = set(self._match(st, crit))
        flags = {j for j, c in enumerate(st['cols']) if c in crit}
        for x in list(m):
            if x[1] in ids and self._bits(x[2]) <= flags:
                del m[x]
                n += 1
        if n:
            self._finish_link(st, k)

    def _bits(self, hx):
        b = bytes.fromhex(hx)
        return {i * 8 + j for i, y in enumerate(b) for j in range(8) if y & (0x80 >> j)}

    def op_reify(self, st, src, name, crit):
        k = self._link(st, src, name)
        if set(crit) - set(st['cols']):
            raise Err('criteria')
        full = level_hex((1,) * len(st['cols']))
        m = st['links'][k]['m']
        ids = set(self._match(st, crit))
        flags = {j for j, c in enumerate(st['cols']) if c in crit}
        for x in list(m):
            if x[2] == full or x[1] not in ids:
                continue
            if crit and not self._bits(x[2]) <= flags:
                continue
            y = (x[0], x[1], full)
            if y in m:
                raise Err('duplicate')
            m[y] = m.pop(x)

    # -- quantities
    def op_insq(self, st, columns, rows, value='value', opts=None):
        opts = opts or {}
        pol = opts.get('on_existing', 'abort')
        if not rows:
            raise Unspecified
        if not st['attrs']:
            raise Err('no attributes')
        attrs = [a for a in st['attrs'] if a in columns]
        if set(st['cols']) - set(columns) or value not in columns:
            raise Err('columns')
        if not st['cols']:
            raise Unspecified
        struct = full_struct(st) if st['parts'] else {}
        for row in rows:
            d = dict(zip(columns, row))
            if 'domain' in d and d['domain'] != st['domain']:
                raise Err('domain')
            ad = {a: d[a] for a in attrs if d[a]}
            lab = tuple(d[c] for c in st['cols'])
            if not ad:
                continue
            if tuple(1 if x else 0 for x in lab) not in struct and not opts.get('allow_invalid_partition'):
                raise Err('partition')
            if any(not isinstance(x, str) for x in lab):
                raise Unspecified
            if any(not isinstance(x, str) for x in ad.values()):
                raise Err('attributes must be text')
            if not self._match(st, {c: x for c, x in zip(st['cols'], lab) if x}) and not opts.get('allow_invalid_label'):
                raise Err('labels')
            key = (lab, json.dumps(ad, sort_keys=True))
            v = d[value]
            if isinstance(v, str):
                v = _real(v)
                num = v is not None
            else:
                num = isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v)
            if key in st['q'] and pol == 'ignore':
                continue                       # nothing of the row is used
            if not num:
                raise Err('not a number')
            if key in st['q']:
                if pol == 'abort':
                    raise Err('existing')
                if pol == 'replace':
                    st['q'][key] = v
                elif pol == 'sum':
                    st['q'][key] += v
                elif pol != 'ignore':
                    raise Err('policy')
            else:
                st['q'][key] = v
            if lab not in st['locs']:
                st['locs'] = sorted(st['locs'] + [lab])
            if key[1] not in st['ags']:
                st['ags'] = sorted(st['ags'] + [key[1]])

    def _unmatched(self, st, need_struct):
        struct = full_struct(st) if st['parts'] else {}
        out = []
        for l in st['locs']:
            ok = bool(self._match(st, {c: x for c, x in zip(st['cols'], l) if x}))
            if need_struct and tuple(1 if x else 0 for x in l) not in struct:
                ok = False
            if not ok:
                out.append(l)
        return out

    def op_delunm(self, st):
        if not st['cols']:
            raise Unspecified
        gone = set(self._unmatched(st, True))
        st['q'] = {k: v for k, v in st['q'].items() if k[0] not in gone}
        st['locs'] = [l for l in st['locs'] if l not in gone]
        used = {k[1] for k in st['q']}
        st['ags'] = [a for a in st['ags'] if a in used]

    def op_delnoidx(self, st):
        if not st['cols']:
            raise Unspecified
        gone = set(self._unmatched(st, False))
        st['q'] = {k: v for k, v in st['q'].items() if k[0] not in gone}
        usedl = {k[0] for k in st['q']}
        st['locs'] = [l for l in st['locs'] if l in usedl]
        used = {k[1] for k in st['q']}
        st['ags'] = [a for a in st['ags'] if a in used]


# --------------------------------------------------------------- executor
def execute(space, op, refs, hook=None):
    """Run one operation on a real space.  *refs*: the source spaces.  *hook*
    wraps the input rows (lazy / raising iterators)."""
    name, a = op[0], op[1:]
    data = hook or (lambda x: x)
    lv = lambda h: bytes.fromhex(h) if isinstance(h, str) else h
    if name == 'addcols':
        space.add_index_columns(*a[0])
    elif name == 'rencol':
        space.rename_label_column(a[0], a[1])
    elif name == 'rencols':
        space.rename_index_columns(a[0])
    elif name == 'legren':
        import toron.dal1
        toron.dal1.legacy_rename_labels(space, a[0])
    elif name == 'chlabel':
        space.change_label_order(a[0], a[1])
    elif name == 'setattrs':
        space.set_registered_attributes(a[0])
    elif name == 'chattr':
        space.change_attribute_order(a[0], a[1])
    elif name == 'dom':
        space.set_domain(a[0])
    elif name == 'addpart':
        space.add_partition_definition(set(a[0]))
    elif name == 'addparts':
        space.add_partition_definitions(*[set(x) for x in a[0]])
    elif name == 'dropparts':
        space.drop_partition_definitions(*[set(x) for x in a[0]])
    elif name == 'insidx':
        kw = {}
        if len(a) > 2 and a[2] is not None:
            kw['weights'] = a[2]
        if len(a) > 3:
            kw['on_label_conflict'] = a[3]
        if len(a) > 4:
            kw['on_weight_conflict'] = a[4]
        space.insert_index(data([tuple(r) for r in a[1]]), list(a[0]), **kw)
    elif name == 'updidx':
        space.update_index(data([tuple(r) for r in a[1]]), list(a[0]), merge_on_conflict=bool(a[2]) if len(a) > 2 else False)
    elif name == 'delidx':
        space.delete_index(data([tuple(r) for r in a[1]]), list(a[0]))
    elif name == 'delidxc':
        space.delete_index(**a[0])
    elif name == 'addwg':
        desc = a[1] if len(a) > 1 else None
        sel = a[2] if len(a) > 2 else None
        space.add_weight_group(a[0], desc, sel, make_default=a[3] if len(a) > 3 else None)
    elif name == 'editwg':
        space.edit_weight_group(a[0], **a[1])
    elif name == 'dropwg':
        space.drop_weight_group(a[0])
    elif name == 'setdefwg':
        space.set_default_weight_group(space.get_weight_group(a[0]))
    elif name == 'insw':
        kw = {}
        if len(a) > 3 and a[3]:
            kw['value_column'] = a[3]
        if len(a) > 4:
            kw['on_conflict'] = a[4]
        space.insert_weights(a[0], data([tuple(r) for r in a[2]]), list(a[1]), **kw)
    elif name == 'updw':
        space.update_weights(a[0], data([tuple(r) for r in a[2]]), list(a[1]))
    elif name == 'delw':
        space.delete_weights(a[0], data([tuple(r) for r in a[2]]), list(a[1]))
    elif name == 'delwc':
        space.delete_weights(a[0], **a[1])
    elif name == 'addlink':
        space.add_link(refs[a[0]], a[1], **a[2])
    elif name == 'editlink':
        space.edit_link(refs[a[0]], a[1], **a[2])
    elif name == 'droplink':
        space.drop_link(refs[a[0]], a[1])
    elif name == 'insm2':
        rows = [(o, i, lv(h), v) for o, i, h, v in a[2]]
        space.insert_mappings2(refs[a[0]], a[1], data(rows), ['other_index_id', 'index_id', 'mapping_level', a[1]])
    elif name in ('insm', 'updm', 'delm'):
        cols, p = list(a[2]), (a[2].index('mapping_level') if 'mapping_level' in a[2] else None)
        rows = [tuple(lv(x) if j == p else x for j, x in enumerate(r)) for r in a[3]]
        f = {'insm': space.insert_mappings, 'updm': space.update_mappings, 'delm': space.delete_mappings}[name]
        f(refs[a[0]], a[1], data(rows), cols)
    elif name == 'delmc':
        space.delete_mappings(refs[a[0]], a[1], **a[2])
    elif name == 'reify':
        space.reify_mappings(refs[a[0]], a[1], **a[2])
    elif name == 'insq':
        kw = dict(a[3]) if len(a) > 3 and a[3] else {}
        space.insert_quantities2(data=data([tuple(r) for r in a[1]]), columns=list(a[0]),
                                 value_column=a[2] if len(a) > 2 else 'value', **kw)
    elif name == 'insq1':
        space.insert_quantities(value=a[2], attributes=a[3], data=data([tuple(r) for r in a[1]]), columns=list(a[0]))
    elif name == 'dropcols':
        space.drop_index_columns(*a[0])
    elif name == 'delunm':
        space.delete_unmatched_quantities()
    elif name == 'delnoidx':
        space.delete_quantities_without_index()
    else:
        raise AssertionError(name)


HASITER = {'insidx', 'updidx', 'delidx', 'insw', 'updw', 'delw', 'insm2', 'insm', 'updm', 'delm', 'insq', 'insq1'}


def compare(exp, got, hashes=None):
    """Differences between a predicted and an observed state.  Fingerprints
    predicted as None (recomputed) are checked separately."""
    e, g = copy.deepcopy(exp), copy.deepcopy(got)
    if e['hash'] is None:
        g['hash'] = None
    for k in e['links']:
        if k in g['links'] and e['links'][k]['hash'] is None:
            g['links'][k]['hash'] = None
    for x in (e, g):
        x['parts'] = sorted(sorted(s) for s in closure(x['parts']))
        if x['disp'] is not None:
            x['disp'] = [c for c in x['disp'] if c in x['cols']] + [c for c in x['cols'] if c not in x['disp']]
        for k in ('locs', 'ags', 'seq'):
            x.pop(k)
    if e['disp'] is None or g['disp'] is None:
        e['disp'] = g['disp'] = (e['disp'] or e['cols']) if (e['disp'] or e['cols']) == (g['disp'] or g['cols']) else e['disp']
    return diff(e, g)
