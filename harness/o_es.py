"""Oracles of the entityset: graph queries, paths, entity invariant, normalisation, comparison, storage."""
import copy
import json
import os
import random
import shutil
import tempfile
import warnings
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools import variable_types as vt
from featuretools.entityset.relationship import RelationshipPath
from featuretools.utils import Trie
from gen import gen, build, T, ordered, lti_model, frame, Ent, VT
from ref import isnull
from common import Fail, note
from o_cfm2 import snap_es, diff_es, cell_eq


# ------------------------------------------------------------------ L04
def lti_got(es, nm):
    s = es[nm].last_time_index
    if s is None:
        return None
    out = {}
    for k, v in zip(s.index, s):
        if k in out:
            raise Fail('last time index of %s repeats %r' % (nm, k))
        out[k] = None if bool(pd.isnull(v)) else v
    return out


def lti_check(m, es, names, info, what):
    want = lti_model(m)
    for nm in names:
        got = lti_got(es, nm)
        e = m.ents[nm]
        if got is None:
            raise Fail('%s: entity %s has no last time index' % (what, nm), **info)
        if set(got) != {r[e.index] for r in e.rows}:
            raise Fail('%s: last time index of %s is for %s' % (what, nm, sorted(map(str, got))), **info)
        for k, v in want[nm].items():
            g = got[k]
            if (v is None) != (g is None) or (v is not None and not (float(g) == v if m.numeric_time else pd.Timestamp(g) == T(v))):
                raise Fail('%s: last time of %r in %s is %s, expected %s' % (what, k, nm, g, v if m.numeric_time else T(v)), **info)


def case_lti(rng, cfg):
    m = gen(rng, lti_p=0, n_ent=rng.choice([2, 3, 4, 5]), dup_rel_p=0.3)
    for e in m.ents.values():
        if e.ti and not m.numeric_time and rng.random() < 0.15 and not e.sec:
            for r in e.rows[1:]:
                if rng.random() < 0.25:
                    r[e.ti] = None
    order = list(m.names)
    rng.shuffle(order)
    es = build(m, order=order)
    info = {'model': m.describe(), 'order': order}
    note(**info)
    before = snap_es(es)
    es.add_last_time_indexes()
    after = snap_es(es)
    for d in (before[0], after[0]):
        for k in d:
            d[k] = d[k][:5] + (None,) + d[k][6:]
    diff_es(before, after, info, 'computing last time indexes')
    lti_check(m, es, m.names, info, 'all entities')
    # change some data, then recompute only there
    nm = rng.choice(m.names)
    e = m.ents[nm]
    if e.ti and len(e.rows) > 0:
        for r in e.rows:
            if rng.random() < 0.4:
                r[e.ti] = rng.randint(0, 12)
                for s in e.sec:
                    r[s] = max(r[s], r[e.ti])
        how = rng.random()
        info['updated'] = nm
        info['model'] = m.describe()
        if how < 0.5:
            es[nm].update_data(frame(m, e), recalculate_last_time_indexes=False)
            es.add_last_time_indexes(updated_entities=[nm])
        else:
            es[nm].update_data(frame(m, e))
        lti_check(m, es, m.names, info, 'after updating %s' % nm)
    # a subset computed from scratch
    es2 = build(m, order=order)
    sub = [n for n in m.names if rng.random() < 0.5] or [nm]
    info['subset'] = sub
    arg = list(sub)
    es2.add_last_time_indexes(updated_entities=arg)
    if arg != sub:
        raise Fail('the list of updated entities was changed', **info)
    anc, todo = set(), list(sub)
    while todo:
        x = todo.pop()
        if x not in anc:
            anc.add(x)
            todo += [r[0] for r in m.parents(x)]
    lti_check(m, es2, anc, info, 'updated entities %s' % sub)
    return '%s|%s|%s' % (m.rels, nm, sub) if m.rels else None


# ------------------------------------------------------------------ G01
def graph(rng, cyclic):
    n = rng.randint(1, 5)
    names = ['N%d' % i for i in range(n)]
    es = ft.EntitySet('g')
    k = rng.randint(0, 7)
    edges = []
    for _ in range(k):
        a, b = rng.randrange(n), rng.randrange(n)
        if not cyclic and a == b:
            continue
        if not cyclic and a > b:
            a, b = b, a
        edges.append((names[a], names[b], 'k%d' % len(edges)))   # parent, child, child column
    for nm in names:
        d = {'id': [1, 2]}
        for p, c, col in edges:
            if c == nm:
                d[col] = [1, 2]
        es.entity_from_dataframe(nm, pd.DataFrame(d), index='id')
    for p, c, col in edges:
        es.add_relationship(ft.Relationship(es[p]['id'], es[c][col]))
    return es, names, edges


def case_graph(rng, cfg):
    cyclic = rng.random() < 0.4
    es, names, edges = graph(rng, cyclic)
    info = {'entities': names, 'relationships (parent, child, column)': edges}
    note(**info)

    def key(r):
        d = r.to_dictionary()
        return (d['parent_entity_id'], d['child_entity_id'], d['child_variable_id'])
    for a in names:
        f = [key(r) for r in es.get_forward_relationships(a)]
        if sorted(f) != sorted(x for x in edges if x[1] == a):
            raise Fail('forward relationships of %s: %s' % (a, f), **info)
        f = [key(r) for r in es.get_backward_relationships(a)]
        if sorted(f) != sorted(x for x in edges if x[0] == a):
            raise Fail('backward relationships of %s: %s' % (a, f), **info)
    # all simple forward paths
    memo = {}

    def paths(a, b, seen):
        if a == b:
            return [[]]
        out = []
        for e in edges:
            if e[1] == a and e[0] not in seen:
                out += [[e] + p for p in paths(e[0], b, seen | {e[0]})]
        return out
    for a in names:
        for b in names:
            want = paths(a, b, {a})
            got = [[key(r) for r in p] for p in es.find_forward_paths(a, b)]
            if sorted(got) != sorted(want):
                raise Fail('forward paths %s to %s: %s, expected %s' % (a, b, got, want), **info)
            back = [[key(r) for r in p] for p in es.find_backward_paths(b, a)]
            if sorted(back) != sorted(p[::-1] for p in want):
                raise Fail('backward paths %s to %s: %s' % (b, a, back), **info)
            try:
                u = es.has_unique_forward_path(a, b)
                if not want or bool(u) != (len(want) == 1):
                    raise Fail('unique path %s to %s is %s with %d paths' % (a, b, u, len(want)), **info)
            except StopIteration:
                if want:
                    raise Fail('path %s to %s not found' % (a, b), **info)
    for a in names:
        for deep in ([False] if cyclic else [False, True]):
            for fwd in (True, False):
                def walk(x):
                    out = []
                    for e in edges:
                        y = (e[0] if e[1] == x else None) if fwd else (e[1] if e[0] == x else None)
                        if y is None:
                            continue
                        out.append((y, [e]))
                        if deep:
                            out += [(z, [e] + p) for z, p in walk(y)]
                    return out
                want = walk(a)
                fn = es.get_forward_entities if fwd else es.get_backward_entities
                got = []
                for b, p in fn(a, deep=deep):
                    if [x for x, _ in p] != [fwd] * len(p):
                        raise Fail('direction of %s' % p, **info)
                    ents = list(p.entities())
                    if ents[0] != a or ents[-1] != b or len(ents) != len(p) + 1:
                        raise Fail('path %s is listed for %s to %s' % (ents, a, b), **info)
                    got.append((b, [key(r) for _, r in p]))
                if sorted(got) != sorted(want):
                    raise Fail('%s entities of %s (deep=%s): %s, expected %s' % ('forward' if fwd else 'backward', a, deep, got, want), **info)
    return str(edges) if edges else None


# ------------------------------------------------------------------ G02
def case_trie(rng, cfg):
    mode = rng.choice(['list', 'tuple', 'str', 'RelationshipPath'])
    n = [0]
    if rng.random() < 0.5:
        default = lambda: []
    else:
        def default():
            n[0] += 1
            return ['d', n[0]]
    cons = {'list': list, 'tuple': tuple, 'str': lambda l: ''.join(l), 'RelationshipPath': RelationshipPath}[mode]
    t = Trie(default=default, path_constructor=cons)
    alpha = ['a', 'b', 'c'] if mode != 'RelationshipPath' else [(True, 'a'), (False, 'a'), (True, 'b')]
    model = {(): ('def',)}
    log = []
    info = {'mode': mode, 'operations': log}
    note(**info)
    objs = []

    def mk(p):
        return cons(list(p)) if rng.random() < 0.7 or mode == 'RelationshipPath' else list(p)
    for step in range(rng.randint(1, 14)):
        p = tuple(rng.choice(alpha) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
        k = rng.randrange(len(p) + 1)
        split = rng.random() < 0.5
        node = t.get_node(mk(p[:k])).get_node(mk(p[k:])) if split else t.get_node(mk(p))
        for i in range(len(p) + 1):
            model.setdefault(p[:i], ('def',))
        if t.get_node(mk(p)) is not node:
            raise Fail('two lookups of %s reach different nodes' % (p,), **info)
        v = node.value
        if model[p] == ('def',):
            if not (v == [] or v[:1] == ['d']):
                raise Fail('value %r at %s which was never set' % (v, p), **info)
        elif v != model[p][1]:
            raise Fail('value at %s is %r, not %r' % (p, v, model[p][1]), **info)
        u = rng.random()
        if u < 0.6:
            x = ['set', step]
            node.value = x
            model[p] = ('set', x)
            log.append(('set', p, x))
        elif u < 0.75:
            node.value.append('touched')
            x = list(node.value)
            model[p] = ('set', x)
            log.append(('append', p))
        else:
            log.append(('get', p))
    for base in [()] + rng.sample(sorted(model, key=str), min(3, len(model))):
        sub = t.get_node(mk(base))
        want = {q[len(base):]: v for q, v in model.items() if q[:len(base)] == base}
        seen, order = {}, []
        for path, value in sub:
            q = tuple(path)
            if type(path) is not type(cons([])):
                raise Fail('iteration gives a path of type %s' % type(path), **info)
            if q in seen:
                raise Fail('iteration repeats %s' % (q,), **info)
            seen[q] = value
            order.append(q)
        if set(seen) != set(want):
            raise Fail('iteration from %s gives paths %s, expected %s' % (base, sorted(seen, key=str), sorted(want, key=str)), **info)
        for q, v in want.items():
            if v != ('def',) and seen[q] != v[1]:
                raise Fail('iteration gives %r at %s, not %r' % (seen[q], q, v[1]), **info)
            if v == ('def',) and not (seen[q] == [] or seen[q][:1] == ['d']):
                raise Fail('iteration gives %r at %s, never set' % (seen[q], q), **info)
            if q and order.index(q[:-1]) > order.index(q):
                raise Fail('%s comes before its parent' % (q,), **info)
        kids = sub.children()
        if sorted(map(str, [k for k, _ in kids])) != sorted(map(str, {q[0] for q in want if q})):
            raise Fail('children of %s: %s' % (base, kids), **info)
        for k, c in kids:
            if sub.get_node(mk((k,))) is not c:
                raise Fail('child %s is not the node found by its path' % (k,), **info)
    ids = [id(v) for _, v in t]
    if len(set(ids)) != len(ids):
        raise Fail('two paths share one value', **info)
    return str(log)


# ------------------------------------------------------------------ G03
def case_rel(rng, cfg):
    m = gen(rng, n_ent=rng.choice([2, 3, 4]), dup_rel_p=0.5, maxrows=2)
    es = build(m)
    es2 = build(m)
    info = {'relationships': m.rels}
    note(**info)
    rs = es.relationships
    if not rs:
        return None
    r2 = es2.relationships
    for i, a in enumerate(rs):
        d = a.to_dictionary()
        b = ft.Relationship.from_dictionary(json.loads(json.dumps(d)), es)
        if not (a == b) or hash(a) != hash(b) or b.to_dictionary() != d:
            raise Fail('relationship %s changed in a round trip' % a, **info)
        if (d['parent_entity_id'], d['parent_variable_id'], d['child_entity_id'], d['child_variable_id']) != m.rels[i]:
            raise Fail('dictionary %s of relationship %s' % (d, m.rels[i]), **info)
        for j, c in enumerate(rs):
            if (a == c) != (i == j) or (a != c) != (i != j):
                raise Fail('equality of %s and %s is %s' % (a, c, a == c), **info)
        if not a == r2[i] or hash(a) != hash(r2[i]):
            raise Fail('equal relationships of two entitysets differ', **info)
        if a == str(a) or a == 1:
            raise Fail('a relationship equals something else', **info)
        for k in d:
            # change one component: no longer equal
            x = copy.copy(a)
            setattr(x, '_' + k if hasattr(a, '_' + k) else k, 'other')
            if hasattr(a, '_' + k) and (x == a or a == x):
                raise Fail('relationships that differ in %s are equal' % k, **info)
        same = [q for q in m.rels if (q[0], q[2]) == (m.rels[i][0], m.rels[i][2])]
        if a.parent_entity.id != m.rels[i][0] or a.child_entity.id != m.rels[i][2] or a.parent_variable.id != m.rels[i][1] \
                or a.child_variable.id != m.rels[i][3]:
            raise Fail('ends of %s are wrong' % a, **info)
        if len(same) == 1 and (a.parent_name != m.rels[i][0] or a.child_name != m.rels[i][2]):
            raise Fail('names %s/%s of a single relationship' % (a.parent_name, a.child_name), **info)
        for j, c in enumerate(rs):
            if j == i:
                continue
            if (m.rels[i][0], m.rels[i][2]) == (m.rels[j][0], m.rels[j][2]) and (a.parent_name == c.parent_name or a.child_name == c.child_name):
                raise Fail('relationships %s and %s share a name' % (a, c), **info)

    def rpath():
        out = []
        x = rng.choice(m.names)
        for _ in range(rng.randint(0, 4)):
            opts = [(True, r) for r in rs if r.child_entity.id == x] + [(False, r) for r in rs if r.parent_entity.id == x]
            if not opts:
                break
            f, r = rng.choice(opts)
            out.append((f, r))
            x = r.parent_entity.id if f else r.child_entity.id
        return out
    for _ in range(4):
        a, b = rpath(), rpath()
        A, B = RelationshipPath(list(a)), RelationshipPath(list(b))
        C = A + B
        if [x for x in C] != a + b or len(C) != len(a) + len(b):
            raise Fail('%s + %s is %s' % (A, B, C), **info)
        if list(A) != a or list(B) != b:
            raise Fail('adding paths changed them', **info)
        if (A == B) != (a == b) or (A != B) != (a != b):
            raise Fail('equality of %s and %s' % (A, B), **info)
        if A == a or (not a and A == []):
            raise Fail('a path equals a list', **info)
        names = [r.parent_name if f else r.child_name for f, r in a]
        if A.name != '.'.join(names):
            raise Fail('name %s of path %s' % (A.name, A), **info)
        if C.name != '.'.join([x for x in (A.name, B.name) if x]):
            raise Fail('name %s of %s + %s' % (C.name, A, B), **info)
        ents = list(A.entities())
        want = []
        if a:
            want = [a[0][1].child_entity.id if a[0][0] else a[0][1].parent_entity.id]
            want += [r.parent_entity.id if f else r.child_entity.id for f, r in a]
        if ents != want:
            raise Fail('entities %s of path %s, expected %s' % (ents, A, want), **info)
        for i in range(len(a)):
            if A[i] != a[i] or A[i:] != a[i:]:
                raise Fail('indexing %s' % A, **info)
    return str(m.rels)


# ------------------------------------------------------------------ E01
def inv(e, info, what, sorted_=True, first=True):
    df = e.df
    vids = [v.id for v in e.variables]
    if list(df.columns) != vids or len(set(vids)) != len(vids):
        raise Fail('%s: variables %s, columns %s' % (what, vids, list(df.columns)), **info)
    if e.index not in vids or (first and vids[0] != e.index):
        raise Fail('%s: index %s is not the first of %s' % (what, e.index, vids), **info)
    if not isinstance(e[e.index], vt.Index):
        raise Fail('%s: index variable is a %s' % (what, type(e[e.index]).__name__), **info)
    if not df[e.index].is_unique or list(df.index) != list(df[e.index]):
        raise Fail('%s: index column %s, row labels %s' % (what, list(df[e.index]), list(df.index)), **info)
    for v in e.variables:
        if v.entity is not e or v.entity_id != e.id:
            raise Fail('%s: variable %s belongs to another entity' % (what, v.id), **info)
    if e.time_index and sorted_:
        ks = [(isnull(t), 0 if isnull(t) else t) for t in df[e.time_index]]
        ks = [(a, b, i) for (a, b), i in zip(ks, df[e.index])]
        if ks != sorted(ks):
            raise Fail('%s: rows are not sorted by %s, %s: %s' % (what, e.time_index, e.index, list(zip(df[e.time_index], df[e.index]))), **info)
    if e.time_index and not isinstance(e[e.time_index], (vt.DatetimeTimeIndex, vt.NumericTimeIndex)):
        raise Fail('%s: time index is a %s' % (what, type(e[e.time_index]).__name__), **info)
    for k, cols in (e.secondary_time_index or {}).items():
        if k not in cols or k not in vids:
            raise Fail('%s: secondary time index %s with columns %s' % (what, k, cols), **info)


def rows_of(df, cols, idx):
    return {k: tuple(None if isnull(v) else v for v in r) for k, r in zip(df[idx], df[cols].itertuples(index=False, name=None))}


def case_entity(rng, cfg):
    m = gen(rng, n_ent=1, lti_p=0, sec_p=0.4, numeric_time=rng.random() < 0.3)
    e = m.ents[m.names[0]]
    df = frame(m, e)
    if rng.random() < 0.5:
        df.index = rng.sample(range(100), len(df))
    cols = list(df.columns)
    rng.shuffle(cols)
    df = df[cols]
    types = {c: VT[k] for c, k in e.cols.items() if k in VT}
    for c, k in e.cols.items():
        if k == 'stime':
            types[c] = vt.NumericTimeIndex if m.numeric_time else vt.Datetime
    mode = rng.choice(['plain', 'plain', 'plain', 'make', 'absent', 'first', 'bad'])
    already = rng.random() < 0.15
    idx = e.index
    kw = dict(index=idx, time_index=e.ti, secondary_time_index={k: list(v) for k, v in e.sec.items()} or None, variable_types=types,
              already_sorted=already)
    info = {'model': m.describe(), 'mode': mode, 'columns': cols, 'labels': list(df.index), 'already_sorted': already}
    note(**info)
    es = ft.EntitySet('e')
    if mode == 'bad':
        which = rng.choice(['dupcol', 'ti', 'dupid', 'make', 'notstr', 'idnotstr', 'same', 'dti'])
        info['bad'] = which
        d, k = df.copy(), dict(kw, secondary_time_index=None)
        name = 'X'
        if which == 'dupcol':
            if len(cols) < 3:
                return None
            d = pd.concat([d, d[['x']]], axis=1)
        elif which == 'ti':
            k['time_index'] = 'nope'
        elif which == 'dupid':
            if len(d) < 2:
                return None
            d.loc[d.index[0], idx] = d[idx].iloc[1]
        elif which == 'make':
            k['make_index'] = True
        elif which == 'notstr':
            d[7] = 1
        elif which == 'idnotstr':
            name = 5
        elif which == 'same':
            k['time_index'] = idx
        elif which == 'dti':
            if m.numeric_time or 'd' not in d or e.ti == 'd':
                return None
            k['time_index'] = None
            k['variable_types'] = dict(types, d=vt.DatetimeTimeIndex)
        try:
            es.entity_from_dataframe(name, d, **k)
        except Exception:
            if es.entities:
                raise Fail('refused entity was added (%s)' % which, **info)
            return 'bad|%s|%s' % (which, cols)
        raise Fail('invalid request accepted: %s' % which, **info)
    d = df.copy()
    if mode in ('make', 'absent'):
        idx = 'new_index'
        kw['index'] = idx
        if mode == 'make':
            kw['make_index'] = True
    elif mode == 'first':
        kw['index'] = None
        d = d[[e.index] + [c for c in cols if c != e.index]]
    es.entity_from_dataframe('X', d, **kw)
    X = es['X']
    if X.index != idx or X.time_index != e.ti:
        raise Fail('index %s time index %s' % (X.index, X.time_index), **info)
    inv(X, info, 'after creation', sorted_=not already)
    use = [c for c in cols]
    if set(X.df.columns) != set(use + [idx]):
        raise Fail('columns %s' % list(X.df.columns), **info)
    if rows_of(X.df, use, e.index) != rows_of(df, use, e.index):
        raise Fail('creation changed the data: %s' % X.df.to_dict(), **info)
    if already and list(X.df[e.index]) != list(df[e.index]):
        raise Fail('rows declared sorted were reordered', **info)
    if mode in ('make', 'absent') and not (X.df[idx].dtype.kind == 'i' and X.df[idx].is_unique):
        raise Fail('created index %s' % list(X.df[idx]), **info)
    log = info['operations'] = []
    cur = X.df.copy()
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(['update', 'update', 'bad_update', 'delete', 'set_index', 'time_index', 'convert'])
        vids = [v.id for v in X.variables]
        gov = set(c for k, l in (X.secondary_time_index or {}).items() for c in [k] + l)
        if op == 'update':
            new = cur.sample(frac=1, random_state=rng.randint(0, 99)) if len(cur) else cur.copy()
            if len(new) > 2 and rng.random() < 0.5:
                new = new.iloc[:-1]
            new = new.copy()
            if X.time_index and rng.random() < 0.5 and len(new):
                new[X.time_index] = [T(rng.randint(0, 9), m.numeric_time) for _ in range(len(new))]
            if rng.random() < 0.5:
                c2 = list(new.columns)
                rng.shuffle(c2)
                new = new[c2]
            if rng.random() < 0.5:
                new = new.reset_index(drop=True)
            srt = rng.random() < 0.2
            log.append(('update', list(new[X.index]), srt))
            X.update_data(new.copy(), already_sorted=srt)
            inv(X, info, 'after update', sorted_=not srt)
            if rows_of(X.df, vids, X.index) != rows_of(new, vids, X.index):
                raise Fail('update changed the data', **info)
            if srt and list(X.df[X.index]) != list(new[X.index]):
                raise Fail('rows declared sorted were reordered', **info)
        elif op == 'bad_update':
            bad = cur.copy()
            how = rng.choice(['extra', 'missing', 'renamed', 'dup'])
            if how == 'extra':
                bad['zz'] = 1
            elif how == 'missing':
                bad = bad.drop(columns=[c for c in vids if c != X.index][:1])
            elif how == 'renamed':
                bad = bad.rename(columns={vids[-1]: 'zz'})
            else:
                if len(bad) < 2:
                    continue
                bad = pd.concat([bad, bad.iloc[:1]])
            if how == 'missing' and len(bad.columns) == len(vids):
                continue
            log.append(('bad_update', how))
            try:
                es_copy = copy.deepcopy(es)
                es_copy['X'].update_data(bad)
            except Exception:
                continue
            raise Fail('update with %s columns or rows accepted' % how, **info)
        elif op == 'delete':
            cand = [c for c in vids if c not in (X.index, X.time_index) and c not in gov]
            if not cand:
                continue
            rm = rng.sample(cand, rng.randint(1, len(cand)))
            log.append(('delete', rm))
            rest = rows_of(X.df, [c for c in vids if c not in rm], X.index)
            order = list(X.df[X.index])
            X.delete_variables(rm)
            left = [c for c in vids if c not in rm]
            if [v.id for v in X.variables] != left:
                raise Fail('variables %s left after deleting %s' % ([v.id for v in X.variables], rm), **info)
            inv(X, info, 'after deleting', sorted_=False)
            if rows_of(X.df, left, X.index) != rest or order != list(X.df[X.index]):
                raise Fail('deleting variables changed other data', **info)
        elif op == 'set_index':
            X.set_index(X.index)
            log.append(('set_index', X.index))
            inv(X, info, 'after set_index', sorted_=False)
        elif op == 'time_index' and X.time_index:
            log.append(('set_time_index', X.time_index))
            X.set_time_index(X.time_index)
            inv(X, info, 'after set_time_index')
        elif op == 'convert':
            c = [v for v in vids if v == 'c']
            if not c:
                continue
            log.append(('convert', 'c'))
            X.convert_variable_type('c', rng.choice([vt.Ordinal, vt.Categorical, vt.Id]), convert_data=False)
            inv(X, info, 'after converting', sorted_=False)
        cur = X.df.copy()
    return '%s|%s|%s' % (mode, cols, log)


# ------------------------------------------------------------------ E02
def case_addrel(rng, cfg):
    m = gen(rng, n_ent=rng.choice([2, 3, 4]), dup_rel_p=0.4, lti_p=0.2)
    order = list(m.rels)
    rng.shuffle(order)
    rels = order + [rng.choice(order) for _ in range(rng.randint(0, 3))] if order else []
    rng.shuffle(rels)
    es = build(m, rels=False)
    info = {'model': m.describe(), 'additions': rels}
    note(**info)
    before = {n: es[n].df.copy() for n in m.names}

    def state():
        return [(r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for r in es.relationships]
    want = []

    def data(what):
        for n in m.names:
            b, a = before[n], es[n].df
            if list(b.columns) != list(a.columns) or list(b.index) != list(a.index):
                raise Fail('%s changed the shape of %s' % (what, n), **info)
            for c in b:
                if not all(cell_eq(x, y) for x, y in zip(b[c], a[c])):
                    raise Fail('%s changed column %s of %s' % (what, c, n), **info)
    i = 0
    while i < len(rels):
        batch = rng.choice([1, 1, 2])
        todo = rels[i:i + batch]
        i += batch
        objs = [ft.Relationship(es[p][pc], es[c][cc]) for p, pc, c, cc in todo]
        if batch == 1:
            es.add_relationship(objs[0])
        else:
            es.add_relationships(objs)
        for r in todo:
            if r not in want:
                want.append(r)
        if state() != want:
            raise Fail('after adding %s the relationships are %s, expected %s' % (todo, state(), want), **info)
        for p, pc, c, cc in want:
            if not isinstance(es[c][cc], vt.Id):
                raise Fail('child column %s.%s is a %s' % (c, cc, type(es[c][cc]).__name__), **info)
            if not isinstance(es[p][pc], vt.Index):
                raise Fail('parent column %s.%s is a %s' % (p, pc, type(es[p][pc]).__name__), **info)
        data('adding a relationship')
        # refused additions
        u = rng.choice(['dtype', 'childindex', 'parent', 'other'])
        p = rng.choice(m.names)
        c = rng.choice(m.names)
        try:
            if u == 'dtype':
                cols = [x for x in es[c].df.columns if es[c].df[x].dtype != es[p].df[es[p].index].dtype and x != es[c].index]
                if not cols or not len(es[c].df):
                    continue
                bad = (p, es[p].index, c, rng.choice(cols))
                r = ft.Relationship(es[bad[0]][bad[1]], es[bad[2]][bad[3]])
                es.add_relationship(r)
            elif u == 'childindex':
                if p == c:
                    continue
                bad = (p, es[p].index, c, es[c].index)
                r = ft.Relationship(es[bad[0]][bad[1]], es[bad[2]][bad[3]])
                es.add_relationship(r)
            else:
                cols = [x for x in es[p].df.columns if x != es[p].index]
                bad = (p, rng.choice(cols), c, es[c].df.columns[-1])
                r = ft.Relationship(es[bad[0]][bad[1]], es[bad[2]][bad[3]])
                es.add_relationship(r)
        except (ValueError, AttributeError):
            if state() != want:
                raise Fail('refused relationship %s changed the relationships' % (bad,), **info)
            data('a refused relationship')
        else:
            raise Fail('relationship %s accepted' % (bad,), **info)
    return str(rels) if rels else None


# ------------------------------------------------------------------ E03
def case_normalize(rng, cfg):
    m = gen(rng, n_ent=1, lti_p=0, sec_p=0, min_rows=1, maxrows=10)
    e = m.ents[m.names[0]]
    es = build(m)
    B = es[e.name]
    if rng.random() < 0.3 and B.time_index is None:
        B.update_data(B.df.sample(frac=1, random_state=rng.randint(0, 99)))
    keys = [c for c, k in e.cols.items() if k in ('cat', 'num', 'bool') and not B.df[c].isnull().all()]
    if not keys:
        return None
    key = rng.choice(keys)
    others = [c for c in e.cols if c not in (key, e.index)]
    rng.shuffle(others)
    k1 = rng.randint(0, len(others))
    add = [c for c in others[:k1] if c != e.ti and rng.random() < 0.6]
    cp = [c for c in others if c not in add and c != e.ti and rng.random() < 0.4]
    if e.ti and rng.random() < 0.2:
        cp.append(e.ti)
        add_ti_copy = True
    else:
        add_ti_copy = False
    kw = {}
    ti = 'auto'
    if e.ti and not add_ti_copy:
        ti = rng.choice(['auto', True, False, 'named'])
    elif not e.ti:
        ti = rng.choice(['auto', False])
    if add_ti_copy:
        ti = rng.choice([False, 'column'])
    times = [c for c in add + cp if c != e.ti and B.df[c].dtype.kind == 'M']
    tcol = e.ti
    if times and rng.random() < .5:
        ti, tcol = 'column', rng.choice(times)
    if ti == 'column':
        kw['make_time_index'] = tcol
    elif ti in (True, False):
        kw['make_time_index'] = ti
    elif ti == 'named':
        kw['make_time_index'] = True
        kw['new_entity_time_index'] = 'first_seen'
    sec = None
    if e.ti and ti in ('auto', True, 'named') and rng.random() < 0.4:
        sc = [c for c in others if c not in add and c not in cp and c != e.ti]
        sec = [c for c in sc if rng.random() < 0.5]
        kw['make_secondary_time_index'] = {e.ti: list(sec)}
        if rng.random() < 0.7:
            kw['new_entity_secondary_time_index'] = 'last_seen'
    df0 = B.df.copy()
    info = {'model': m.describe(), 'key': key, 'additional': add, 'copied': cp, 'kwargs': str(kw), 'order': list(df0[e.index])}
    note(**info)
    arg_add, arg_cp = list(add), list(cp)
    es.normalize_entity(e.name, 'N', key, additional_variables=arg_add or None, copy_variables=arg_cp or None, **kw)
    if arg_add != add or arg_cp != cp:
        raise Fail('normalize_entity changed its arguments: %s %s' % (arg_add, arg_cp), **info)
    B, N = es[e.name], es['N']
    left = [c for c in df0.columns if c not in add]
    if list(B.df.columns) != left or [v.id for v in B.variables] != left:
        raise Fail('base entity has columns %s, expected %s' % (list(B.df.columns), left), **info)
    if list(B.df[e.index]) != list(df0[e.index]):
        raise Fail('rows of the base entity changed', **info)
    for c in left:
        if not all(cell_eq(x, y) for x, y in zip(B.df[c], df0[c])):
            raise Fail('column %s of the base entity changed' % c, **info)
    first, last, order = {}, {}, []
    for _, r in df0.iterrows():
        k = None if isnull(r[key]) else r[key]
        if k not in first:
            first[k] = r
            order.append(k)
        last[k] = r
    ids = [None if isnull(v) else v for v in N.df[key]]
    if len(ids) != len(set(ids)) or set(ids) != set(first):
        raise Fail('new entity has ids %s, expected %s' % (ids, order), **info)
    inv(N, info, 'new entity', sorted_=False) if None not in ids else None
    want = [key] + add + cp
    tname = None
    if e.ti and ti in ('auto', True, 'named'):
        tname = 'first_seen' if ti == 'named' else 'first_%s_time' % e.name
        want.append(tname)
    elif ti == 'column':
        tname = tcol
    if N.time_index != tname:
        raise Fail('time index of the new entity is %s, expected %s' % (N.time_index, tname), **info)
    if tname:
        ts = [(isnull(t), 0 if isnull(t) else t) for t in N.df[tname]]
        if ts != sorted(ts):
            raise Fail('rows of the new entity are not sorted by %s: %s' % (tname, list(N.df[tname])), **info)
    sname = None
    if sec is not None:
        sname = kw.get('new_entity_secondary_time_index', e.ti)
        want += [sname] + sec
        if dict(N.secondary_time_index) and list(N.secondary_time_index) != [sname]:
            raise Fail('secondary time index %s' % N.secondary_time_index, **info)
        if set(N.secondary_time_index.get(sname, [])) != set(sec + [sname]):
            raise Fail('secondary time index %s, expected %s: %s' % (N.secondary_time_index, sname, sec), **info)
    elif N.secondary_time_index:
        raise Fail('unexpected secondary time index', **info)
    if set(N.df.columns) != set(want) or len(N.df.columns) != len(want):
        raise Fail('new entity has columns %s, expected %s' % (list(N.df.columns), want), **info)
    for _, r in N.df.iterrows():
        k = None if isnull(r[key]) else r[key]
        for c in add + cp:
            if not cell_eq(r[c], first[k][c]):
                raise Fail('column %s of %r is %r, first row has %r' % (c, k, r[c], first[k][c]), **info)
        if tname and not cell_eq(r[tname], first[k][tcol if ti == 'column' else e.ti]):
            raise Fail('time of %r is %r, first row has %r' % (k, r[tname], first[k][e.ti]), **info)
        if sec is not None:
            for c, s in [(sname, e.ti)] + [(c, c) for c in sec]:
                if not cell_eq(r[c], last[k][s]):
                    raise Fail('secondary column %s of %r is %r, last row has %r' % (c, k, r[c], last[k][s]), **info)
    rel = es.relationships
    if len(rel) != 1 or (rel[0].parent_entity.id, rel[0].parent_variable.id, rel[0].child_entity.id, rel[0].child_variable.id) != ('N', key, e.name, key):
        raise Fail('relationships %s' % rel, **info)
    if not isinstance(B[key], vt.Id) or not isinstance(N[key], vt.Index):
        raise Fail('key variable types %s %s' % (type(B[key]), type(N[key])), **info)
    return '%s|%s|%s|%s' % (key, add, cp, kw)


# ------------------------------------------------------------------ E04
def es_equal_spec(m1, m2):
    pass


def case_equal(rng, cfg):
    m = gen(rng, n_ent=rng.choice([1, 2, 3]), numeric_time=False, empty_p=0.12)
    es1 = build(m)
    m2 = copy.deepcopy(m)
    es2 = build(m2, order=rng.sample(m.names, len(m.names)))
    info = {'model': m.describe()}
    note(**info)

    def check(a, b, deep, want, what):
        x, y = a.__eq__(b, deep=deep), b.__eq__(a, deep=deep)
        if x != want or y != want or (isinstance(a, ft.EntitySet) and a.__ne__(b, deep=deep) == want):
            raise Fail('%s: comparison (deep=%s) gives %s and %s, expected %s' % (what, deep, x, y, want), **info)
    for a in (es1, es2):
        for d in (False, True):
            check(a, a, d, True, 'same entityset')
    for d in (False, True):
        check(es1, es2, d, True, 'equal entitysets')
    for n in m.names:
        for d in (False, True):
            check(es1[n], es2[n], d, True, 'equal entities')
    kind = rng.choice(['cell', 'cell', 'cell', 'null', 'drop', 'rel', 'type', 'entity', 'time', 'lti', 'column'])
    n = rng.choice(m2.names)
    e = m2.ents[n]
    info['change'] = (kind, n)
    deep_only = True
    if kind in ('cell', 'null'):
        cs = [c for c, k in e.cols.items() if k in ('num', 'cat', 'bool', 'dt', 'fk')]
        if not e.rows or not cs:
            return None
        c = rng.choice(cs)
        r = rng.choice(e.rows)
        old = r[c]
        k = e.cols[c]
        if kind == 'null':
            if k in ('bool', 'fk') or old is None:
                return None
            r[c] = None
        else:
            pool = {'num': [-9, 3.25, 4], 'cat': ['q', 'u', 'v'], 'bool': [not old], 'dt': [7, 9999]}.get(k)
            if k == 'fk':
                p = [x for x in m2.rels if x[2] == n and x[3] == c][0]
                pool = [x[p[1]] for x in m2.ents[p[0]].rows] + [x[c] for x in e.rows if x[c] is not None]
            pool = [x for x in pool if x != old]
            if not pool:
                return None
            r[c] = rng.choice(pool)
        info['cell'] = (r[e.index], c, old, r[c])
    elif kind == 'drop':
        if not e.rows or (len(e.rows) == 1):
            return None
        e.rows.pop(rng.randrange(len(e.rows)))
    elif kind == 'time':
        if not e.ti or not e.rows:
            return None
        r = rng.choice(e.rows)
        r[e.ti] += 20
        if e.sec:
            r['s'] += 20
    elif kind == 'rel':
        if not m2.rels:
            return None
        deep_only = False
    elif kind == 'entity':
        x = Ent('Z')
        x.cols[x.index] = 'id'
        x.rows = [{x.index: 1}]
        m2.ents['Z'] = x
        m2.kinds['Z'] = False
        m2.names.append('Z')
        deep_only = False
    elif kind == 'column':
        e.cols['extra'] = 'num'
        for r in e.rows:
            r['extra'] = 1
        deep_only = False
    elif kind == 'lti':
        m2.lti = not m2.lti
    m2.kinds = dict(m2.kinds)
    es2 = build(m2)
    if kind == 'type':
        es2[n].convert_variable_type('x', vt.Unknown, convert_data=False)
        deep_only = False
    if kind == 'rel':
        # the child column keeps its type: only the relationship differs
        es2 = build(m)
        es2.relationships.pop()
    check(es1, es2, True, False, 'different entitysets (%s)' % kind)
    check(es1, es2, False, deep_only, 'different entitysets (%s)' % kind)
    return '%s|%s|%s' % (kind, n, m.rels)


def case_concat(rng, cfg):
    m = gen(rng, n_ent=rng.choice([1, 2, 3]), empty_p=0.1, sec_p=0.2)
    m1, m2 = copy.deepcopy(m), copy.deepcopy(m)
    for e in m1.ents.values():
        e.rows = [r for r in e.rows if rng.random() < 0.7]
    for e in m2.ents.values():
        e.rows = [r for r in e.rows if rng.random() < 0.7]
    if any(len(e.rows) and not len(m2.ents[e.name].rows) or len(m2.ents[e.name].rows) and not len(e.rows) for e in m1.ents.values()) and rng.random() < 0.8:
        return None
    m2.lti = m1.lti
    es1, es2 = build(m1), build(m2)
    inplace = rng.random() < 0.3
    info = {'first': m1.describe(), 'second': m2.describe(), 'inplace': inplace}
    note(**info)
    s1, s2 = snap_es(es1), snap_es(es2)
    out = es1.concat(es2, inplace=inplace)
    diff_es(s2, snap_es(es2), info, 'concat (second)')
    if not inplace:
        diff_es(s1, snap_es(es1), info, 'concat (first)')
        if out is es1:
            raise Fail('concat returned its input', **info)
    elif out is not es1:
        raise Fail('concat in place returned a new entityset', **info)
    mm = copy.deepcopy(m)
    for e in mm.ents.values():
        have = {r[e.index] for r in m1.ents[e.name].rows}
        e.rows = m1.ents[e.name].rows + [r for r in m2.ents[e.name].rows if r[e.index] not in have]
        got = out[e.name].df
        want = ordered(mm, e) if e.ti else sorted(e.rows, key=lambda r: r[e.index])
        if list(got[e.index]) != [r[e.index] for r in want]:
            raise Fail('concatenated %s has rows %s, expected %s' % (e.name, list(got[e.index]), [r[e.index] for r in want]), **info)
        for c, k in e.cols.items():
            for r, v in zip(want, got[c]):
                ex = r[c]
                if k in ('time', 'stime', 'dt') and not (m.numeric_time and k != 'dt') and ex is not None:
                    ex = T(ex)
                if not cell_eq(ex, v):
                    raise Fail('concatenated %s.%s of %r is %r, expected %r' % (e.name, c, r[e.index], v, ex), **info)
        inv(out[e.name], info, 'concatenated %s' % e.name)
    if m1.lti and any(e.ti for e in m.ents.values()):
        mm.lti = True
        lti_check(mm, out, mm.names, info, 'concatenated')
    return '%s|%s' % (m.rels, [len(e.rows) for e in mm.ents.values()])


# ------------------------------------------------------------------ E05
def es_same(a, b, info, data=True):
    if a.id != b.id:
        raise Fail('id %s became %s' % (a.id, b.id), **info)
    if {e.id for e in a.entities} != {e.id for e in b.entities}:
        raise Fail('entities %s became %s' % (a.entities, b.entities), **info)
    for e in a.entities:
        f = b[e.id]
        va, vb = {v.id: type(v) for v in e.variables}, {v.id: type(v) for v in f.variables}
        if va != vb:
            raise Fail('variables of %s: %s became %s' % (e.id, va, vb), **info)
        if (e.index, e.time_index) != (f.index, f.time_index):
            raise Fail('index/time index of %s changed' % e.id, **info)
        n = lambda d: {k: sorted(v) for k, v in (d or {}).items()}
        if n(e.secondary_time_index) != n(f.secondary_time_index):
            raise Fail('secondary time index of %s: %s became %s' % (e.id, e.secondary_time_index, f.secondary_time_index), **info)
        if data:
            if len(e.df) != len(f.df):
                raise Fail('%d rows of %s became %d' % (len(e.df), e.id, len(f.df)), **info)
            if list(e.df[e.index]) != list(f.df[f.index]):
                raise Fail('rows %s of %s became %s' % (list(e.df[e.index]), e.id, list(f.df[f.index])), **info)
            for c in e.df:
                if e.df[c].dtype != f.df[c].dtype:
                    raise Fail('column %s.%s of type %s became %s' % (e.id, c, e.df[c].dtype, f.df[c].dtype), **info)
                for k, x, y in zip(e.df[e.index], e.df[c], f.df[c]):
                    if not cell_eq(x, y):
                        raise Fail('%s.%s of %r: %r became %r' % (e.id, c, k, x, y), **info)
            if (e.last_time_index is None) != (f.last_time_index is None):
                raise Fail('last time index of %s lost or made up' % e.id, **info)
            if e.last_time_index is not None:
                for k in e.df[e.index]:
                    if not cell_eq(e.last_time_index[k], f.last_time_index[k]):
                        raise Fail('last time of %r changed' % k, **info)
        elif len(f.df):
            raise Fail('structure only, but %d rows' % len(f.df), **info)
    ra = [(r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for r in a.relationships]
    rb = [(r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for r in b.relationships]
    if ra != rb:
        raise Fail('relationships %s became %s' % (ra, rb), **info)


def case_storage(rng, cfg):
    from featuretools.entityset import deserialize
    m = gen(rng, n_ent=rng.choice([1, 2, 3]), maxrows=5)
    es_id = rng.choice(['es', 'my es', None, 'x/y'])
    es = build(m, es_id=es_id)
    nm = rng.choice(m.names)
    e = es[nm]
    if rng.random() < 0.5 and len(e.df):
        kind = rng.choice(['text', 'ord', 'latlong', 'interesting', 'zip', 'td'])
        df = e.df.copy()
        if kind == 'text':
            df['c2'] = pd.Series([rng.choice(['a, b', 'q"u', 'new\nline', 'ünï', 'x;y', "it's", ' lead', 'tab\t']) for _ in range(len(df))], index=df.index, dtype='object')
            t = rng.choice([vt.NaturalLanguage, vt.Categorical, vt.URL, vt.FullName])
        elif kind == 'ord':
            df['c2'] = pd.Series([rng.randint(0, 5) for _ in range(len(df))], index=df.index)
            t = rng.choice([vt.Ordinal, vt.Numeric, vt.Categorical])
        elif kind == 'latlong':
            df['c2'] = pd.Series([(float(rng.randint(-90, 90)), rng.randint(-1800, 1800) / 10.) for _ in range(len(df))], index=df.index)
            t = vt.LatLong
        elif kind == 'zip':
            df['c2'] = pd.Series([rng.choice(['%05d' % rng.randint(0, 99999), '0123', 'NA', 'None', 'nan', '1.50', 'True']) for _ in range(len(df))], index=df.index, dtype='object')
            t = rng.choice([vt.ZIPCode, vt.Categorical, vt.NaturalLanguage, vt.CountryCode])
        elif kind == 'td':
            df['c2'] = pd.Series([rng.random() < .5 for _ in range(len(df))], index=df.index)
            t = vt.Boolean
        if kind != 'interesting':
            es.entity_from_dataframe('W', df[[e.index, 'c2']].rename(columns={e.index: 'w_id'}).reset_index(drop=True), index='w_id', variable_types={'c2': t})
        elif 'c' in df:
            e['c'].interesting_values = ['u', 'v']
    d = tempfile.mkdtemp(prefix='vp_es_')
    fmt = rng.choice(['csv', 'csv', 'pickle', 'parquet'])
    info = {'model': m.describe(), 'format': fmt, 'id': es_id, 'extra': es['W'].df.to_dict() if 'W' in es.entity_dict else None}
    try:
        path = os.path.join(d, 'out')
        if fmt == 'csv':
            kw = {'compression': rng.choice([None, None, 'gzip', 'bz2', 'xz', 'zip']), 'sep': rng.choice([',', ',', ';', '\t', '|']), 'engine': rng.choice(['python', 'c'])}
            info['kwargs'] = str(kw)
            note(**info)
            before = snap_es(es)
            es.to_csv(path, encoding='utf-8', **kw)
        elif fmt == 'parquet':
            kw = {'compression': rng.choice([None, 'gzip'])}
            info['kwargs'] = str(kw)
            note(**info)
            before = snap_es(es)
            es.to_parquet(path, **kw)
        else:
            kw = {'compression': rng.choice([None, 'gzip', 'bz2', 'xz', 'zip'])}
            info['kwargs'] = str(kw)
            note(**info)
            before = snap_es(es)
            es.to_pickle(path, **kw)
        diff_es(before, snap_es(es), info, 'writing')
        back = ft.read_entityset(path)
        es_same(es, back, info)
        desc = json.loads(json.dumps(es.to_dictionary()))
        es_same(es, deserialize.description_to_entityset(desc), info, data=False)
        es_same(es, es.metadata, info, data=False)
        d2, d3 = es.to_dictionary(), back.to_dictionary()
        if [x['id'] for x in d2['entities'].values()] != [x['id'] for x in d3['entities'].values()] or d2['relationships'] != d3['relationships']:
            raise Fail('descriptions differ', **info)
        try:
            from featuretools.entityset import serialize
            serialize.write_entity_data(e, path, format='json')
        except ValueError:
            pass
        else:
            raise Fail('unknown format accepted', **info)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return '%s|%s|%s' % (fmt, info['kwargs'], m.rels)
