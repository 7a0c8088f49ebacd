"""Random entitysets as plain-Python models, and their real counterparts."""
import os
import random
import warnings
warnings.simplefilter('ignore')
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools import variable_types as vt

BASE = pd.Timestamp('2020-03-01')
UNIT = pd.Timedelta(hours=1)


def T(k, numeric=False):
    """model time (integer steps) -> real time"""
    if k is None:
        return pd.NaT if not numeric else np.nan
    return k if numeric else BASE + k * UNIT


class Ent(object):
    def __init__(self, name):
        self.name = name
        self.index = name + '_id'
        self.ti = None
        self.sec = {}          # secondary time column -> governed columns
        self.cols = {}         # column -> kind
        self.rows = []


class Model(object):
    def __init__(self):
        self.ents = {}
        self.rels = []         # (parent, parent column, child, child column)
        self.numeric_time = False
        self.lti = False

    def parents(self, e):
        return [r for r in self.rels if r[2] == e]

    def children(self, e):
        return [r for r in self.rels if r[0] == e]

    def describe(self):
        out = {'numeric_time': self.numeric_time, 'last_time_indexes': self.lti, 'relationships': self.rels, 'entities': {}}
        for e in self.ents.values():
            out['entities'][e.name] = {'index': e.index, 'time_index': e.ti, 'secondary': e.sec, 'columns': e.cols, 'rows': e.rows}
        return out


def gen(rng, n_ent=None, numeric_time=None, sec_p=0.3, ti_p=0.7, dangling_p=0.12, empty_p=0.04, maxrows=9, shape=None,
        lti_p=0.4, nan_p=0.15, dup_rel_p=0.25, diamond_p=0.3, tmax=8, str_ids=None, target_ti=None, min_rows=1):
    m = Model()
    m.numeric_time = rng.random() < 0.15 if numeric_time is None else numeric_time
    n = n_ent or rng.choice([2, 2, 3, 3, 3, 4])
    names = ['A', 'B', 'C', 'D', 'E'][:n]
    rng.shuffle(names)
    # names[0] is the root; every other entity is a child of an earlier one
    kinds = {}
    for i, nm in enumerate(names):
        e = Ent(nm)
        m.ents[nm] = e
        kinds[nm] = (rng.random() < 0.5) if str_ids is None else str_ids
        e.cols[e.index] = 'id'
        if rng.random() < ti_p or (i == n - 1 and not any(x.ti for x in m.ents.values())):
            e.ti = 't'
            e.cols['t'] = 'time'
        ps = []
        if i:
            ps.append(names[rng.randrange(i)] if shape != 'chain' else names[i - 1])
            if i >= 2 and rng.random() < diamond_p:
                o = rng.choice(names[:i])
                if o != ps[0]:
                    ps.append(o)
            if rng.random() < dup_rel_p:
                ps.append(ps[0])
        cnt = {}
        for p in ps:
            cnt[p] = cnt.get(p, 0) + 1
            c = '%s_id' % p if cnt[p] == 1 else '%s_id%d' % (p, cnt[p])
            e.cols[c] = 'fk'
            m.rels.append((p, m.ents[p].index, nm, c))
        e.cols['x'] = 'num'
        if rng.random() < 0.7:
            e.cols['y'] = 'num'
        if rng.random() < 0.8:
            e.cols['c'] = 'cat'
        if rng.random() < 0.6:
            e.cols['b'] = 'bool'
        if rng.random() < 0.3 and not m.numeric_time:
            e.cols['d'] = 'dt'
        if (e.ti or rng.random() < 0.3) and rng.random() < sec_p:
            e.cols['s'] = 'stime'
            gov = [c for c in e.cols if e.cols[c] in ('num', 'cat') and rng.random() < 0.6]
            e.sec = {'s': gov}
    for nm in names:
        e = m.ents[nm]
        k = 0 if (rng.random() < empty_p and nm != names[0]) else rng.randint(min_rows, maxrows)
        ids = list(range(k))
        base = rng.choice([0, 0, 10])
        ids = [base + j for j in ids]
        rng.shuffle(ids)
        for j in ids:
            r = {e.index: ('%s%d' % (nm.lower(), j) if kinds[nm] else j)}
            for c, kd in e.cols.items():
                if kd == 'time':
                    r[c] = rng.randint(0, tmax)
                elif kd == 'fk':
                    pr = [x for x in m.rels if x[2] == nm and x[3] == c][0]
                    prow = m.ents[pr[0]].rows
                    u = rng.random()
                    if u < dangling_p or not prow:
                        r[c] = ('zz%d' % rng.randint(0, 2)) if kinds[pr[0]] else 900 + rng.randint(0, 2)
                    elif u < 2 * dangling_p and kinds[pr[0]]:
                        r[c] = None
                    else:
                        r[c] = rng.choice(prow)[pr[1]]
                elif kd == 'num':
                    r[c] = None if rng.random() < nan_p else rng.choice([-2, -1, 0, 1, 2, 3, 5, 7.5])
                elif kd == 'cat':
                    r[c] = None if rng.random() < nan_p else rng.choice(['u', 'v', 'w'])
                elif kd == 'bool':
                    r[c] = rng.random() < 0.5
                elif kd == 'dt':
                    r[c] = None if rng.random() < nan_p else rng.randint(0, 2000)
                elif kd == 'stime':
                    r[c] = rng.randint(0, tmax)
            e.rows.append(r)
        if e.sec:
            for r in e.rows:
                r['s'] = max(r.get('t', 0), r['s'])
        m.kinds = kinds
    m.lti = rng.random() < lti_p
    m.names = names
    return m


VT = {'num': vt.Numeric, 'cat': vt.Categorical, 'bool': vt.Boolean, 'dt': vt.Datetime, 'fk': vt.Id}


def frame(m, e):
    data = {}
    for c, k in e.cols.items():
        vals = [r[c] for r in e.rows]
        if k in ('time', 'stime', 'dt'):
            if m.numeric_time and k != 'dt':
                data[c] = pd.Series(vals, dtype='int64' if vals else 'int64')
            else:
                data[c] = pd.Series([T(v) for v in vals], dtype='datetime64[ns]')
        elif k == 'num':
            data[c] = pd.Series([np.nan if v is None else float(v) for v in vals], dtype='float64')
        elif k == 'bool':
            data[c] = pd.Series(vals, dtype='bool')
        elif k in ('id', 'fk'):
            who = e.name if k == 'id' else [r for r in m.rels if r[2] == e.name and r[3] == c][0][0]
            data[c] = pd.Series(vals, dtype='object' if m.kinds[who] else 'int64')
        else:
            data[c] = pd.Series(vals, dtype='object')
    return pd.DataFrame(data)[list(e.cols)]


def build(m, rels=True, order=None, es_id='es'):
    es = ft.EntitySet(es_id)
    # the time type of the entityset is known from the first entity with a time index on
    for nm in sorted(order or sorted(m.ents), key=lambda k: m.ents[k].ti is None and bool(m.ents[k].sec)):
        e = m.ents[nm]
        types = {c: VT[k] for c, k in e.cols.items() if k in VT}
        for c, k in e.cols.items():
            if k == 'stime':
                types[c] = vt.NumericTimeIndex if m.numeric_time else vt.Datetime
        es.entity_from_dataframe(nm, frame(m, e), index=e.index, time_index=e.ti,
                                 secondary_time_index={k: list(v) for k, v in e.sec.items()} or None,
                                 variable_types=types)
    if rels:
        for (p, pc, c, cc) in m.rels:
            es.add_relationship(ft.Relationship(es[p][pc], es[c][cc]))
    if m.lti:
        es.add_last_time_indexes()
    return es


def ordered(m, e):
    """rows in the order the entity keeps them"""
    if e.ti is None:
        return list(e.rows)
    return sorted(e.rows, key=lambda r: (r[e.ti], r[e.index]))


def lti_model(m):
    """entity -> {id: last time or None} by definition"""
    memo = {}

    def go(nm):
        if nm in memo:
            return memo[nm]
        e = m.ents[nm]
        out = {r[e.index]: (r[e.ti] if e.ti else None) for r in e.rows}
        for (p, pc, c, cc) in m.children(nm):
            sub = go(c)
            ce = m.ents[c]
            for r in ce.rows:
                t = sub[r[ce.index]]
                k = r[cc]
                if t is not None and k in out and (out[k] is None or out[k] < t):
                    out[k] = t
        memo[nm] = out
        return out
    for nm in m.ents:
        go(nm)
    return memo
