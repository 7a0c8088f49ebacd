"""Normalizing: what the new entity is made of, what the base entity loses, and how the two are linked."""
from flow import *
from values import LibV, ModelV
from flowsettings import ES
import pandas as pd
from featuretools import variable_types as vtypes
from featuretools.entityset.entity import Entity
from featuretools.entityset.entityset import EntitySet
from featuretools.entityset.relationship import Relationship
from featuretools.variable_types import Variable
EN = 'featuretools.entityset.entity:Entity.'


class Ghost(object):
    """what has been done"""


def strings(l):
    """the strings of a list value"""
    if isinstance(l, ListV) and l.concrete:
        l = [p.value for p in l.pieces]
    return list(l) if isinstance(l, (list, tuple)) and all(isinstance(x, str) for x in l) else None


class Table(LibV):
    """a table derived from that of the base entity: which row stands for each key, its columns with the base column of each"""
    def __init__(self, keep, cols, labelled=None):
        LibV.__init__(self, 'table', pd.DataFrame, None)
        self.keep, self.cols, self.labelled = keep, dict(cols), labelled
        m = lambda f: ModelV('op', f)
        self.hooks = {'copy': m(lambda I, a, k: Table(keep, cols, labelled)), 'drop_duplicates': m(self.distinct), '__getitem__': m(self.pick), 'rename': m(self.rename),
                      'set_index': m(self.label), 'join': m(self.join), 'columns': ListV([Piece((), True, c) for c in self.cols]),
                      '__setitem__': m(self.lost), '__setattr__': m(self.lost)}

    def derived(self, why):
        return LibV('another table')

    def lost(self, I, a, k):
        raise Unsupported('a table is written to')

    def distinct(self, I, a, k):
        sub = a[0] if a else k.get('subset')
        sub = [sub] if isinstance(sub, str) else strings(sub)
        if self.keep != 'all' or sub is None or set(k) - {'subset', 'keep'} or len(a) > 1:
            raise Unsupported('rows chosen another way')
        return Table((tuple(sub), k.get('keep', 'first')), self.cols)

    def pick(self, I, a, k):
        names = strings(a[0])
        if names is None:
            return LibV('column')
        I.oblige('the-columns-it-needs-are-there', all(n in self.cols for n in names))
        return Table(self.keep, {n: self.cols.get(n) for n in names}, self.labelled)

    def rename(self, I, a, k):
        d = k.get('columns')
        if not isinstance(d, DictV) or a or set(k) != {'columns'} or any(not p.single for p in d.pieces):
            raise Unsupported('renamed another way')
        ren = {p.value[0]: p.value[1] for p in d.pieces}
        return Table(self.keep, {ren.get(n, n): b for n, b in self.cols.items()}, self.labelled)

    def label(self, I, a, k):
        if k or len(a) != 1 or a[0] not in self.cols:
            raise Unsupported('labelled another way')
        return Table(self.keep, {n: b for n, b in self.cols.items() if n != a[0]}, a[0])

    def join(self, I, a, k):
        o, on = a[0], k.get('on', a[1] if len(a) > 1 else None)
        if not isinstance(o, Table) or set(k) - {'on'} or o.labelled != on or on not in self.cols or set(o.cols) & set(self.cols):
            raise Unsupported('joined another way')
        t = Table(self.keep, self.cols)
        t.cols.update({n: (b, o.keep) for n, b in o.cols.items()})
        t.hooks['columns'] = ListV([Piece((), True, c) for c in t.cols])
        return t


class Normalize(Flow):
    """the new entity has a row per key, the first one of each (the last one for a secondary time index), with the columns moved and copied"""
    target = ES + 'normalize_entity'
    secondary = False

    def name(self):
        return 'normalize_entity [one column moved, one copied]'

    def specs(self):
        return {}

    def calls(self):
        did = lambda P, k, v: P.set_attr(P.flow['g'], k, P.flow['g'].attrs[k] + (v,))

        def made(P, a):
            did(P, 'made', (a['entity_id'], a['dataframe'], a['index'], a['time_index'], a['already_sorted'], a['secondary_time_index'], a['variable_types']))
            P.oblige('no-index-is-made', a.get('make_index') in (False, None))
            P.set_attr(P.flow['g'], 'there', True)
        return {ES + 'entity_from_dataframe': (made, {}),
                EN + 'delete_variables': (lambda P, a: did(P, 'deleted', (a['self'], strings(a['variable_ids']))), {}),
                EN + 'convert_variable_type': (lambda P, a: did(P, 'converted', (a['self'], a['variable_id'], a['new_type'], a['convert_data'])), {}),
                ES + 'add_relationship': (lambda P, a: did(P, 'linked', (a['relationship'],)), {}),
                ES + 'reset_data_description': (lambda P, a: did(P, 'reset', 1), {})}

    def entity(self, P, eid, types, **kw):
        a = {'id': eid, 'index': 'id', 'time_index': None}
        e = P.born(ObjV(Entity, a))
        vs = {n: P.born(ObjV(t, {'id': n, 'entity': e, 'entity_id': eid, '_name': None})) for n, t in types.items()}
        e.attrs['variables'] = ListV([Piece((), True, v) for v in vs.values()])
        e.attrs.update(kw)
        return e, vs

    def start(self, P):
        timed = P.decide(P.make(BOOL, 'the base has a time index'))
        types = {'id': vtypes.Index, 'key': vtypes.Categorical, 'moved': vtypes.Numeric, 'copied': vtypes.Datetime, 'other': vtypes.Categorical, 't': vtypes.DatetimeTimeIndex if timed else vtypes.Datetime, 'late': vtypes.Datetime}
        base, bv = self.entity(P, 'base', types, time_index='t' if timed else None, data=P.born(DictV([Piece((), True, ('df', Table('all', {n: n for n in types})))])))
        new, nv = self.entity(P, 'new', {'key': vtypes.Index}, index='key')
        g = P.born(ObjV(Ghost, {'made': (), 'deleted': (), 'converted': (), 'linked': (), 'reset': (), 'there': False}))
        d = P.born(DictV([Piece((), True, ('base', base)), Piece((), True, ('new', new))]))
        es = P.born(ObjV(EntitySet, {'id': 'es', 'entity_dict': d}))
        base.attrs['entityset'] = new.attrs['entityset'] = es
        L = lambda *x: P.born(ListV([Piece((), True, v) for v in x]))
        moved, copied = (L('moved'), ['moved']) if P.decide(P.make(BOOL, 'one is moved')) else (None, []), (L('copied'), ['copied']) if P.decide(P.make(BOOL, 'one is copied')) else (L(), [])
        mk = None
        if P.decide(P.make(BOOL, 'a time index is asked for or declined')):
            mk = True if P.decide(P.make(BOOL, 'asked for')) else False if P.decide(P.make(BOOL, 'declined')) else 'copied'
        nt = 'when' if P.decide(P.make(BOOL, 'the new time index is named')) else None
        kw = dict(additional_variables=moved[0], copy_variables=copied[0], make_time_index=mk, new_entity_time_index=nt)
        sec = ns = None
        if self.secondary:
            sec = P.born(DictV([Piece((), True, ('late', L('other')))]))
            ns = 'renamed' if P.decide(P.make(BOOL, 'the secondary one is named')) else None
            kw.update(make_secondary_time_index=sec, new_entity_secondary_time_index=ns)
        return [es, 'base', 'new', 'key'], kw, dict(es=es, base=base, new=new, bv=bv, nv=nv, g=g, timed=timed, moved=moved[1], copied=copied[1], mk=mk, nt=nt, ns=ns, types=types)

    def post(self, P, c, out):
        g, mk, timed = c['g'].attrs, c['mk'], c['timed']
        impossible = (mk == 'copied' and not c['copied']) or (mk is True and not timed)
        if out.kind == 'raise':
            return [('refused-only-with-a-reason', impossible), ('refused-without-a-trace', not g['made'] and not g['deleted'] and not g['linked'] and not g['converted'])]
        posts = [('accepted-only-without-a-reason-to-refuse', not impossible), ('one-entity-is-made', len(g['made']) == 1)]
        if len(g['made']) != 1:
            return posts
        eid, df, index, ti, srt, sec, vt = g['made'][0]
        if not isinstance(df, Table):
            raise Unsupported('the table of the new entity was not followed')
        src = mk if isinstance(mk, str) else 't' if timed and mk is not False else None     # the base column its time index comes from
        name = None if src is None else src if isinstance(mk, str) else c['nt'] or 'first_base_time'
        want = {n: n for n in ['key'] + c['moved'] + c['copied']}
        if src is not None:
            want.pop(src, None)
            want[name] = src
        if self.secondary:
            last = lambda n: (n, (('key',), 'last'))
            want[c['ns'] or 'late'], want['other'] = last('late'), last('other')
        posts += [('a-row-per-key-the-first', df.keep == (('key',), 'first')), ('its-columns-and-where-they-come-from', df.cols == want),
                  ('made-under-its-name-with-its-index', eid == 'new' and index == 'key'), ('its-time-index', ti == name),
                  ('declared-sorted-only-when-it-is', Implies(P.truth(srt), src is None or (src == 't' and timed)))]
        ty = {p.value[0]: p.value[1] for p in vt.pieces if p.single}
        posts.append(('types-are-kept', all(ty.get(n) is c['types'][n] for n in c['moved'] + c['copied'] if n in df.cols)))
        if self.secondary:
            s = [(p.value[0], strings(p.value[1])) for p in sec.pieces] if isinstance(sec, DictV) else None
            posts.append(('its-secondary-time-index', s == [(c['ns'] or 'late', ['other'])]))
        else:
            posts.append(('no-secondary-time-index', P.is_none(sec) if not isinstance(sec, DictV) else not sec.pieces))
        posts += [('the-base-loses-exactly-the-columns-moved', [x for x in g['deleted'] if x[1]] == ([(c['base'], c['moved'])] if c['moved'] else [])),
                  ('the-base-column-becomes-an-id', len(g['converted']) == 1 and g['converted'][0][0] is c['base'] and g['converted'][0][1] == 'key' and g['converted'][0][2] is vtypes.Id and P.decide(P.truth(g['converted'][0][3])) is False),
                  ('linked-once', len(g['linked']) == 1)]
        if len(g['linked']) == 1:
            r = g['linked'][0][0]
            if not isinstance(r, ObjV):
                raise Unsupported('the link was not followed')
            at = lambda f: P.getattr(r, f)
            posts.append(('linked-from-the-base-to-the-new-entity-by-the-key', And(at('_parent_entity_id') == 'new', at('_child_entity_id') == 'base', at('_parent_variable_id') == 'key', at('_child_variable_id') == 'key')))
        return posts + [('description-is-reset', len(g['reset']) >= 1), ('gives-the-entityset', out.value is c['es'])]

    def cover(self, P, c, out):
        return [('refused', out.kind == 'raise'), ('accepted', out.kind != 'raise')]


class NormalizeSecond(Normalize):
    secondary = True

    def name(self):
        return 'normalize_entity [with a secondary time index]'


CONTRACTS = [Normalize, NormalizeSecond]
