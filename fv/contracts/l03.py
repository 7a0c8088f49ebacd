"""Columns governed by a secondary time index."""
from contracts.l01 import *
import contracts.l01 as L1


class HandleTimeSecondary(L1.HandleTime):
    def setup(self, P):
        r = L1.HandleTime.setup(self, P)
        self.key = P.make(STR, 'column')
        W = r[2]
        W.before_call = dict(W.df.attrs)
        W.rows0 = W.df
        return r

    def claims(self, P, W, fs, f, kept, there):
        key = self.key
        c, c0 = f.cell(P, key, ROW), W.df0.cell(P, key, ROW)
        hid = B(W.hidden(key, ROW, P.length(W.names)))
        return [('hidden-until-the-secondary-time-has-passed', z3.Implies(z3.And(kept, hid), c == nan_cell(P))),
                ('everything-else-is-unchanged', z3.Implies(z3.And(kept, z3.Not(hid)), c == c0)),
                ('the-frame-given-is-not-modified', z3.And(*[z3.BoolVal(W.df.attrs[k] is W.before_call[k]) for k in ('rows', 'col', 'label')]))]

    def cover(self, P, W, out):
        if out.kind == 'raise' or W.time is None:
            return []
        hid = B(W.hidden(self.key, ROW, P.length(W.names)))
        k = B(out.value.rows(ROW))
        return [('hidden cell', z3.And(k, hid)), ('visible cell', z3.And(k, z3.Not(hid)))]


CONTRACTS = [HandleTimeSecondary]
