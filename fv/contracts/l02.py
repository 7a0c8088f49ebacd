"""Training windows."""
from contracts.l01 import *
import contracts.l01 as L1


class HandleTimeWindow(L1.HandleTime):
    def claims(self, P, W, fs, f, kept, there):
        if W.ti is None or W.time is None:
            return [('no-window-without-a-cutoff-or-time-index', z3.Implies(there, kept))]
        c = self.cell(W)
        if W.w is None:
            return [('without-a-window-all-rows-up-to-the-cutoff', z3.Implies(z3.And(there, W.before(c)), kept))]
        inside = z3.Or(W.recent(c), B(W.lti_recent(ROW)))
        return [('kept-rows-lie-in-the-window', z3.Implies(kept, inside)),
                ('rows-in-the-window-are-kept', z3.Implies(z3.And(there, W.before(c), inside), kept))]

    def cover(self, P, W, out):
        if out.kind == 'raise' or W.ti is None or W.time is None or W.w is None:
            return []
        k = B(out.value.rows(ROW))
        fs = [('row kept', k), ('row dropped by the window', z3.And(B(W.df0.rows(ROW)), W.before(self.cell(W)), z3.Not(k)))]
        if W.lti is not None:
            fs.append(('kept by last time index only', z3.And(k, z3.Not(W.recent(self.cell(W))))))
        return fs


CONTRACTS = [HandleTimeWindow] + for_settings('L02', 'window', 'window_used')
