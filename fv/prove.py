"""Contracts and the obligation driver."""
from models import *      # noqa
import importlib
import subprocess
import time
import tempfile
import traceback


def resolve(target):
    """'pkg.mod:Class.func' -> (native function, owner class or None)"""
    mod, q = target.split(':')
    o = importlib.import_module(mod)
    owner = None
    for p in q.split('.'):
        owner = o if isinstance(o, type) else None
        if owner is not None:
            x = inspect.getattr_static(owner, p)
            if isinstance(x, property):
                x = x.fget
            if isinstance(x, (staticmethod, classmethod)):
                x = x.__func__
            o = x
        else:
            o = getattr(o, p)
    while hasattr(o, '__wrapped__'):
        o = o.__wrapped__
    return o, owner


class Contract(object):
    """One function under contract.

    setup(P)  -> (args, kwargs, ctx): symbolic inputs with the precondition assumed
    post(P, ctx, out) -> list of (name, formula): out.kind normal/raise, out.value
    """
    target = None
    prop = None
    callees = ()        # functions replaced by their contract at call sites
    trusted = ()        # assumed contracts used (text)
    timeout = 10000
    library = False     # data-frame values and operations are library values nothing is known about
    doc = ''

    def name(self):
        return type(self).__name__

    def specs(self):
        return {}

    def models(self):
        return {}

    def contracts(self):
        return {}

    def loop_specs(self):
        return {}

    def setup(self, P):
        raise NotImplementedError

    def post(self, P, ctx, out):
        raise NotImplementedError

    def cover(self, P, ctx, out):
        """named conditions each of which must be reachable on some path"""
        return []

    def body(self, P, fn, args, kwargs, ctx):
        return P.call(fn, args, kwargs)


class Oblig(object):
    def __init__(self, name):
        self.name, self.n, self.ok, self.bad, self.unk = name, 0, 0, [], []

    @property
    def status(self):
        if self.bad:
            return 'refuted'
        if self.unk or not self.n:
            return 'undecided'
        return 'discharged'


PORTFOLIO = [('cvc5', ['cvc5', '--full-saturate-quant', '--tlimit=%(ms)d']),
             ('cvc5', ['cvc5', '--finite-model-find', '--mbqi', '--produce-models', '--tlimit=%(ms)d']),
             ('z3', ['z3', 'smt.macro_finder=true', '-T:%(s)d'])]


def portfolio(smt, tmo):
    """several solvers side by side; (answer, solver, model text)"""
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n(set-option :produce-models true)\n' + smt + '\n(get-model)\n')
        path = f.name
    procs = []
    try:
        for who, cmd in PORTFOLIO:
            cmd = [c % {'ms': tmo, 's': max(1, tmo // 1000)} for c in cmd]
            out = tempfile.TemporaryFile('w+')
            try:
                procs.append((who, subprocess.Popen(cmd + [path], stdout=out, stderr=subprocess.DEVNULL), out))
            except OSError:
                continue
        end = time.time() + tmo / 1000 + 5
        todo = list(procs)
        while todo and time.time() < end:
            for x in list(todo):
                who, p, out = x
                if p.poll() is not None:
                    todo.remove(x)
                    out.seek(0)
                    txt = out.read()
                    k = txt.strip().split('\n')[0] if txt.strip() else ''
                    if k in ('sat', 'unsat'):
                        return k, who, txt[:6000]
            time.sleep(0.03)
        return 'unknown', None, ''
    finally:
        for who, p, out in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            out.close()
        os.unlink(path)


def verify(c, timeout=None, deadline=None):
    """run one contract; returns a result dict"""
    t0 = time.time()
    timeout = timeout or c.timeout
    fn, owner = resolve(c.target)
    res = {'contract': c.name(), 'function': c.target, 'obligations': {}, 'paths': 0, 'inlined': [], 'by': {'z3': 0, 'cvc5': 0},
           'error': None, 'solver_s': 0.0}
    obs = {}
    covers, opened = {}, {}

    def specs():
        from specs import SPECS
        s = {k: dict(v) for k, v in SPECS.items()}
        for k, v in c.specs().items():
            s.setdefault(k, {}).update(v)
        return s
    I = Verifier(specs=specs(), contracts=dict(c.contracts()), timeout=min(timeout, 4000), loop_specs=dict(c.loop_specs()))
    install(I)
    I.library = LibV('data') if c.library else None
    I.forks = {}
    try:
        import pdmodel
        I.models.update(pdmodel.M)
        I.attr_models.update(pdmodel.ATTR)
    except ImportError:
        pass
    I.models.update(c.models())
    state = {}

    def oblige(name, f, r):
        o = obs.setdefault(name, Oblig(name))
        o.n += 1
        if f is True:
            o.ok += 1
            return
        neg = z3.BoolVal(True) if f is False else z3.Not(f)
        t = time.time()
        s = z3.Solver()
        limit(s, timeout)
        s.add(*I.axioms)
        s.add(*[g for _, g in I.pc])
        s.add(neg)
        k = s.check()
        I.solver_time += time.time() - t
        if k == z3.unsat:
            o.ok += 1
            res['by']['z3'] += 1
            return
        if k == z3.unknown:
            t = time.time()
            r5, who, txt = portfolio(s.to_smt2(), 2 * timeout)
            I.solver_time += time.time() - t
            if os.environ.get('FV_DUMP'):
                open('%s/%s_%d.smt2' % (os.environ['FV_DUMP'], name, o.n), 'w').write('(set-logic ALL)\n' + s.to_smt2())
            if r5 == 'unsat':
                o.ok += 1
                res['by'][who] += 1
                return
            if r5 == 'sat':
                if I.approx:
                    o.unk.append('refuted only on an over-approximated path (%s)' % I.approx[0])
                else:
                    o.bad.append({'model': txt.split('\n')[:60], 'path': [str(g)[:600] for t_, g in I.pc if t_ == 'dec'][:16],
                                  'outcome': describe(r) if r is not None else 'at a loop'})
                return
            o.unk.append('solver gave no answer (z3: %s)' % s.reason_unknown())
            return
        m = s.model()
        txt = model_text(m)
        if I.approx:
            o.unk.append('refuted only on an over-approximated path (%s)' % I.approx[0])
        else:
            o.bad.append({'model': txt, 'path': [str(g)[:600] for t_, g in I.pc if t_ == 'dec'][:16],
                          'outcome': describe(r) if r is not None else 'at a loop'})

    def on_path(r):
        if r.kind in ('break',):
            return
        if deadline and time.time() > deadline:
            raise Unsupported('time limit')
        res['paths'] += 1
        out = r
        out.value = r.value
        out.events = list(I.events)
        try:
            posts = c.post(I, state['ctx'], out)
        except PyExc as e:
            posts = [('result-has-the-expected-shape', False)]
            I.mark_approx('exception %s while evaluating the postcondition' % e)
        except (AttributeError, TypeError, IndexError, KeyError) as e:
            # a result of another shape than the contract speaks about
            posts = []
            o = obs.setdefault('result-shape', Oblig('result-shape'))
            o.n += 1
            o.unk.append('postcondition not evaluable on %s: %s' % (describe(r), e))
        for name, f in posts:
            oblige(name, f, r)
        for name, f in (c.cover(I, state['ctx'], out) or []):
            if covers.get(name) is True or (covers.get(name) == 'open' and opened.get(name, 0) > 2):
                continue
            if f is True:
                covers[name] = True
                continue
            k = z3.unsat if f is False else I.check(f)
            # a case counts as reachable unless the solver refutes it; 'open' ones are reported
            opened[name] = opened.get(name, 0) + 1
            covers[name] = True if k == z3.sat else 'open' if k == z3.unknown or covers.get(name) else False
        covers.setdefault('some path', False)
        if not covers['some path']:
            covers['some path'] = I.solver.check() != z3.unsat

    I.on_path = on_path
    I.oblige = lambda name, f: oblige(name, f, None)

    def thunk():
        I.len_cache.clear()
        args, kwargs, ctx = c.setup(I)
        state['ctx'] = ctx
        return c.body(I, fn, args, kwargs, ctx)
    try:
        I.explore(thunk)
    except Unsupported as e:
        res['error'] = 'unsupported: %s (%s line %s)' % (e, getattr(e, 'fname', '?'), getattr(e, 'line', '?'))
    except RecursionError:
        res['error'] = 'unsupported: recursion'
    except z3.Z3Exception as e:
        res['error'] = 'z3: %s' % str(e)[:200]
        if os.environ.get('FV_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        res['error'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:200])
        if os.environ.get('FV_DEBUG'):
            traceback.print_exc()
    res['covers'] = covers
    if not res['error'] and (not covers or not all(covers.values())):
        res['error'] = 'vacuous: not reachable: %s' % [k for k, v in covers.items() if not v]
    for name, o in obs.items():
        st = o.status
        if res['error'] and st == 'discharged':
            st = 'undecided'        # some paths were not explored
        res['obligations'][name] = {'status': st, 'instances': o.n, 'ok': o.ok,
                                    'detail': (o.bad[:2] if o.bad else o.unk[:2])}
    res['inlined'] = sorted(I.inlined)
    res['contracts_used'] = sorted(I.used_contracts)
    res['models_used'] = sorted(I.used_models)
    res['solver_s'] = round(I.solver_time, 2)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def describe(r):
    try:
        if r.kind == 'raise':
            return 'raises %s' % getattr(r.value.cls, '__name__', r.value.cls)
        return '%s %s' % (r.kind, str(r.value)[:200])
    except Exception:
        return r.kind


def model_text(m):
    out = []
    for d in m.decls():
        try:
            s = '%s = %s' % (d.name(), m[d])
        except Exception:
            continue
        if d.name().startswith(('litid', 'lit:')):
            continue
        out.append(s[:200])
        if len(out) > 40:
            break
    return out
