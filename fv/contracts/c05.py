from chelp import *


class HandleChunkSize(Contract):
    target = 'featuretools.computational_backends.calculate_feature_matrix:_handle_chunk_size'

    def name(self):
        return '_handle_chunk_size'

    def setup(self, P):
        c, n = P.fresh('chunk_size', z3.RealSort()), P.fresh('total', z3.IntSort())
        P.assume(n >= 1)
        return [c, n], {}, (c, n)

    def post(self, P, ctx, out):
        c, n = ctx
        if out.kind == 'raise':
            return [('rejects-only-nonpositive', And(out.value.cls is AssertionError, c <= 0))]
        r = out.value
        return [('accepts-only-positive', c > 0),
                ('at-least-one', r >= 1),
                ('absolute-size-kept', Implies(c >= 1, And(z3.ToReal(r) <= c, z3.ToReal(r) > c - 1))),
                ('fraction-rounded-up', Implies(And(c > 0, c < 1), And(z3.ToReal(r) >= c * n, z3.ToReal(r) < c * n + 1)))]


class Workers(Contract):
    """at least one worker, never more than the CPUs this process may use, and as many as asked for when there are enough"""
    target = 'featuretools.computational_backends.utils:n_jobs_to_workers'

    def cpus(self, P):
        n = P.fn('number of available CPUs', z3.IntSort())()
        P.assume(n >= 1)
        return n

    def models(self):
        import psutil
        def process(P, a, k):
            def affinity(I, a, k):
                if I.decide(I.make(BOOL, 'platform without affinities')):
                    raise PyExc(AttributeError)
                l = I.fresh_list(INT, 'the CPUs')
                I.assume(I.length(l) == self.cpus(I))
                return l
            return P.born(ObjV(RowsOf, {'cpu_affinity': ModelV('cpu_affinity', affinity)}))
        return {psutil.Process: process, psutil.cpu_count: lambda P, a, k: self.cpus(P)}

    def setup(self, P):
        n = P.make(INT, 'n_jobs')
        P.assume(n != 0)
        return [n], {}, n

    def post(self, P, n, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        r, c = out.value, self.cpus(P)
        return [('at-least-one-worker', r >= 1), ('no-more-workers-than-cpus', r <= c), ('as-many-as-asked-for', Implies(And(n > 0, n <= c), r == n)),
                ('all-cpus-for-minus-one', Implies(n == -1, r == c))]


class RowsOf(object):
    pass


from flowsettings import for_settings, Parallel, Chunk, Matrix, Approximate     # noqa

CONTRACTS = [HandleChunkSize, Workers] + for_settings('C05', 'approximate', 'window', 'window_used', 'save', 'flag', 'tv', 'tt', 'cols', 'inc', 'n_jobs',
                                             'fs', 'time', 'no_approximation', only=(Parallel, Chunk, Matrix, Approximate))

