"""Scalar Kalman filter of the odometry correction."""
from core import *
from numlib import *
UNITS = [os.path.join(VERIF, 'harness', 'kalman.cpp')]
NS = 'nn_harness::'
TO = 'track_odometry::KalmanFilter1::'
EXPLANATION = ('Call sequences on the filter are summarised over an arbitrary held estimate and compared, case by case of the infinity tests, as exact '
               'rational functions with the update equations.')
ASSUMPTIONS = ['real arithmetic: float rounding is not modelled', 'not both deviations are zero']


def check(ctx):
    _, _, x, _ = summary(ctx, NS + 'kf_now_x')
    _, _, s, _ = summary(ctx, NS + 'kf_now_sigma')
    X, S = x.leaf, s.leaf
    inf = mk('inf')

    def isinf(t):
        return bvar(mk('isinf', t))

    def go(name, rule, site, want, R=None):
        I, f, r, st = summary(ctx, NS + name)
        a = args(f)
        ctx.entail('filter-total', TRUE, st.g, site)
        agree(ctx, rule, site, lib(r), want(*[t for t in a if not str(t.args[0]).startswith('k')]), st.g)
    si, ss, sp, sm = [at(ctx.one(TO + n)) for n in ('KalmanFilter1', 'set', 'predict', 'measure')]
    go('kf_default_x', 'default-estimate', si, lambda: leaf(ZERO))
    go('kf_default_sigma', 'default-unknown', si, lambda: leaf(inf))
    go('kf_init_x', 'initial-estimate', si, lambda x, s: leaf(x))
    go('kf_init_sigma', 'initial-deviation', si, lambda x, s: leaf(s))
    go('kf_set_x', 'set-estimate', ss, lambda x, s: leaf(x))
    go('kf_set_sigma', 'set-deviation', ss, lambda x, s: leaf(s))
    go('kf_clear_x', 'default-estimate', ss, lambda: leaf(ZERO))
    go('kf_clear_sigma', 'default-unknown', ss, lambda: leaf(inf))
    go('kf_predict_x', 'prediction-moves-estimate', sp, lambda x, s: leaf(t_add(X, x)))
    go('kf_predict_sigma', 'prediction-adds-deviation', sp, lambda x, s: leaf(t_add(S, s)))

    def gain(s):
        ss_, rr = t_mul(S, S), t_mul(s, s)
        return t_fdiv(ss_, t_add(ss_, rr))

    def mx(x, s):
        return ite(isinf(s), leaf(X), ite(isinf(S), ite(isinf(x), leaf(ZERO), leaf(x)), leaf(t_add(X, t_mul(gain(s), t_sub(x, X))))))

    def ms(x, s):
        return ite(isinf(s), leaf(S), ite(isinf(S), leaf(s), leaf(t_mul(t_sub(ONE, gain(s)), S))))
    go('kf_measure_x', 'measurement-estimate', sm, mx)
    go('kf_measure_sigma', 'measurement-deviation', sm, ms)
    ctx.need('filter call sequences', 12, 12)
