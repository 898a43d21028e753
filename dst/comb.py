"""What a regression or classification kriging object must answer: its own
parts, fitted afresh and combined here."""
import numpy as np

from . import gen, ref, util, world
from .kernel import Rejected

EPS = np.finfo(float).eps


def helmert(n):
    H = np.zeros((n - 1, n))
    for i in range(1, n):
        H[i - 1, :i] = 1.0
        H[i - 1, i] = -float(i)
        H[i - 1] /= np.sqrt(i * (i + 1.0))
    return H


def ilr(P):
    P = np.maximum(P, EPS)
    return np.log(P) @ (-helmert(P.shape[1])).T


def inv_ilr(A):
    e = A @ (-helmert(A.shape[1] + 1))
    e = np.exp(e - e.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


def kriged(w, x, vals, at):
    """Kriged values at the locations by a new kriging object of the core classes."""
    v = np.asarray(vals, dtype=float)
    fitted = w["model"]["v"]["params"] is None and w["model"]["v"]["model"] != "gstools"
    z, flat = _kriged(w, x, v, at, fitted)
    if fitted:
        # a fit that rounding of the values changes is not judged
        if flat:
            raise Rejected("ill-conditioned variogram fit")
        sg = np.where(np.arange(len(v)) % 2, 1.0, -1.0)
        for e in (1e-13, 1e-10):
            z2, _ = _kriged(w, x, v + e * sg * max(1.0, np.abs(v).max()), at)
            if not np.allclose(z, z2, rtol=0, atol=1e-7 * max(1.0, np.abs(v).max()), equal_nan=True):
                raise Rejected("ill-conditioned variogram fit")
    return z


def undetermined(m, p):
    """Whether the data hardly determine a combination of the fitted parameters."""
    r = ref.Ref(m, params=p)
    lags, sv = r.experimental()
    p = np.array(p, dtype=float)
    J = []
    for k in range(len(p)):
        # (the last parameter is the nugget)
        h = max(abs(p[k]), 1e-3, sv.max() if k == len(p) - 1 else 0.0) * 1e-4
        up, dn = p.copy(), p.copy()
        up[k] += h
        dn[k] -= h
        with np.errstate(all="ignore"):
            J.append((r.gamma(up, lags) - r.gamma(dn, lags)) / 2e-4)
    J = np.array(J)
    if not np.all(np.isfinite(J)):
        return True
    s = np.linalg.svd(J, compute_uv=False)
    return s[-1] < 1e-4 * s[0]


def _kriged(w, x, vals, at, judge=False):
    m = dict(w["model"])
    m["pts"] = [list(p) for p in x]
    m["vals"] = [float(v) for v in vals]
    m["kw"] = {k: v for k, v in m["kw"].items() if k not in ("enable_statistics", "verbose", "enable_plotting")}
    o = gen.build(m)
    q = {"style": "points", "pts": [list(p) for p in at], "backend": "loop", "w": w["nclose"] if w["cls"].startswith("ok") else None}
    z, _ = gen.ask(o, m, q)
    flat = judge and undetermined(m, o.variogram_model_parameters)
    return np.ma.filled(z, np.nan), flat


def fresh_est(w):
    if w["kind"] == "rk":
        e = world.regressor(w["est"])
        if e is None:
            from sklearn.svm import SVR

            e = SVR()
        return e
    return world.classifier(w["est"])


def predict(w, d, at):
    """(predictions, margin): margin is None or, per location, by how much the
    winning class wins."""
    X, T = np.array(at["x"], dtype=float), np.array(at["p"], dtype=float)
    p, x, y = np.array(d["p"], dtype=float), np.array(d["x"], dtype=float), world.targets(w, d["y"])
    if w["kind"] == "krige":
        return kriged(w, x, y, X), None
    e = fresh_est(w)
    if w["kind"] == "rk":
        e.fit(p, y)
        return kriged(w, x, y - e.predict(p), X) + e.predict(T), None
    e.fit(p, y.ravel())
    cl = e.classes_
    R = ilr((y.reshape(-1, 1) == cl[None, :]).astype(float)) - ilr(e.predict_proba(p))
    K = np.stack([kriged(w, x, R[:, k], X) for k in range(R.shape[1])], axis=1)
    P = inv_ilr(K + ilr(e.predict_proba(T)))
    s = np.sort(P, axis=1)
    return cl[P.argmax(axis=1)], s[:, -1] - s[:, -2]


def score(w, d, at_d, sample_weight=None):
    yp, margin = predict(w, d, at_d)
    y = world.targets(w, at_d["y"])
    sw = np.ones(len(yp)) if sample_weight is None else np.array(sample_weight, dtype=float)
    if w["kind"] == "ck":
        if np.any(margin < 1e-4):
            raise Rejected("tie")
        return float(np.sum(sw * (yp == y.ravel())) / sw.sum())
    m = np.sum(sw * y) / sw.sum()
    den = np.sum(sw * (y - m) ** 2)
    return float(1 - np.sum(sw * (y - yp) ** 2) / den)


def compare(w, obs, ref):
    """None, or how the observed prediction differs from the reference."""
    if obs[0] == "raise":
        return util.short(obs)
    want, margin = ref
    a = obs[1]
    a = a.data if isinstance(a, util.Arr) else np.asarray(a)
    if a.shape != np.shape(want):
        return "shape %s instead of %s" % (a.shape, np.shape(want))
    if margin is not None:
        bad = (a != want) & (margin > 1e-4)
        return "label %r instead of %r" % (a[bad][0], want[bad][0]) if bad.any() else None
    d = util.same(util.Arr(a), util.Arr(want), 1e-6)
    return d
