"""Small independent reference: the kriging systems, written down from their
definition, one dense solve per location.  Shares no code with the package
under test (GSTools' own variogram is used where a GSTools model is given)."""
import numpy as np

from . import gen
from .kernel import Rejected

COND_MAX = 1e8


def gamma_fn(v):
    """The variogram as a function gamma(parameters, distance)."""
    m = v["model"]
    if m == "custom":
        return gen.VARIO_REF[v["func"]]
    if m == "gstools":
        g = gen.gs_model(v["gs"])
        return lambda p, d: np.asarray(g.pykrige_vario(p, d))
    if m == "linear":
        return lambda p, d: p[0] * d + p[1]
    if m == "power":
        return lambda p, d: p[0] * d ** p[1] + p[2]
    if m == "gaussian":
        return lambda p, d: p[0] * (1 - np.exp(-(d**2) / (p[1] * 4.0 / 7.0) ** 2)) + p[2]
    if m == "exponential":
        return lambda p, d: p[0] * (1 - np.exp(-d / (p[1] / 3.0))) + p[2]
    if m == "spherical":
        def sph(p, d):
            d = np.asarray(d, dtype=float)
            h = np.minimum(d / p[1], 1.0)
            return p[0] * (1.5 * h - 0.5 * h**3) + p[2]
        return sph
    if m == "hole-effect":
        return lambda p, d: p[0] * (1 - (1 - d / (p[1] / 3.0)) * np.exp(-d / (p[1] / 3.0))) + p[2]
    raise KeyError(m)


def explicit_params(v):
    """The internal parameter list that explicit parameters denote (None: fitted)."""
    if v["model"] == "gstools":
        return []
    p = v["params"]
    if p is None:
        return None
    m = v["model"]
    if "list" in p:
        l = list(p["list"])
        if m in ("gaussian", "spherical", "exponential", "hole-effect"):
            return [l[0] - l[2], l[1], l[2]]
        return l
    d = p["dict"]
    if m == "linear":
        return [d["slope"], d["nugget"]]
    if m == "power":
        return [d["scale"], d["exponent"], d["nugget"]]
    ps = d["psill"] if "sill" not in d else d["sill"] - d["nugget"]
    return [ps, d["range"], d["nugget"]]


def rot2(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, s], [-s, c]])


class Frame:
    """The anisotropic coordinate frame of a model."""

    def __init__(self, s, v):
        P = np.array(s["pts"], dtype=float)
        self.c = (P.max(axis=0) + P.min(axis=0)) / 2.0
        dim = P.shape[1]
        self.dim = dim
        self.turned = False
        if s["geo"]:
            self.M = None
            return
        if v["model"] == "gstools":
            g = gen.gs_model(v["gs"])
            if dim == 2:
                sc, an = [g.pykrige_anis], [g.pykrige_angle]
            else:
                sc = [g.pykrige_anis_y, g.pykrige_anis_z]
                an = [g.pykrige_angle_x, g.pykrige_angle_y, g.pykrige_angle_z]
        else:
            a = v.get("aniso") or {}
            if dim == 2:
                sc, an = [a.get("anisotropy_scaling", 1.0)], [a.get("anisotropy_angle", 0.0)]
            else:
                sc = [a.get("anisotropy_scaling_y", 1.0), a.get("anisotropy_scaling_z", 1.0)]
                an = [a.get("anisotropy_angle_x", 0.0), a.get("anisotropy_angle_y", 0.0), a.get("anisotropy_angle_z", 0.0)]
        # a turned frame does not keep coinciding locations exactly together
        self.turned = any(an)
        t = np.radians(np.array(an, dtype=float))
        if dim == 2:
            self.M = np.diag([1.0, sc[0]]) @ rot2(t[0])
        else:
            cx, cy, cz = np.cos(t)
            sx, sy, sz = np.sin(t)
            # clockwise (inverse) rotations about x, then y, then z
            Rx = np.array([[1, 0, 0], [0, cx, sx], [0, -sx, cx]])
            Ry = np.array([[cy, 0, -sy], [0, 1, 0], [sy, 0, cy]])
            Rz = np.array([[cz, sz, 0], [-sz, cz, 0], [0, 0, 1]])
            self.M = np.diag([1.0, sc[0], sc[1]]) @ Rz @ Ry @ Rx

    def __call__(self, P):
        P = np.asarray(P, dtype=float)
        if self.M is None:
            return P
        return (P - self.c) @ self.M.T + self.c


def unit_vectors(P):
    lon, lat = np.radians(P[:, 0]), np.radians(P[:, 1])
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=1)


def dists(A, B, geo):
    if not geo:
        return np.sqrt(((A[:, None, :] - B[None, :, :]) ** 2).sum(axis=2))
    u, w = unit_vectors(A)[:, None, :], unit_vectors(B)[None, :, :]
    cr = np.linalg.norm(np.cross(u, w), axis=2)
    return np.degrees(np.arctan2(cr, (u * w).sum(axis=2)))


class Ref:
    def __init__(self, s, v=None, params=None):
        v = v or s["v"]
        self.s, self.v = s, v
        self.P = np.array(s["pts"], dtype=float)
        self.Z = np.array(s["vals"], dtype=float)
        self.n = len(self.Z)
        self.frame = Frame(s, v)
        self.A = self.frame(self.P)
        self.geo = s["geo"]
        p = explicit_params(v)
        if p is None:
            p = params
        self.p = None if p is None else [float(x) for x in p]
        self.gamma = gamma_fn(v)
        self.exact = s["kw"].get("exact_values", True)
        self.pinv = s["kw"].get("pseudo_inv", False)
        self.D = dists(self.A, self.A, self.geo)

    # -- drift ---------------------------------------------------------------
    def drift(self, orig, adj, q=None):
        d = self.s.get("drift") or {"terms": []}
        t = d["terms"]
        cols = []
        dim = self.P.shape[1]
        if "regional_linear" in t:
            cols += [adj[:, k] for k in range(dim)]
        if "point_log" in t:
            w = np.array(d["wells"], dtype=float)
            wa = self.frame(w[:, :2])
            for k in range(len(w)):
                r = np.sqrt(((adj - wa[k]) ** 2).sum(axis=1))
                # a location within rounding of a well: the sign of the effect
                # of the cut-off value is not defined by the specification
                if np.any((r < 1e-6) & ((r > 0) | self.frame.turned)):
                    raise Rejected("location within rounding of a well")
                with np.errstate(divide="ignore"):
                    lg = np.log(r)
                lg[np.isinf(lg)] = -100.0
                cols.append(-w[k, 2] * lg)
        if "external_Z" in t:
            cols.append(self.ext(orig, d["ext"]))
        if "specified" in t:
            for k in d["spec"]:
                cols.append(gen.drift_values(q or {}, k, orig))
        if "functional" in t:
            for k in d["func"]:
                cols.append(np.asarray(gen.FUNC_REF[k](*adj.T), dtype=float))
        if not cols:
            return np.zeros((len(adj), 0))
        return np.stack(cols, axis=1)

    def ext(self, P, e):
        x, y, z = np.array(e["x"]), np.array(e["y"]), np.array(e["z"], dtype=float)
        out = []
        for a, b in P[:, :2]:
            if a < x[0] or a > x[-1] or b < y[0] or b > y[-1]:
                out.append(np.nan)
                continue
            i = min(max(np.searchsorted(x, a, side="right") - 1, 0), len(x) - 2)
            j = min(max(np.searchsorted(y, b, side="right") - 1, 0), len(y) - 2)
            s = (a - x[i]) / (x[i + 1] - x[i])
            t = (b - y[j]) / (y[j + 1] - y[j])
            out.append((1 - t) * ((1 - s) * z[j, i] + s * z[j, i + 1]) + t * ((1 - s) * z[j + 1, i] + s * z[j + 1, i + 1]))
        return np.array(out)

    # -- the systems -----------------------------------------------------------
    def matrix(self, idx=None):
        idx = np.arange(self.n) if idx is None else np.asarray(idx)
        G = -np.asarray(self.gamma(self.p, self.D[np.ix_(idx, idx)]), dtype=float)
        np.fill_diagonal(G, 0.0)
        F = self.drift(self.P[idx], self.A[idx])
        n, k = len(idx), F.shape[1]
        M = np.zeros((n + k + 1, n + k + 1))
        M[:n, :n] = G
        M[:n, n:n + k] = F
        M[n:n + k, :n] = F.T
        M[n + k, :n] = 1.0
        M[:n, n + k] = 1.0
        return M

    def cond(self, idx=None):
        s = np.linalg.svd(self.matrix(idx), compute_uv=False)
        if self.pinv:
            good = s > 1e-9 * s[0]
            if np.any((s > 5e-16 * s[0]) & ~good) or not good.any():
                return np.inf
            return s[0] / s[good][-1]
        return s[0] / s[-1] if s[-1] > 0 else np.inf

    def answer(self, locs, w=None, q=None):
        """Estimates, variances, condition numbers and usable flags at the locations."""
        locs = np.atleast_2d(np.asarray(locs, dtype=float))
        adj = self.frame(locs)
        bd = dists(adj, self.A, self.geo)
        F = self.drift(locs, adj, q)
        m = len(locs)
        z, ss, cd, ok = np.zeros(m), np.zeros(m), np.zeros(m), np.ones(m, bool)
        full = None
        for i in range(m):
            if w is None or w >= self.n:
                idx = np.arange(self.n)
                if full is None:
                    M = self.matrix()
                    full = (M, self.cond())
                M, c = full
            else:
                order = np.argsort(bd[i], kind="stable")
                idx = order[:w]
                gap = bd[i][order[w]] - bd[i][order[w - 1]]
                if gap < 1e-7 * max(1.0, bd[i].max()):
                    ok[i] = False
                    continue
                M, c = self.matrix(idx), self.cond(idx)
            b = np.zeros(len(M))
            n = len(idx)
            d = bd[i][idx]
            b[:n] = -np.asarray(self.gamma(self.p, d), dtype=float)
            if self.exact:
                b[:n][d <= 1e-9] = 0.0
            if np.any((d > 1e-12) & (d < 1e-8)) and not self.geo:
                ok[i] = False
            if not self.exact and np.any(d <= 1e-8) and self.steep():
                ok[i] = False
            b[n:n + F.shape[1]] = F[i]
            b[-1] = 1.0
            cd[i] = c
            if not np.all(np.isfinite(b)) or not np.all(np.isfinite(M)) or c > COND_MAX:
                ok[i] = False
                continue
            x = np.linalg.pinv(M, rcond=1e-12, hermitian=False) @ b if self.pinv else np.linalg.solve(M, b)
            z[i] = x[:n] @ self.Z[idx]
            ss[i] = -x @ b
        return z, ss, cd, ok

    def steep(self):
        """Whether rounding of a zero distance is visible in the variogram."""
        a, b = np.asarray(self.gamma(self.p, np.array([0.0, 1e-12])), dtype=float)
        return not abs(a - b) <= 1e-8 * max(1.0, abs(a))

    def scales(self):
        g = np.asarray(self.gamma(self.p, self.D), dtype=float)
        return max(1.0, float(np.abs(self.Z).max())), max(1.0, float(np.abs(g).max()))

    # -- diagnostics ----------------------------------------------------------
    def experimental(self):
        i, j = np.triu_indices(self.n, 1)
        d = self.D[i, j]
        g = 0.5 * (self.Z[i] - self.Z[j]) ** 2
        nl = self.v["nlags"]
        lo, hi = d.min(), d.max()
        step = (hi - lo) / nl
        edges = [lo + k * step for k in range(nl)] + [hi + 0.001]
        # a pair within rounding of an inner bin edge may fall on either side
        for e in edges[1:-1]:
            if np.any(np.abs(d - e) < 1e-9 * max(1.0, hi)):
                raise Rejected("pair distance on a bin edge")
        lags, sv = [], []
        for k in range(nl):
            sel = (d >= edges[k] - 1e-12) & (d < edges[k + 1]) if k == 0 else (d >= edges[k]) & (d < edges[k + 1])
            if sel.any():
                lags.append(d[sel].mean())
                sv.append(g[sel].mean())
        return np.array(lags), np.array(sv)

    def statistics(self):
        """Sequential (ordinary) kriging cross validation."""
        delta, sigma = [], []
        for i in range(1, self.n):
            idx = np.arange(i)
            G = -np.asarray(self.gamma(self.p, self.D[:i, :i]), dtype=float)
            np.fill_diagonal(G, 0.0)
            M = np.ones((i + 1, i + 1))
            M[:i, :i] = G
            M[i, i] = 0.0
            b = np.ones(i + 1)
            d = self.D[i, :i]
            b[:i] = -np.asarray(self.gamma(self.p, d), dtype=float)
            z = np.flatnonzero(d <= 1e-10)
            if len(z):
                b[z[0]] = 0.0
            if self.pinv:
                sv = np.linalg.svd(M, compute_uv=False)
                good = sv > 1e-9 * sv[0]
                if np.any((sv > 2e-16 * sv[0]) & ~good):
                    # singular to rounding or nearly so: which, is not for the reference to say
                    if np.any((sv > 0.3 * len(sv) * 2.2e-16 * sv[0]) & ~good):
                        raise Rejected("ill-conditioned cross validation")
                c = sv[0] / sv[good][-1]
                x = np.linalg.pinv(M, rcond=1e-12) @ b
            else:
                c = np.linalg.cond(M)
                x = np.linalg.solve(M, b) if c <= COND_MAX else None
            if c > COND_MAX:
                raise Rejected("ill-conditioned cross validation")
            ss = -x @ b
            if 1e-13 < abs(ss) < 1e-7 or -1e-7 < ss < -1e-13:
                raise Rejected("cross validation variance near the cut-off")
            if c * 1e-13 * self.scales()[1] > 1e-6 * abs(ss) > 1e-19:
                raise Rejected("cross validation variance known too inaccurately")
            if ss <= 1e-10:
                continue
            delta.append(self.Z[i] - x[:i] @ self.Z[idx])
            sigma.append(np.sqrt(ss))
        delta, sigma = np.array(delta), np.array(sigma)
        eps = delta / sigma
        m = len(eps)
        with np.errstate(all="ignore"):
            q1 = abs(eps.sum() / (m - 1.0)) if m != 1 else np.nan
            q2 = (eps**2).sum() / (m - 1.0) if m != 1 else np.nan
            cr = q2 * np.exp(np.log(sigma**2).sum() / m) if m else np.nan
        return eps, q1, q2, cr
