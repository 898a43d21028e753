"""Operations on models, wrappers and grid files, as JSON-able specs."""
import copy
import os

import numpy as np

from . import gen
from .gen import r3
from .kernel import callback_point, current_task
from .util import observe

# ---------------------------------------------------------------------------
# machine-learning models for the wrappers
# ---------------------------------------------------------------------------
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin  # noqa: E402


def remembered(est, p, make):
    """What an estimator predicted for p before: the same array again."""
    key = (p.shape, p.tobytes())
    for k, a in est.last_:
        if k == key:
            return a
    a = make()
    est.last_ = (est.last_ + ((key, a),))[-4:]
    return a


class SimRegressor(RegressorMixin, BaseEstimator):
    """Least squares with simulated points in fit and predict."""

    def __init__(self, shift=0.0):
        self.shift = shift

    def fit(self, p, y):
        callback_point("reg.fit")
        A = np.column_stack([np.asarray(p, float), np.ones(len(p))])
        self.last_ = ()
        self.coef_ = np.linalg.lstsq(A, np.asarray(y, float), rcond=None)[0]
        callback_point("reg.fit.end")
        return self

    def predict(self, p):
        callback_point("reg.predict")
        A = np.column_stack([np.asarray(p, float), np.ones(len(p))])
        if not self.shift:
            return A @ self.coef_
        return remembered(self, A, lambda: A @ self.coef_ + self.shift)


class SimClassifier(ClassifierMixin, BaseEstimator):
    """Nearest-centroid soft-max classifier with simulated points."""

    def __init__(self, temp=1.0):
        self.temp = temp

    def fit(self, p, y):
        callback_point("clf.fit")
        p = np.asarray(p, float)
        y = np.asarray(y)
        self.last_ = ()
        self.classes_ = np.unique(y)
        self.cent_ = np.array([p[y == c].mean(axis=0) for c in self.classes_])
        callback_point("clf.fit.end")
        return self

    def predict_proba(self, p):
        callback_point("clf.proba")
        p = np.asarray(p, float)
        d = ((p[:, None, :] - self.cent_[None]) ** 2).sum(axis=2)
        e = np.exp(-(d - d.min(axis=1, keepdims=True)) / self.temp)
        if self.temp == 1.0:
            return e / e.sum(axis=1, keepdims=True)
        return remembered(self, p, lambda: e / e.sum(axis=1, keepdims=True))

    def predict(self, p):
        return self.classes_[self.predict_proba(p).argmax(axis=1)]


def regressor(name):
    from sklearn.linear_model import LinearRegression, Ridge
    from sklearn.neighbors import KNeighborsRegressor
    from sklearn.svm import SVR
    from sklearn.tree import DecisionTreeRegressor

    return {
        "linear": lambda: LinearRegression(), "ridge": lambda: Ridge(alpha=0.7),
        "knn": lambda: KNeighborsRegressor(n_neighbors=2), "svr": lambda: SVR(C=2.0),
        "tree": lambda: DecisionTreeRegressor(max_depth=2, random_state=0),
        "sim": lambda: SimRegressor(), "sim2": lambda: SimRegressor(0.5), "default": lambda: None,
    }[name]()


def classifier(name):
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.tree import DecisionTreeClassifier

    return {
        "gnb": lambda: GaussianNB(), "knn": lambda: KNeighborsClassifier(n_neighbors=3),
        "tree": lambda: DecisionTreeClassifier(max_depth=2, random_state=0),
        "sim": lambda: SimClassifier(), "sim2": lambda: SimClassifier(3.0),
    }[name]()


REGS = ["linear", "ridge", "knn", "svr", "tree", "sim", "sim2", "default"]
CLFS = ["gnb", "knn", "tree", "sim", "sim2"]
METHOD = {"ok": "ordinary", "uk": "universal", "ok3d": "ordinary3d", "uk3d": "universal3d"}


# ---------------------------------------------------------------------------
# wrapper specs
# ---------------------------------------------------------------------------
def gen_wrapper(rng, kind=None, sim=False, **vk):
    """A wrapper: kind krige|rk|ck with kriging settings and data."""
    kind = kind or rng.choice(["krige", "rk", "ck"])
    cls = rng.choice(["ok", "ok", "ok", "uk", "ok3d", "uk3d"])
    w = {"kind": kind, "cls": cls}
    n = rng.randint(7, 10) if cls.startswith("ok") else rng.randint(10, 12)
    vk.setdefault("gstools", False)
    m = gen.gen_model(rng, cls, geo=(cls == "ok" and rng.random() < 0.1), pinv=kind == "krige" and rng.random() < 0.6, n=n, containers=False, kinds=["float"], **vk)
    w["model"] = m
    if rng.random() < 0.06:
        w["verbose"] = True
    d = m.get("drift")
    if d is not None:
        d["terms"] = [t for t in d["terms"] if t != "specified" and not (cls == "uk3d" and t in ("external_Z", "point_log"))]
        d.pop("spec", None)
    w["nfeat"] = rng.choice([1, 2, 2, 2, 3, 5])
    w["nclose"] = rng.choice([3, 5, 10, n, n + 3])
    if kind == "rk":
        w["est"] = rng.choice(["sim", "sim2"]) if sim else rng.choice(REGS)
    if kind == "ck":
        w["est"] = rng.choice(["sim", "sim2"]) if sim else rng.choice(CLFS)
        w["labels"] = rng.choice(["int", "str", "float"])
        w["ncls"] = rng.choice([2, 2, 3, 3, 4 if n >= 9 else 3])
    w["data"] = gen_data(rng, w)
    return w


def sibling(rng, s, **vk):
    """A model or wrapper that differs from s in one respect only (or not at all)."""
    if "kind" not in s:
        return gen.sibling(rng, s, **vk)
    n = copy.deepcopy(s)
    w = rng.choice(["same", "data", "data", "v", "v", "nclose"])
    if w == "data":
        n["data"] = next_data(rng, n, n["data"])
    elif w == "v":
        n["model"]["v"] = gen.next_vario(rng, n["model"], n["model"]["v"], 0.85, gstools=False, **vk)
    elif w == "nclose":
        n["nclose"] = rng.choice([3, 4, 5, 10])
    return n


def gen_data(rng, w, n=None):
    """Feature rows, coordinates and targets for fitting."""
    m = w["model"]
    pts = [list(p) for p in m["pts"]]
    k = n or len(pts)
    pts = pts[:k]
    p = [[r3(rng.uniform(-1, 1)) for _ in range(w.get("nfeat", 2))] for _ in pts]
    d = {"p": p, "x": pts}
    y = [r3(2 * f[0] - (f[1] if len(f) > 1 else 0.0) + 0.3 * q[0] * 0.2 + rng.uniform(-0.7, 0.7)) for f, q in zip(p, pts)]
    if w["kind"] == "ck":
        order = sorted(range(len(y)), key=lambda i: y[i])
        c = [0] * len(y)
        for r, i in enumerate(order):
            c[i] = r * w["ncls"] // len(y)
        for _ in range(1):
            i, j = rng.randrange(len(y)), rng.randrange(len(y))
            c[i], c[j] = c[j], c[i]
        y = c
    d["y"] = y
    return d


def next_data(rng, w, d):
    """Data for a refit: new ones, or ones that differ from the last in one respect only."""
    r = rng.random()
    if r < 0.5:
        return gen_data(rng, w)
    n = {k: [list(a) if isinstance(a, list) else a for a in v] for k, v in d.items()}
    new = gen_data(rng, w, len(d["y"]))
    if r < 0.62 and w["kind"] != "ck":
        n["y"] = new["y"]
    elif r < 0.74:
        n["p"] = new["p"]
    elif r < 0.86:
        i = rng.randrange(len(n["y"]))
        if w["kind"] == "ck":
            j = rng.randrange(len(n["y"]))
            n["y"][i], n["y"][j] = n["y"][j], n["y"][i]
        else:
            n["y"][i] = r3(n["y"][i] + 1.5)
    elif r < 0.94:
        c = rng.randrange(len(n["x"][0]))
        for q in n["x"]:
            q[c] = r3(q[c] * 1.25 + 0.3) if not w["model"]["geo"] else q[c]
    return n


LABELS = {"int": [3, 7, 11, -2], "str": ["clay", "gravel", "sand", "silt"], "float": [0.5, 1.5, 2.5, 0.25]}


def targets(w, y):
    if w["kind"] == "ck":
        return np.array([LABELS[w["labels"]][c] for c in y]).reshape(-1, 1)
    return np.array(y, dtype=float)


def gen_where(rng, w, k=None):
    """Prediction locations with features."""
    k = k or rng.choice([1, 2, 3, 3, 3, 4, 5])
    pts = gen.gen_points(rng, w["model"], k)
    at = {"p": [[r3(rng.uniform(-1, 1)) for _ in range(w.get("nfeat", 2))] for _ in pts], "x": pts}
    if rng.random() < 0.5:
        at["buf"] = rng.choice([["p", "x"], ["p"], ["x"]])
    return at


def wrapper_kwargs(w):
    m = w["model"]
    _, kw = gen.ctor_args(m)
    out = {"method": METHOD[w["cls"]], "n_closest_points": w["nclose"],
           "variogram_parameters": None, "variogram_function": None, "exact_values": True, "drift_terms": None, "point_drift": None,
           "functional_drift": None, "coordinates_type": "euclidean", "enable_statistics": False, "ext_drift_grid": (None, None, None)}
    for k in ("variogram_model", "variogram_parameters", "variogram_function", "nlags", "weight", "exact_values", "drift_terms", "point_drift", "functional_drift", "coordinates_type", "enable_statistics"):
        if k in kw:
            out[k] = kw[k]
    if w["kind"] == "krige":
        out["pseudo_inv"], out["pseudo_inv_type"] = kw.get("pseudo_inv", False), kw.get("pseudo_inv_type", "pinv")
    out["verbose"] = bool(w.get("verbose"))
    if "external_drift" in kw:
        out["ext_drift_grid"] = (kw["external_drift"], kw["external_drift_x"], kw["external_drift_y"])
    a = m["v"].get("aniso") or {}
    if w["cls"].endswith("3d"):
        out["anisotropy_scaling"] = (a.get("anisotropy_scaling_y", 1.0), a.get("anisotropy_scaling_z", 1.0))
        out["anisotropy_angle"] = (a.get("anisotropy_angle_x", 0.0), a.get("anisotropy_angle_y", 0.0), a.get("anisotropy_angle_z", 0.0))
    else:
        out["anisotropy_scaling"] = (a.get("anisotropy_scaling", 1.0), 1.0)
        out["anisotropy_angle"] = (a.get("anisotropy_angle", 0.0), 0.0, 0.0)
    return out


def make_wrapper(w):
    kw = wrapper_kwargs(w)
    if w["kind"] == "krige":
        from pykrige.compat import Krige

        return Krige(**kw)
    if w["kind"] == "rk":
        from pykrige.rk import RegressionKriging

        return RegressionKriging(regression_model=regressor(w["est"]), **kw)
    from pykrige.ck import ClassificationKriging

    return ClassificationKriging(classification_model=classifier(w["est"]), **kw)


def put(bufs, key, a):
    """The values in the caller's own array of that name, which is used again
    and again and overwritten in place."""
    if bufs is None:
        return a
    key = (key, a.shape, a.dtype.str)
    if key in bufs:
        bufs[key][...] = a
    else:
        bufs[key] = a
    return bufs[key]


def wfit(o, w, d, bufs=None):
    x, y = np.array(d["x"], dtype=float), targets(w, d["y"])
    if w["kind"] == "krige":
        o.fit(x, y)
    else:
        o.fit(np.array(d["p"], dtype=float), x, y)
    return None


def wpredict(o, w, at, bufs=None, **kw):
    own = at.get("buf") or []
    x = put(bufs if "x" in own else None, "x", np.array(at["x"], dtype=float))
    if w["kind"] == "krige":
        return o.predict(x)
    return o.predict(put(bufs if "p" in own else None, "p", np.array(at["p"], dtype=float)), x, **kw)


def wscore(o, w, d):
    x, y = np.array(d["x"], dtype=float), targets(w, d["y"])
    if w["kind"] == "krige":
        return o.score(x, y)
    return o.score(np.array(d["p"], dtype=float), x, y)


# ---------------------------------------------------------------------------
# grid files
# ---------------------------------------------------------------------------
def gen_grid(rng, fmt=None, big=0.08, huge=0.0):
    g = {"fmt": fmt or rng.choice(["asc1", "asc2", "zmap"])}
    nx, ny = rng.randint(2, 6), rng.randint(2, 6)
    if rng.random() < big:
        nx, ny = rng.randint(8, 40), rng.randint(8, 30)
    elif rng.random() < 0.15:
        nx, ny = rng.choice([(5, 10), (2, 5), (7, 5), (3, 15), (2, 11)])
    if huge and rng.random() < huge:
        nx, ny = rng.choice([(rng.randint(1001, 1300), 2), (2, rng.randint(1001, 1300)), (rng.randint(200, 700), rng.randint(2, 4))])
    dx = rng.choice([1.0, 0.5, 2.0, 10.0, 0.25, 2.5, 30.0, 0.1, 1 / 3.0])
    dy = dx if g["fmt"] == "asc2" else rng.choice([dx, 1.0, 0.5, 3.0, 12.5])
    g["x0"] = rng.choice([0.0, 1.5, -3.25, 500000.123456, 1e-3, -20.0, 4321987.5])
    g["y0"] = rng.choice([0.0, 2.0, -7.125, 5400000.654321, -0.3])
    if g["fmt"] == "asc2":
        # equal steps are required exactly
        g["x0"], g["y0"] = rng.choice([0.0, 1.5, -3.25, -20.0, 4321987.5]), rng.choice([0.0, 2.0, -7.125])
        dx = dy = rng.choice([1.0, 0.5, 2.0, 10.0, 0.25, 2.5, 30.0])
    g["dx"], g["dy"], g["nx"], g["ny"] = dx, dy, nx, ny
    mag = rng.choice([1.0, 100.0, 1e4, 1e7, 1e10, 1e14]) if rng.random() < 0.4 else 10.0
    g["z"] = [[round(rng.uniform(-mag, mag), 4) for _ in range(nx)] for _ in range(ny)]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        g["z"][rng.randrange(ny)][rng.randrange(nx)] = rng.choice([0.0, -0.0, 1e-9, -1e-7, 1e101, -3e120, 999999.99996, 1e6, -1e6, 123456789012.0, 1e5, -99999.995])
    g["kind"] = rng.choice(["float"] * 8 + ["int", "f32"])
    if g["kind"] == "int":
        g["z"] = [[int(max(min(v, 1e15), -1e15)) for v in row] for row in g["z"]]
    if g["kind"] == "f32":
        g["z"] = [[max(min(v, 1e30), -1e30) for v in row] for row in g["z"]]
    g["mask"] = [[int(rng.random() < 0.25) for _ in range(nx)] for _ in range(ny)] if rng.random() < 0.4 else None
    g["nan"] = [rng.randrange(ny), rng.randrange(nx)] if g["fmt"] == "zmap" and rng.random() < 0.3 and g["kind"] != "int" else None
    g["under"] = rng.choice([None, None, 1e30, "nan"]) if g["kind"] == "float" else None
    g["no_data"] = rng.choice([-999.0, -9999.0, -1.0, 1e6, -999, -99999, 0.0, 1e30, -32768.5])
    g["coord_sys"] = rng.choice(["<null>", "EPSG:4326", "UTM zone 33 / WGS84", "a: b: c", "PROJCS[\"x\"]"]) if g["fmt"] == "zmap" else None
    g["xc"] = rng.choice(["array", "array", "list", "column", "matrix"])
    g["zc"] = rng.choice(["array", "array", "array", "list", "fortran", "view"])
    return g


def grid_args(g):
    x = g["x0"] + g["dx"] * np.arange(g["nx"])
    y = g["y0"] + g["dy"] * np.arange(g["ny"])
    z = np.array(g["z"])
    if g.get("kind") == "f32":
        z = z.astype(np.float32)
    if g["nan"] is not None:
        z = z.astype(z.dtype if z.dtype.kind == "f" else float)
        z[g["nan"][0], g["nan"][1]] = np.nan
    if g["mask"] is not None:
        mk = np.array(g["mask"], dtype=bool)
        if g.get("under") is not None:
            z[mk] = float(g["under"])
        z = np.ma.array(z, mask=mk)
    zc = g.get("zc")
    if zc == "fortran":
        z = z.copy(order="F")
    elif zc == "view":
        big = np.ma.zeros((z.shape[0] * 2, z.shape[1] + 3), dtype=z.dtype) if g["mask"] is not None else np.zeros((z.shape[0] * 2, z.shape[1] + 3), dtype=z.dtype)
        big[::2, 2:-1] = z
        z = big[::2, 2:-1]
    elif zc == "list" and g["mask"] is None:
        z = z.tolist()
    xc = g.get("xc")
    if xc == "list":
        x, y = x.tolist(), y.tolist()
    elif xc == "column":
        x, y = x[:, None], y[:, None]
    elif xc == "matrix":
        x, y = x[None, :], y[None, :]
    return x, y, z


def write_grid(g, path):
    import pykrige.kriging_tools as kt

    x, y, z = grid_args(g)
    if g["fmt"] == "zmap":
        return kt.write_zmap_grid(x, y, z, filename=path, no_data=g["no_data"], coord_sys=g["coord_sys"])
    return kt.write_asc_grid(x, y, z, filename=path, no_data=g["no_data"], style=int(g["fmt"][-1]))


def read_grid(fmt, path):
    import pykrige.kriging_tools as kt

    return kt.read_zmap_grid(path) if fmt == "zmap" else kt.read_asc_grid(path)


def expected_grid(g):
    """What reading the file back must give: (values, tolerance per cell, x, y, (dx, dy), no_data)."""
    x, y, z = grid_args(dict(g, xc="array", zc="array"))
    v = np.array(np.ma.getdata(z), dtype=float)
    if g["mask"] is not None:
        v[np.array(g["mask"], dtype=bool)] = g["no_data"]
    v[np.isnan(v)] = g["no_data"]
    a = np.abs(v)
    if g["fmt"] == "zmap":
        tol = np.where(a >= 1e6 * 0.999999, a * 6e-8, 5.1e-5)
    else:
        tol = np.maximum(0.00501, a * 1e-15)
    if g.get("kind") == "f32":
        tol = tol + a * 1e-7
    return v, tol, x, y, (g["dx"], g["dy"]), float(g["no_data"])


# ---------------------------------------------------------------------------
# the world: numbered objects and operations on them
# ---------------------------------------------------------------------------
class World:
    def __init__(self, root=None):
        self.o = {}        # slot -> object
        self.s = {}        # slot -> spec
        self.v = {}        # slot -> current variogram settings (models)
        self.d = {}        # slot -> data of the last completed fit (wrappers)
        self.root = root
        self.bufs = {}     # slot -> the caller's arrays that are used again

    def buf(self, slot):
        t = current_task()
        return self.bufs.setdefault((slot, t.id if t else None), {})

    def make(self, slot, spec):
        if "kind" in spec:
            self.o[slot] = o = make_wrapper(spec)
            self.s[slot] = spec
            if spec.get("fit", True):
                wfit(o, spec, spec["data"])
                self.d[slot] = spec["data"]
        else:
            # (what the slot held stays there if the object cannot be built)
            self.o[slot] = gen.build(spec)
            self.s[slot] = spec
            self.v[slot] = spec["v"]

    def path(self, f):
        return os.path.join(self.root, f)

    def run(self, op):
        return observe(lambda: self.do(op))

    def do(self, op):
        k = op["op"]
        m = op.get("m")
        if k == "new":
            self.make(m, op["spec"])
            return None
        if k == "bad_new":
            return bad_new(op["spec"], op["how"])
        if k == "write":
            return write_grid(op["g"], self.path(op["f"]))
        if k == "read":
            return list(read_grid(op["fmt"], self.path(op["f"])))
        ob, sp = self.o[m], self.s[m]
        if k == "query":
            return list(gen.ask(ob, sp, op["q"], self.buf(m)))
        if k == "update":
            gen.update(ob, op["v"])
            self.v[m] = op["v"]
            return None
        if k == "bad_query":
            if op["how"] == "strip":
                # a call that leaves out what an earlier one gave
                pos, kw = gen.query_args(sp, op["q"])
                return list(ob.execute(*pos, **{k: a for k, a in kw.items() if k not in op["drop"]}))
            return bad_query(ob, sp, op["how"])
        if k == "bad_update":
            return bad_update(ob, sp, op["how"])
        if k == "stats":
            out = list(ob.get_statistics())
            out.append(np.array(ob.get_epsilon_residuals()))
            return out
        if k == "vpoints":
            out = [np.array(ob.lags), np.array(ob.semivariance), np.array(ob.variogram_model_parameters, dtype=float)]
            if hasattr(ob, "get_variogram_points"):
                out += [np.array(a) for a in ob.get_variogram_points()]
            return out
        if k == "print_stats":
            return ob.print_statistics()
        if k == "plot_vario":
            return ob.display_variogram_model()
        if k == "plot_eps":
            return ob.plot_epsilon_residuals()
        if k == "sw_verbose":
            return ob.switch_verbose()
        if k == "sw_plot":
            return ob.switch_plotting()
        if k == "fit":
            wfit(ob, sp, op["d"])
            self.d[m] = op["d"]
            return None
        if k == "predict":
            return wpredict(ob, sp, op["at"], self.buf(m))
        if k == "score":
            return wscore(ob, sp, op["d"])
        raise KeyError(k)


def bad_query(ob, sp, how):
    dim = len(sp["pts"][0])
    one = [[1.0, 2.0]] * dim
    if how == "style":
        return ob.execute("circle", *one)
    if how == "mismatch":
        return ob.execute("points", [1.0, 2.0, 3.0], *one[1:])
    if how == "mask_missing":
        return ob.execute("masked", *one)
    if how == "mask_shape":
        return ob.execute("masked", *one, mask=np.zeros([5] * dim, dtype=bool))
    if how == "backend":
        return ob.execute("points", *one, backend="fortran")
    if how == "window_one":
        return ob.execute("points", *one, n_closest_points=1)
    if how == "strings":
        return ob.execute("points", *([["a", "b"]] * dim))
    raise KeyError(how)


BAD_QUERY = ["style", "mismatch", "mask_missing", "mask_shape", "backend", "strings"]


def bad_update(ob, sp, how):
    if how == "name":
        return ob.update_variogram_model("quadratic")
    if how == "len":
        return ob.update_variogram_model("spherical", variogram_parameters=[1.0, 2.0])
    if how == "key":
        return ob.update_variogram_model("gaussian", variogram_parameters={"sill": 1.0, "range": 2.0})
    if how == "type":
        return ob.update_variogram_model("power", variogram_parameters=(1.0, 1.0, 0.0))
    if how == "nofunc":
        return ob.update_variogram_model("custom", variogram_parameters=[1.0])
    if how == "notcallable":
        return ob.update_variogram_model("custom", variogram_parameters=[1.0], variogram_function="f")
    if how == "noparams":
        return ob.update_variogram_model("custom", variogram_function=gen.c_exp)
    if how == "aniso_len":
        kw = {"anisotropy_scaling_y": 2.3, "anisotropy_angle_x": 31.0} if sp["cls"].endswith("3d") else {"anisotropy_scaling": 2.3, "anisotropy_angle": 31.0}
        return ob.update_variogram_model("linear", variogram_parameters=[1.0, 2.0, 3.0], **kw)
    if how == "aniso_type":
        kw = {"anisotropy_angle_x": "east"} if sp["cls"].endswith("3d") else {"anisotropy_angle": "east"}
        return ob.update_variogram_model("linear", variogram_parameters=[1.0, 0.2], **kw)
    if how == "nlags0":
        return ob.update_variogram_model("linear", nlags=0)
    if how == "badcallback":
        def boom(p, d):
            raise RuntimeError("user function failed")
        kw = {"anisotropy_scaling_y": 1.9} if sp["cls"].endswith("3d") else {"anisotropy_scaling": 1.9}
        return ob.update_variogram_model("custom", variogram_parameters=[1.0], variogram_function=boom, **kw)
    if how == "shape":
        return ob.update_variogram_model("custom", variogram_parameters=[1.0], variogram_function=lambda p, d: np.zeros(3))
    raise KeyError(how)


BAD_UPDATE = ["name", "len", "key", "type", "nofunc", "notcallable", "noparams", "aniso_len", "aniso_type", "nlags0", "badcallback", "shape"]


def bad_new(spec, how):
    """A construction that is to be refused (late where possible)."""
    s = copy.deepcopy(spec)
    kw = {}
    if how == "name":
        kw = {"variogram_model": "quadratic"}
    elif how == "len":
        kw = {"variogram_model": "spherical", "variogram_parameters": [1.0, 2.0]}
    elif how == "key":
        kw = {"variogram_model": "gaussian", "variogram_parameters": {"sill": 1.0, "nugget": 0.1}}
    elif how == "nofunc":
        kw = {"variogram_model": "custom", "variogram_parameters": [1.0, 1.0], "variogram_function": None}
    elif how == "noparams":
        kw = {"variogram_model": "custom", "variogram_parameters": None, "variogram_function": gen.VARIO[sorted(gen.VARIO)[0]]}
    elif how == "pinv":
        kw = {"pseudo_inv_type": "none"}
    elif how == "exact":
        kw = {"exact_values": "yes"}
    elif how == "short":
        s["vals"] = s["vals"][:-1]
    elif how == "text":
        s["vals"] = ["x"] * len(s["vals"])
    return gen.build(s, **kw)


BAD_NEW = ["name", "len", "key", "nofunc", "noparams", "pinv", "exact", "short", "text"]


def gen_new(rng, slot, spec, v):
    """Another object in the place of one, or an attempt at it."""
    cur = dict(spec, v=v)
    if rng.random() < 0.3:
        return {"op": "bad_new", "m": slot, "spec": cur, "how": rng.choice(BAD_NEW)}
    return {"op": "new", "m": slot, "spec": gen.sibling(rng, cur) if rng.random() < 0.7 else gen.gen_model(rng)}


def gen_strip(rng, slot, q):
    some = ["mask", "specified_drift_arrays", "n_closest_points", "backend"]
    return {"op": "bad_query", "m": slot, "how": "strip", "q": q, "drop": [k for k in some if rng.random() < 0.7] or ["backend"]}


def gen_op(rng, slot, spec, v, kinds):
    """One operation on an object; returns the op."""
    k = rng.choice(kinds)
    if k == "new":
        return gen_new(rng, slot, spec, v)
    if k == "query":
        return {"op": "query", "m": slot, "q": gen.gen_query(rng, spec, v)}
    if k == "update":
        return {"op": "update", "m": slot, "v": gen.next_vario(rng, spec, v)}
    if k == "bad_query":
        if rng.random() < 0.3:
            return gen_strip(rng, slot, gen.gen_query(rng, spec, v))
        h = rng.choice(BAD_QUERY + (["window_one"] if spec["cls"].startswith("ok") else []))
        return {"op": "bad_query", "m": slot, "how": h}
    if k == "bad_update":
        return {"op": "bad_update", "m": slot, "how": rng.choice([h for h in BAD_UPDATE if not (spec["geo"] and h == "aniso_type")])}
    return {"op": k, "m": slot}


def valid(spec, v=None):
    """Whether a model with this spec is well conditioned (cheap, reference-based)."""
    from . import ref

    v = v or spec["v"]
    if v["params"] is None and v["model"] != "gstools":
        return True
    r = ref.Ref(spec, v)
    try:
        return r.cond() < ref.COND_MAX
    except Exception:
        return True


def rng_users(plan):
    """State that the third-party estimators in a plan are allowed to change
    (libsvm draws its seed from numpy's global generator)."""
    t = repr(plan)
    return ("numpy.random",) if "'svr'" in t or "'default'" in t else ()
