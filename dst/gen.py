"""Seeded generation of models, settings and queries, as JSON-able specs, and
the functions that turn specs into calls of the real code."""
import copy
import math
import sys

import numpy as np

from .kernel import callback_point

# ---------------------------------------------------------------------------
# user callbacks (module level, so that they can be pickled)
# ---------------------------------------------------------------------------
REENTER = []          # callables run inside a re-entrant callback


def c_exp(p, d):
    callback_point("c_exp")
    return p[0] * (1.0 - np.exp(-d / p[1])) + p[2]


def c_lin(p, d):
    callback_point("c_lin")
    return p[0] * d + p[1]


def c_pow(p, d):
    callback_point("c_pow")
    return p[0] * d ** p[1] + p[2]


def c_two(p, d):
    """Two nested structures; five parameters."""
    callback_point("c_two")
    return p[0] * (1.0 - np.exp(-d / p[1])) + p[2] * (1.0 - np.exp(-d / p[3])) + p[4]


def c_reent(p, d):
    callback_point("c_reent")
    for f in list(REENTER):
        f()
    return p[0] * (1.0 - np.exp(-d / p[1])) + p[2]


def spherical_variogram_model(p, d):
    """A custom function that carries the name of a built-in one."""
    callback_point("c_named")
    return p[0] * (1.0 - np.exp(-d / p[1])) + p[2]


class CallableVario:
    """A callable object without __name__."""

    def __init__(self, k):
        self.k = k

    def __call__(self, p, d):
        callback_point("c_obj")
        return p[0] * (1.0 - np.exp(-self.k * d / p[1])) + p[2]


VARIO = {
    "c_exp": c_exp, "c_lin": c_lin, "c_pow": c_pow, "c_two": c_two,
    "c_reent": c_reent, "c_named": spherical_variogram_model, "c_obj": CallableVario(1.7),
}
VARIO_REF = {
    "c_exp": lambda p, d: p[0] * (1.0 - np.exp(-d / p[1])) + p[2],
    "c_lin": lambda p, d: p[0] * d + p[1],
    "c_pow": lambda p, d: p[0] * d ** p[1] + p[2],
    "c_two": lambda p, d: p[0] * (1.0 - np.exp(-d / p[1])) + p[2] * (1.0 - np.exp(-d / p[3])) + p[4],
    "c_reent": lambda p, d: p[0] * (1.0 - np.exp(-d / p[1])) + p[2],
    "c_named": lambda p, d: p[0] * (1.0 - np.exp(-d / p[1])) + p[2],
    "c_obj": lambda p, d: p[0] * (1.0 - np.exp(-1.7 * d / p[1])) + p[2],
}


def f_x2(x, y):
    callback_point("f_x2")
    return 0.05 * x * x


def f_xy(x, y):
    callback_point("f_xy")
    return 0.05 * x * y


def f_siny(x, y):
    callback_point("f_siny")
    return np.sin(y)


def f_one(x, y):
    """Works for arrays and for scalars."""
    callback_point("f_one")
    return np.cos(0.7 * x) + 0.0 * y


def g_x2(x, y, z):
    callback_point("g_x2")
    return 0.05 * x * x


def g_yz(x, y, z):
    callback_point("g_yz")
    return 0.05 * y * z


def g_sinz(x, y, z):
    callback_point("g_sinz")
    return np.sin(z)


FUNC2 = {"f_x2": f_x2, "f_xy": f_xy, "f_siny": f_siny, "f_one": f_one}
FUNC3 = {"g_x2": g_x2, "g_yz": g_yz, "g_sinz": g_sinz}
FUNC_REF = {
    "f_x2": lambda x, y: 0.05 * x * x,
    "f_xy": lambda x, y: 0.05 * x * y,
    "f_siny": lambda x, y: np.sin(y),
    "f_one": lambda x, y: np.cos(0.7 * x) + 0.0 * y,
    "g_x2": lambda x, y, z: 0.05 * x * x,
    "g_yz": lambda x, y, z: 0.05 * y * z,
    "g_sinz": lambda x, y, z: np.sin(z),
}

# specified drift: value of term k at a location (any deterministic function)
SPEC = [
    lambda x, y, z=0.0: np.sin(0.9 * x) + 0.3 * y + 0.1 * z,
    lambda x, y, z=0.0: np.cos(0.8 * y) - 0.2 * x * 0.5 + 0.2 * z,
    lambda x, y, z=0.0: np.sin(1.3 * x * 0.7 + y) + 0.05 * z,
]

BUILTIN = ["linear", "power", "gaussian", "spherical", "exponential", "hole-effect"]


def r3(v):
    return round(float(v), 3)


def is3(cls):
    return cls.endswith("3d")


# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------
def gen_coords(rng, n, dim, kind, far=False):
    """n locations, at least 0.35 apart (1 apart on the integer lattice)."""
    pts = []
    if kind == "int":
        side = max(4, int(math.ceil((n * 3) ** (1.0 / dim))))
        seen = set()
        while len(pts) < n:
            p = tuple(rng.randrange(side + 3) for _ in range(dim))
            if p not in seen:
                seen.add(p)
                pts.append([int(v) for v in p])
        return pts
    size = 6.0
    off = [rng.choice([0.0, 0.0, 0.0, -3.0, 20.0]) for _ in range(dim)]
    if far:
        # map coordinates
        off = [rng.choice([450000.0, 120000.0, 20.0]) for _ in range(dim)]
    tries = 0
    while len(pts) < n:
        p = [r3(off[k] + rng.uniform(0, size)) for k in range(dim)]
        tries += 1
        if tries > 4000:
            size *= 1.5
            tries = 0
        if all(sum((a - b) ** 2 for a, b in zip(p, q)) > 0.35**2 for q in pts):
            pts.append(p)
    return pts


def gen_geo(rng, n):
    pts = []
    mode = rng.choice(["global", "dateline", "regional"])
    tries = 0
    while len(pts) < n:
        tries += 1
        if tries > 4000:
            # no room left
            mode = "global"
        if mode == "global":
            p = [r3(rng.uniform(-180, 360)), r3(rng.uniform(-85, 85))]
        elif mode == "dateline":
            p = [r3(rng.uniform(165, 195)), r3(rng.uniform(-30, 30))]
        else:
            p = [r3(rng.uniform(0, 30)), r3(rng.uniform(30, 60))]
        ok = True
        for q in pts:
            c = math.sin(math.radians(p[1])) * math.sin(math.radians(q[1])) + math.cos(math.radians(p[1])) * math.cos(
                math.radians(q[1])) * math.cos(math.radians(p[0] - q[0]))
            if math.degrees(math.acos(max(-1, min(1, c)))) < 2.0:
                ok = False
        if ok:
            pts.append(p)
    return pts


def gen_params(rng, model, span=4.0):
    """Explicit parameters of a built-in model as {'list': ...} or {'dict': ...}."""
    nug = rng.choice([0.0, 0.0, r3(rng.uniform(0.05, 0.6)), r3(rng.uniform(0.3, 1.0))])
    if model == "linear":
        s = r3(rng.uniform(0.3, 2.0))
        return {"list": [s, nug]} if rng.random() < 0.5 else {"dict": {"slope": s, "nugget": nug}}
    if model == "power":
        s, e = r3(rng.uniform(0.3, 2.0)), r3(rng.uniform(0.5, 1.6))
        return {"list": [s, e, nug]} if rng.random() < 0.5 else {"dict": {"scale": s, "exponent": e, "nugget": nug}}
    if model in ("gaussian", "hole-effect"):
        nug = r3(rng.uniform(0.1, 0.8))
        span = span * 0.6
    ps, ra = r3(rng.uniform(0.5, 4.0)), r3(rng.uniform(0.4, 1.6) * span)
    k = rng.randrange(3)
    if k == 0:
        return {"list": [r3(ps + nug), ra, nug]}
    if k == 1:
        return {"dict": {"sill": r3(ps + nug), "range": ra, "nugget": nug}}
    return {"dict": {"psill": ps, "range": ra, "nugget": nug}}


def gen_int_params(rng, model):
    if model == "linear":
        return {"list": [rng.randint(1, 3), rng.randint(0, 1)]}
    if model == "power":
        return {"list": [rng.randint(1, 3), 1, rng.randint(0, 1)]}
    nug = rng.randint(0, 1) if model not in ("gaussian", "hole-effect") else 1
    return {"list": [rng.randint(2, 5) + nug, rng.randint(2, 5), nug]}


def gen_vario(rng, cls, geo=False, custom=True, gstools=True, auto=True, aniso=True, builtin_only=False, funcs=None):
    """Variogram settings (what update_variogram_model takes)."""
    dim = 3 if is3(cls) else 2
    span = 40.0 if geo else 4.0
    v = {"nlags": rng.choice([6, 6, 4, 5, 8, 10]) if rng.random() < 0.92 else rng.choice([2, 15, 30]), "weight": rng.random() < 0.3, "params": None}
    r = rng.random()
    if builtin_only:
        r = 0.99
    if custom and r < 0.2:
        f = rng.choice(funcs or ["c_exp", "c_lin", "c_pow", "c_two", "c_named", "c_obj"])
        v["model"] = "custom"
        v["func"] = f
        nug = rng.choice([0.0, r3(rng.uniform(0.05, 0.5))])
        v["params"] = {"list": {
            "c_lin": [r3(rng.uniform(0.3, 2)), nug],
            "c_pow": [r3(rng.uniform(0.3, 2)), r3(rng.uniform(0.6, 1.5)), nug],
            "c_two": [r3(rng.uniform(0.5, 2)), r3(0.3 * span), r3(rng.uniform(0.5, 2)), r3(span), nug],
        }.get(f, [r3(rng.uniform(0.5, 3)), r3(rng.uniform(0.4, 1.6) * span), nug])}
    elif gstools and r < 0.3:
        v["model"] = "gstools"
        k = rng.choice(["Exponential", "Spherical", "Matern", "Stable"])
        g = {"type": k, "dim": dim, "var": r3(rng.uniform(0.5, 3)), "nugget": rng.choice([0.0, r3(rng.uniform(0.1, 0.5))])}
        if geo:
            g["latlon"] = True
            g["len_scale"] = r3(rng.uniform(0.2, 0.8))
            g["dim"] = 3 if False else 2
        else:
            g["latlon"] = False
            g["len_scale"] = r3(rng.uniform(1.0, 5.0))
            if rng.random() < 0.6:
                g["anis"] = [r3(rng.uniform(0.4, 1.0)) for _ in range(dim - 1)]
                g["angles"] = [r3(rng.uniform(-1.5, 1.5)) for _ in range(1 if dim == 2 else 3)]
        v["gs"] = g
    else:
        m = rng.choice(BUILTIN)
        v["model"] = m
        if auto and rng.random() < 0.35:
            v["params"] = None
        elif rng.random() < 0.12:
            v["params"] = gen_int_params(rng, m)
            if geo:
                v["params"] = gen_params(rng, m, span)
        else:
            v["params"] = gen_params(rng, m, span)
    # (anisotropy of geographic models is accepted and ignored)
    if aniso and v["model"] != "gstools" and rng.random() < (0.2 if geo else 0.55):
        if dim == 2:
            v["aniso"] = {"anisotropy_scaling": rng.choice([r3(rng.uniform(0.4, 3.0)), 2, 1.0]), "anisotropy_angle": rng.choice([r3(rng.uniform(-170, 170)), 45, 0.0])}
        else:
            v["aniso"] = {
                "anisotropy_scaling_y": r3(rng.uniform(0.5, 2.5)), "anisotropy_scaling_z": r3(rng.uniform(0.5, 2.5)),
                "anisotropy_angle_x": r3(rng.uniform(-80, 80)), "anisotropy_angle_y": rng.choice([0.0, r3(rng.uniform(-80, 80))]),
                "anisotropy_angle_z": rng.choice([0.0, r3(rng.uniform(-80, 80))]),
            }
            for k in list(v["aniso"]):
                if rng.random() < 0.3:
                    del v["aniso"][k]
    return v


FAMILY = [("linear",), ("power",), ("gaussian", "hole-effect"), ("spherical", "exponential")]
ANISO = {2: ["anisotropy_scaling", "anisotropy_angle"],
         3: ["anisotropy_scaling_y", "anisotropy_scaling_z", "anisotropy_angle_x", "anisotropy_angle_y", "anisotropy_angle_z"]}


def other_form(v):
    """The same parameters of a model given as a list instead of a dict or the other way round."""
    p, m = v["params"], v["model"]
    if p is None or m not in BUILTIN:
        return p
    three = m in ("gaussian", "spherical", "exponential", "hole-effect")
    if "list" in p:
        k = ["slope", "nugget"] if m == "linear" else ["scale", "exponent", "nugget"] if m == "power" else ["sill", "range", "nugget"]
        return {"dict": dict(zip(k, p["list"]))}
    d = p["dict"]
    if m == "linear":
        return {"list": [d["slope"], d["nugget"]]}
    if m == "power":
        return {"list": [d["scale"], d["exponent"], d["nugget"]]}
    if three and "psill" in d:
        return {"dict": {"sill": d["psill"] + d["nugget"], "range": d["range"], "nugget": d["nugget"]}}
    return {"list": [d["sill"], d["range"], d["nugget"]]}


def next_vario(rng, s, v, p_delta=0.6, **vk):
    """Settings for an update of a model whose settings are v: new ones, or ones
    that differ in as little as possible from them (or not at all)."""
    cls, geo = s["cls"], s["geo"]
    if rng.random() > p_delta:
        return gen_vario(rng, cls, geo, **vk)
    n = dict(v)
    n.pop("inplace", None)
    dim = 3 if is3(cls) else 2
    aniso_ok = not geo and v["model"] != "gstools"
    whats = ["same", "nlags", "weight", "params", "params", "model"] + (["aniso"] * 4 if aniso_ok else ["aniso"] if geo and v["model"] != "gstools" else [])
    w = rng.choice(whats)
    if w in ("nlags", "weight"):
        if w == "nlags" or rng.random() < 0.3:
            n["nlags"] = rng.choice([k for k in (3, 4, 5, 6, 7, 8, 10, 12) if k != v["nlags"]])
        if w == "weight" or rng.random() < 0.3:
            n["weight"] = not v["weight"]
    elif w == "params":
        if v["model"] == "gstools":
            g = dict(v["gs"])
            k = rng.choice(["var", "nugget", "len_scale", "anis", "anis", "angles", "angles"])
            if k not in g:
                k = "var"
            if k in ("anis", "angles"):
                # the very object that was given before may be changed and given again
                n["inplace"] = rng.random() < 0.6
                a = list(g[k])
                i = rng.randrange(len(a))
                a[i] = r3(rng.uniform(0.4, 1.0)) if k == "anis" else r3(rng.uniform(-1.5, 1.5))
                g[k] = a
            else:
                g[k] = r3(g[k] * rng.uniform(1.1, 1.8) + 0.05)
            n["gs"] = g
        elif v["params"] is None:
            if rng.random() < 0.5 and v["model"] in BUILTIN:
                n["params"] = gen_params(rng, v["model"], 40.0 if geo else 4.0)
        else:
            r = rng.random()
            if r < 0.2 and vk.get("auto", True) and v["model"] in BUILTIN and len(s["vals"]) >= 5:
                n["params"] = None
            elif r < 0.35:
                n["params"] = other_form(v)
            else:
                kind = "list" if "list" in v["params"] else "dict"
                p = v["params"][kind]
                p = list(p) if kind == "list" else dict(p)
                i = rng.randrange(len(p)) if kind == "list" else rng.choice(sorted(p))
                f = rng.choice([1.2, 1.001, 0.9])
                if v["model"] in ("power", "custom") and (i == 1 or i == "exponent"):
                    f = rng.choice([1.05, 0.95])
                if v["model"] not in ("gaussian", "hole-effect") and (i in ("nugget",) or (kind == "list" and i == len(p) - 1)) and not v["model"] == "custom":
                    p[i] = r3(p[i] * 0.5) if p[i] else p[i]
                else:
                    p[i] = r3(p[i] * max(f, 1.0)) if i in (0, "sill", "psill", "slope", "scale") else r3(p[i] * f)
                n["params"] = {kind: p}
    elif w == "model":
        if v["model"] in BUILTIN:
            if v["params"] is None:
                n["model"] = rng.choice(BUILTIN)
            else:
                n["model"] = rng.choice([m for f in FAMILY if v["model"] in f for m in f])
        elif v["model"] == "gstools":
            n["gs"] = dict(v["gs"], type=rng.choice(["Exponential", "Spherical", "Matern", "Stable"]))
        elif v["model"] == "custom" and v["func"] in ("c_exp", "c_named", "c_obj"):
            n["func"] = rng.choice(["c_exp", "c_named", "c_obj"])
    elif w == "aniso":
        a = dict(v.get("aniso") or {})
        k = rng.choice(ANISO[dim])
        tiny = rng.random() < 0.3
        if "scaling" in k:
            a[k] = round(a.get(k, 1.0) * rng.choice([1.002, 0.997, 1.0004]), 6) if tiny else r3(rng.uniform(0.4, 2.5))
        else:
            a[k] = r3(a.get(k, 0.0) + rng.choice([0.3, -0.4, 0.05, 360.0])) if tiny else rng.choice([r3(rng.uniform(-80, 80)), r3(rng.uniform(-80, 80)), 0.0, -a.get(k, 35.0)])
            # a rotation is only seen together with a scaling
            o = [x for x in ANISO[dim] if "scaling" in x]
            if all(a.get(x, 1.0) == 1.0 for x in o):
                a[rng.choice(o)] = r3(rng.uniform(1.4, 2.5))
        if rng.random() < 0.1:
            a = {}
        if a:
            n["aniso"] = a
        else:
            n.pop("aniso", None)
    return n


def gen_model(rng, cls=None, geo=None, pinv=True, n=None, drifts=None, kinds=None, containers=True, **vk):
    cls = cls or rng.choice(["ok", "ok", "ok", "uk", "uk", "ok3d", "uk3d"])
    dim = 3 if is3(cls) else 2
    if geo is None:
        geo = cls == "ok" and rng.random() < 0.2
    if cls != "ok":
        geo = False
    s = {"cls": cls, "geo": geo, "kw": {}}
    if n is None:
        n = rng.randint(5, 10) if cls.startswith("ok") else rng.randint(8, 12)
        r = rng.random()
        if r < 0.04:
            n = rng.choice([2, 3, 4]) if cls.startswith("ok") else n
        elif r < 0.06:
            n = rng.choice([25, 40, 60])
        elif r < 0.063:
            n = rng.choice([110, 150, 260])
    if geo:
        pts = gen_geo(rng, n)
        kind = "float"
    else:
        kind = rng.choice(kinds or ["float", "float", "float", "int"])
        pts = gen_coords(rng, n, dim, kind, far=cls.startswith("ok") and rng.random() < 0.04)
    cx = sum(p[0] for p in pts) / n
    vals = [r3(2.0 * math.sin(0.8 * (p[0] - cx)) + 0.3 * p[1] * (0.05 if geo else 1) + rng.uniform(-1.5, 1.5) + (0.4 * p[2] if dim == 3 else 0)) for p in pts]
    if kind == "int" and rng.random() < 0.5:
        vals = [int(round(3 * v)) for v in vals]
        if len(set(vals)) == 1:
            vals[0] += 1
    if pinv and rng.random() < 0.15:
        s["kw"]["pseudo_inv"] = True
        s["kw"]["pseudo_inv_type"] = rng.choice(["pinv", "pinvh"])
        if rng.random() < 0.8:
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(n)
                at = rng.choice([len(pts), rng.randrange(1, len(pts))])
                p, z = list(pts[k]), vals[k] if rng.random() < 0.5 else r3(vals[k] + 0.5)
                pts.insert(at, p)
                vals.insert(at, z)
    s["pts"] = pts
    s["vals"] = vals
    s["container"] = rng.choice(["array", "array", "list", "column", "strided", "readonly", "tuple", "reversed"]) if containers else "array"
    if containers and not geo and kind == "float" and rng.random() < 0.08:
        # numbers that fit into less than a double
        s["container"] = "f32"
        s["pts"] = [[round(c * 64) / 64.0 for c in p] for p in pts]
        s["vals"] = [round(z * 64) / 64.0 for z in vals]
    if rng.random() < 0.25:
        s["kw"]["exact_values"] = False
    s["v"] = gen_vario(rng, cls, geo, **vk)
    if s["kw"].get("pseudo_inv") and rng.random() < 0.5 and s["v"]["model"] in ("linear", "power", "spherical", "exponential"):
        # without a nugget coincident data make the system singular
        p = gen_params(rng, s["v"]["model"], 40.0 if geo else 4.0)
        for k in p:
            if k == "list":
                if len(p[k]) == 3 and s["v"]["model"] != "power":
                    p[k][0] = r3(p[k][0] - p[k][2])
                p[k][-1] = 0.0
            else:
                if "sill" in p[k]:
                    p[k]["sill"] = r3(p[k]["sill"] - p[k]["nugget"])
                p[k]["nugget"] = 0.0
        s["v"]["params"] = p
    n = len(vals)
    if n < 5 and s["v"]["params"] is None and s["v"]["model"] in BUILTIN:
        s["v"]["params"] = gen_params(rng, s["v"]["model"])
    if cls == "ok" and rng.random() < 0.5:
        s["kw"]["enable_statistics"] = True
    if cls == "uk":
        gen_drifts2(rng, s, drifts)
    elif cls == "uk3d":
        gen_drifts3(rng, s, drifts)
    return s


def sibling(rng, s, **vk):
    """A model that differs from s in one respect only (or not at all)."""
    n = copy.deepcopy(s)
    d = n.get("drift") or {}
    whats = ["same", "v", "v", "v", "v", "val", "pt", "exact"]
    if n["kw"].get("pseudo_inv"):
        whats.append("pinv")
    whats += [k for k in ("ext", "wells", "func", "spec") if k in d] * 2
    w = rng.choice(whats)
    if w == "v":
        n["v"] = next_vario(rng, n, n["v"], 0.85, **vk)
    elif w == "val":
        i = rng.randrange(len(n["vals"]))
        n["vals"][i] = n["vals"][i] + 1
    elif w == "pt" and not n["geo"]:
        # the same shape elsewhere, or another aspect
        c = rng.randrange(len(n["pts"][0]))
        f = rng.choice([(1.0, 2.0), (1.25, 0.0)])
        for q in n["pts"]:
            q[c] = r3(q[c] * f[0] + f[1])
        if "ext" in d:
            ax = d["ext"]["xy"[c]]
            d["ext"]["xy"[c]] = [r3(a * f[0] + f[1]) for a in ax]
    elif w == "exact":
        n["kw"]["exact_values"] = not n["kw"].get("exact_values", True)
    elif w == "pinv":
        n["kw"]["pseudo_inv_type"] = "pinvh" if n["kw"]["pseudo_inv_type"] == "pinv" else "pinv"
    elif w == "ext":
        if rng.random() < 0.5:
            row = rng.choice(d["ext"]["z"])
            for i in range(len(row)):
                row[i] = r3(row[i] + rng.uniform(0.3, 1.0))
        else:
            k = rng.choice("xy")
            d["ext"][k] = [r3(a + 0.2) for a in d["ext"][k]]
    elif w == "wells":
        q = rng.choice(d["wells"])
        k = rng.randrange(3)
        q[k] = r3(q[k] + 0.3) if k < 2 or q[k] > 0 else r3(q[k] - 0.3)
    elif w == "func":
        d["func"] = [rng.choice(sorted(FUNC3 if is3(n["cls"]) else FUNC2))]
    elif w == "spec":
        d["spec"] = [rng.randrange(len(SPEC))]
    return n


def gen_drifts2(rng, s, which=None):
    pts = s["pts"]
    d = {}
    terms = which if which is not None else [t for t in ("regional_linear", "external_Z", "point_log", "specified", "functional") if rng.random() < 0.33]
    rng.shuffle(terms) if which is None else None
    d["terms"] = list(terms)
    lo = [min(p[k] for p in pts) for k in (0, 1)]
    hi = [max(p[k] for p in pts) for k in (0, 1)]
    if "external_Z" in terms:
        nx, ny = rng.randint(3, 7), rng.randint(3, 7)
        if rng.random() < 0.06:
            nx, ny = rng.randint(8, 40), rng.randint(3, 40)
        if rng.random() < 0.3:
            ny = nx
        ax = [r3(lo[0] - 4 + (hi[0] - lo[0] + 8) * i / (nx - 1)) for i in range(nx)]
        ay = [r3(lo[1] - 4 + (hi[1] - lo[1] + 8) * i / (ny - 1)) for i in range(ny)]
        for c, axis in ((0, ax), (1, ay)):
            # uneven spacing, and nodes exactly at data
            if rng.random() < 0.3:
                axis[1:-1] = sorted({r3(rng.uniform(axis[0] + 0.5, axis[-1] - 0.5)) for _ in axis[1:-1]})
            if rng.random() < 0.4:
                v = rng.choice(pts)[c]
                if v not in axis:
                    axis[rng.randrange(1, len(axis) - 1)] = v
                    axis.sort()
        nx, ny = len(ax), len(ay)
        d["ext"] = {"x": ax, "y": ay, "z": [[r3(rng.uniform(-2, 2)) for _ in range(nx)] for _ in range(ny)], "transpose": nx != ny and rng.random() < 0.3}
        # the order in which the caller lists the columns and rows
        for c, k in (("x", nx), ("y", ny)):
            r = rng.random()
            if r < 0.3:
                d["ext"]["o" + c] = list(range(k))[::-1] if r < 0.2 else rng.sample(range(k), k)
        d["ext"]["column"] = rng.random() < 0.2
    if "point_log" in terms:
        k = rng.choice([1, 1, 2, 2, 3 if len(pts) > 9 else 2])
        d["wells"] = [[r3(rng.uniform(lo[0] - 1, hi[0] + 1)), r3(rng.uniform(lo[1] - 1, hi[1] + 1)), r3(rng.choice([-1, 1]) * rng.uniform(0.5, 1.5))] for _ in range(k)]
        if rng.random() < 0.2:
            # a well at a datum
            d["wells"][0][:2] = [float(c) for c in rng.choice(pts)]
    if "specified" in terms:
        d["spec"] = rng.sample(range(len(SPEC)), rng.randint(1, 2))
    if "functional" in terms:
        d["func"] = rng.sample(sorted(FUNC2), rng.randint(1, 2))
    s["drift"] = d


def gen_drifts3(rng, s, which=None):
    d = {}
    terms = which if which is not None else [t for t in ("regional_linear", "specified", "functional") if rng.random() < 0.4]
    d["terms"] = list(terms)
    if "specified" in terms:
        d["spec"] = rng.sample(range(len(SPEC)), rng.randint(1, 2))
    if "functional" in terms:
        d["func"] = rng.sample(sorted(FUNC3), rng.randint(1, 2))
    s["drift"] = d


def backends(s, v=None):
    v = v or s["v"]
    b = ["vectorized", "loop"]
    if s["cls"] == "ok" and v["model"] in BUILTIN and v["model"] != "hole-effect":
        b.append("C")
    return b


def window_ok(s):
    return s["cls"] in ("ok", "ok3d")


def gen_points(rng, s, k):
    """k query locations; some coincide with data, most do not."""
    pts = s["pts"]
    dim = len(pts[0])
    out = []
    lo = [min(p[i] for p in pts) for i in range(dim)]
    hi = [max(p[i] for p in pts) for i in range(dim)]
    for _ in range(k):
        r = rng.random()
        if r < 0.2:
            out.append([float(c) for c in rng.choice(pts)])
        elif r < 0.24:
            # very close to a datum
            out.append([float(c) for c in rng.choice(pts)])
            out[-1][rng.randrange(dim)] += rng.choice([-1, 1]) * 10 ** -rng.uniform(2, 5.5)
        elif s["geo"]:
            out.append([r3(rng.uniform(lo[0], hi[0])) + 0.000371, r3(rng.uniform(max(-88, lo[1]), min(88, hi[1]))) + 0.000613])
        else:
            out.append([r3(rng.uniform(lo[i] - 1.0, hi[i] + 1.0)) + 0.000371 * (i + 1) for i in range(dim)])
    return out


def gen_query(rng, s, v=None, style=None, backend=None, window=None, kmax=6):
    v = v or s["v"]
    dim = len(s["pts"][0])
    q = {"style": style or rng.choice(["points", "points", "grid", "masked"])}
    bs = backends(s, v)
    q["backend"] = backend or rng.choice(bs)
    use_w = window if window is not None else (window_ok(s) and rng.random() < 0.35)
    if use_w:
        n = len(s["pts"])
        q["w"] = rng.choice([2, 3, max(2, n - 1), max(2, n), n + 5]) if n > 3 else 2
        if q["backend"] == "vectorized":
            q["backend"] = rng.choice([b for b in bs if b != "vectorized"])
    if q["style"] == "points":
        q["pts"] = gen_points(rng, s, rng.randint(1, kmax))
        if rng.random() < 0.2 and q["pts"]:
            q["pts"].append(list(q["pts"][0]))
    else:
        sizes = [rng.randint(1, 4 if dim == 2 else 3) for _ in range(dim)]
        axes = []
        for i in range(dim):
            base = gen_points(rng, s, sizes[i])
            ax = sorted(set(p[i] for p in base))
            if rng.random() < 0.15:
                ax = ax[::-1]
            axes.append(ax)
        q["axes"] = axes
        if rng.random() < 0.12 and not s["geo"]:
            q["axes"] = [sorted(set(int(round(c)) for c in ax)) for ax in axes]
        if q["style"] == "masked":
            shape = [len(a) for a in q["axes"]][::-1]
            total = int(np.prod(shape))
            p = rng.choice([0.3, 0.5, 0.8])
            q["mask"] = [int(rng.random() < p) for _ in range(total)]
            if rng.random() < 0.1:
                q["mask"] = [1] * total
            q["mshape"] = shape
            q["mT"] = dim == 2 and shape[0] != shape[1] and rng.random() < 0.2
    q["container"] = rng.choice(["array", "array", "list", "column", "readonly", "tuple", "strided", "reversed"])
    if q["style"] != "points" and rng.random() < 0.4:
        q["lay"] = rng.choice(["F", "view", "reversed"])
    if rng.random() < 0.3:
        q["buf"] = True
    return q


# ---------------------------------------------------------------------------
# from specs to calls
# ---------------------------------------------------------------------------
def contain(vals, how):
    if how == "list":
        return list(vals)
    if how == "tuple":
        return tuple(vals)
    a = np.array(vals)
    if how == "f32" and a.dtype.kind == "f" and np.array_equal(a.astype(np.float32), a):
        return a.astype(np.float32)
    if how == "readonly":
        a.flags.writeable = False
    if how == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == "column":
        return a.reshape(-1, 1)
    if how == "strided":
        b = np.zeros(2 * len(a), dtype=a.dtype)
        b[::2] = a
        return b[::2]
    return a


def classes():
    from pykrige.ok import OrdinaryKriging
    from pykrige.ok3d import OrdinaryKriging3D
    from pykrige.uk import UniversalKriging
    from pykrige.uk3d import UniversalKriging3D

    return {"ok": OrdinaryKriging, "uk": UniversalKriging, "ok3d": OrdinaryKriging3D, "uk3d": UniversalKriging3D}


GS = None      # the GSTools module, where it is kept although hidden from the package


def gs_model(g):
    gs = GS
    if gs is None:
        import gstools as gs

    kw = dict(var=g["var"], len_scale=g["len_scale"], nugget=g["nugget"])
    if g.get("latlon"):
        kw["latlon"] = True
    else:
        kw["dim"] = g["dim"]
        if "anis" in g:
            kw["anis"] = g["anis"] if g["dim"] == 3 else g["anis"][0]
            kw["angles"] = g["angles"] if g["dim"] == 3 else g["angles"][0]
    return getattr(gs, g["type"])(**kw)


def params_of(v):
    p = v["params"]
    if p is None:
        return None
    if "list" in p:
        return list(p["list"])
    return dict(p["dict"])


def vario_kwargs(v):
    """Keyword arguments of update_variogram_model and (with nlags etc.) of the constructors."""
    kw = {"nlags": v["nlags"], "weight": v["weight"]}
    if v["model"] == "gstools":
        kw["variogram_model"] = gs_model(v["gs"])
    else:
        kw["variogram_model"] = sys.intern(v["model"])     # as a literal in a program is
        kw["variogram_parameters"] = params_of(v)
        if v["model"] == "custom":
            kw["variogram_function"] = VARIO[v["func"]]
    kw.update(v.get("aniso") or {})
    return kw


def ctor_args(s, v=None):
    """(positional, keyword) arguments of the constructor, all freshly made."""
    v = v or s["v"]
    dim = len(s["pts"][0])
    how = s["container"]
    pos = [contain([p[k] for p in s["pts"]], how) for k in range(dim)]
    pos.append(contain(s["vals"], how))
    kw = dict(s["kw"])
    kw.update(vario_kwargs(v))
    if s["geo"]:
        kw["coordinates_type"] = "geographic"
    d = s.get("drift")
    if d is not None:
        kw["drift_terms"] = list(d["terms"])
        if "ext" in d:
            e = d["ext"]
            ox, oy = e.get("ox") or list(range(len(e["x"]))), e.get("oy") or list(range(len(e["y"])))
            z = np.ascontiguousarray(np.array(e["z"], dtype=float)[np.ix_(oy, ox)])
            kw["external_drift"] = np.ascontiguousarray(z.T) if e["transpose"] else z
            for key, ax, o in (("external_drift_x", e["x"], ox), ("external_drift_y", e["y"], oy)):
                kw[key] = np.array(ax)[o]
                if e.get("column"):
                    kw[key] = kw[key].reshape(-1, 1)
        if "wells" in d:
            kw["point_drift"] = np.array(d["wells"], dtype=float)
        P = np.array(s["pts"], dtype=float)
        if "spec" in d:
            kw["specified_drift"] = [np.asarray(SPEC[k](*P.T), dtype=float) for k in d["spec"]]
        if "func" in d:
            F = FUNC3 if dim == 3 else FUNC2
            kw["functional_drift"] = [F[k] for k in d["func"]]
    return pos, kw


def build(s, v=None, **extra):
    pos, kw = ctor_args(s, v)
    kw.update(extra)
    return classes()[s["cls"]](*pos, **kw)


def update(m, v, **extra):
    kw = vario_kwargs(v)
    kw.update(extra)
    if v.get("inplace"):
        # (only what a variogram of distances does not depend on)
        new, old = kw["variogram_model"], getattr(m, "model", None)
        if type(old) is type(new) and all(getattr(old, a) == getattr(new, a) for a in ("dim", "var", "len_scale", "nugget", "latlon")):
            old.anis, old.angles = new.anis, new.angles
            kw["variogram_model"] = old
    m.update_variogram_model(kw.pop("variogram_model"), **kw)


def drift_values(q, k, P):
    """What a query says of specified drift k at its locations."""
    a = np.asarray(SPEC[k](*P.T), dtype=float)
    if q.get("dv") is not None:
        # values of their own, even where locations coincide
        a = a + np.round(np.random.RandomState(q["dv"] + k).uniform(-1, 1, len(a)), 3)
    return a


def query_args(s, q):
    dim = len(s["pts"][0])
    kw = {"backend": q["backend"]}
    if q.get("w") is not None:
        kw["n_closest_points"] = q["w"]
    how = q.get("container", "array")
    d = s.get("drift") or {}
    if q["style"] == "points":
        P = locations(q)
        pos = [contain([float(c) for c in P[:, k]] if "big" in q else [p[k] for p in q["pts"]], how) for k in range(dim)]
        if "spec" in d:
            kw["specified_drift_arrays"] = [drift_values(q, k, P) for k in d["spec"]]
    else:
        pos = [contain(a, how) for a in q["axes"]]
        if q["style"] == "masked":
            m = np.array(q["mask"], dtype=bool).reshape(q["mshape"])
            m = np.ascontiguousarray(m.T) if q.get("mT") else m
            kw["mask"] = laid(m, q.get("lay"))
        if "spec" in d:
            g = grid_points(q)
            shape = [len(a) for a in q["axes"]][::-1]
            arrs = []
            for k in d["spec"]:
                a = drift_values(q, k, g).reshape(shape)
                arrs.append(laid(a, q.get("lay")))
            kw["specified_drift_arrays"] = arrs
    return [q["style"], *pos], kw


def laid(a, how):
    """The same array in another memory layout."""
    if how == "F":
        return np.asfortranarray(a)
    if how == "view":
        b = np.zeros(tuple(2 * k + 1 for k in a.shape), dtype=a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[r])[r]
    return a


def grid_points(q):
    """The cell locations of a grid query, in C order of the result (y, x) or (z, y, x)."""
    ax = [np.asarray(a, dtype=float) for a in q["axes"]]
    if len(ax) == 2:
        X, Y = np.meshgrid(ax[0], ax[1])
        return np.stack([X.ravel(), Y.ravel()], axis=1)
    Z, Y, X = np.meshgrid(ax[2], ax[1], ax[0], indexing="ij")
    return np.stack([X.ravel(), Y.ravel(), Z.ravel()], axis=1)


def locations(q):
    if q["style"] == "points":
        P = np.array(q["pts"], dtype=float)
        if "big" in q:
            # many locations, the listed ones among them at the listed places
            b = q["big"]
            r = np.random.RandomState(b["seed"])
            L = np.round(r.uniform(b["lo"], b["hi"], (b["n"], len(b["lo"]))), 3) + 0.000371
            L[b["at"]] = P
            return L
        return P
    return grid_points(q)


def gen_big(rng, s, q, nmax):
    """Turns a query for locations into one for up to nmax locations."""
    n = rng.choice([257, 600, 1025, 1500, 2049, 3000, 4097, 5000, 6000, 8200, 10001, 10001])
    n = min(n, nmax)
    pts = q["pts"]
    dim = len(pts[0])
    lo = [min(p[i] for p in s["pts"]) for i in range(dim)]
    hi = [max(p[i] for p in s["pts"]) for i in range(dim)]
    at = sorted(rng.sample(range(n), len(pts)))
    at[-1] = n - 1
    if rng.random() < 0.7:
        pts[-1] = [float(c) for c in rng.choice(s["pts"])]
    if rng.random() < 0.5:
        # far behind the beginning, where few would look
        at = sorted(rng.sample(range(n // 2, n), len(pts)))
    q["big"] = {"n": n, "seed": rng.getrandbits(31), "lo": lo, "hi": hi, "at": at}
    q["container"] = "array"
    return q


def ask(m, s, q, bufs=None):
    pos, kw = query_args(s, q)
    if bufs is not None and q.get("buf"):
        # the caller uses the same arrays again and overwrites them in place
        def own(k, a):
            if not isinstance(a, np.ndarray) or not a.flags.writeable:
                return a
            k = (k, a.shape, a.dtype.str)
            if k in bufs:
                bufs[k][...] = a
            else:
                bufs[k] = a
            return bufs[k]

        pos = [pos[0]] + [own(i, a) for i, a in enumerate(pos[1:])]
        if "mask" in kw:
            kw["mask"] = own("mask", kw["mask"])
        if "specified_drift_arrays" in kw:
            kw["specified_drift_arrays"] = [own("s%d" % i, a) for i, a in enumerate(kw["specified_drift_arrays"])]
    return m.execute(*pos, **kw)
