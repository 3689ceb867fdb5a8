"""
P13: arithmetic on simulated variables acts alike on observed and true values.

All sequences of operations up to a depth on two simulated variables and an
array. The model is the same sequence on plain arrays of the observed and of the
latent values, with the selection kept aside: whatever is (not) changed there
must (not) be changed here, for the operands, the targets and all variables the
sequence went through.
"""
import copy
import itertools
import pickle

import numpy as np

from popsynth.simulated_variable import SimulatedVariable
from mc.core import Violation, check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all operation sequences up to a depth in lockstep with a model"
BOUNDS = {
    "quick": "all sequences of <= 2 of 79 operations, and of 3 of which the last two are among 25, from 1 selection pattern; of <= 2 of 25 operations from all selection patterns of <= 3 objects (float and integer values, constructed from separate or shared memory); some patterns of 17 to 1100 objects",
    "thorough": "all sequences of <= 2 of 79 operations from all selection patterns of <= 3 objects with 3 kinds of values, of 3 from 2 starts, of 4 of 25 operations from 1 start",
}
ASSUMPTIONS = [
    "elementwise functions are numpy's universal functions; sorting, taking and repeating are not among them",
    "the operands of an operation have equal selections, as the columns of one population have",
]
CHUNK = 1

S = SimulatedVariable


def pickled(x):
    return pickle.loads(pickle.dumps(x))


def at(x):
    with w.quiet_output():
        np.add.at(x, [0], 1)
    return x


def ns(x):
    """Non-negative, not too large"""
    return np.minimum(np.abs(x), 50.0)


def _iadd(a, b, p):
    a += 1
    return a, b, p


def _iaddb(a, b, p):
    a += b
    return a, b, p


def _imulself(a, b, p):
    a *= a
    return a, b, p


def _isubp(a, b, p):
    a -= p
    return a, b, p


def _idiv(a, b, p):
    a /= 2
    return a, b, p


def _ifloor(a, b, p):
    a //= 2
    return a, b, p


def _ipow(a, b, p):
    a **= 2
    return a, b, p


def _padd(a, b, p):
    p += a
    return a, b, p


def _pmul(a, b, p):
    p *= 2
    return a, b, p


def _slice_add(a, b, p):
    a[1:] += 1
    return a, b, p


def _list_mul(a, b, p):
    a[[0, -1]] *= 3
    return a, b, p


def _list_sub(a, b, p):
    a[[-1]] -= b[[0]]
    return a, b, p


def _bool_neg(a, b, p):
    m = np.arange(len(a)) % 2 == 0
    np.negative(a[m], out=a[m])
    a[m] -= 1
    return a, b, p


def _assign(a, b, p):
    a[:1] = b[:1]
    return a, b, p


def _divmod_out(a, b, p):
    if np.may_share_memory(a, b):
        raise ValueError("outputs must not overlap")
    np.divmod(a, 2, out=(a, b))
    return a, b, p


def _where_out(a, b, p):
    np.multiply(a, 2, out=a, where=b > 0)
    return a, b, p


def _mask(f):
    def op(a, b, p):
        return f(a), f(b), f(p)

    return op


OPS = {
    "-a": lambda a, b, p: (-a, b, p),
    "+a": lambda a, b, p: (+a, b, p),
    "abs(a)": lambda a, b, p: (abs(a), b, p),
    "exp(min(a))": lambda a, b, p: (np.exp(np.minimum(a, 5.0)), b, p),
    "log10(|a|+1)": lambda a, b, p: (np.log10(np.abs(a) + 1), b, p),
    "sqrt(|a|)": lambda a, b, p: (np.sqrt(np.abs(a)), b, p),
    "a**2": lambda a, b, p: (ns(a) ** 2, b, p),
    "2**a": lambda a, b, p: (2.0 ** ns(a), b, p),
    "rad2deg(a)": lambda a, b, p: (np.rad2deg(a), b, p),
    "isfinite(a)": lambda a, b, p: (np.isfinite(a), b, p),
    "sign(a)": lambda a, b, p: (np.sign(a), b, p),
    "round(a)": lambda a, b, p: (np.round(a), b, p),
    "fix(a)": lambda a, b, p: (np.fix(a), b, p),
    "clip(a)": lambda a, b, p: (np.clip(a, -1, 2), b, p),
    "~(a>0)": lambda a, b, p: (~(a > 0), b, p),
    "modf(a)": lambda a, b, p: np.modf(a) + (p,),
    "divmod(a,2)": lambda a, b, p: divmod(a, 2) + (p,),
    "divmod(a,b)": lambda a, b, p: divmod(a, np.abs(b) + 1) + (p,),
    "a+b": lambda a, b, p: (a + b, b, p),
    "b-a": lambda a, b, p: (b - a, b, p),
    "a*b": lambda a, b, p: (a * b, b, p),
    "a*p": lambda a, b, p: (a * p, b, p),
    "p-a": lambda a, b, p: (p - a, b, p),
    "2-a": lambda a, b, p: (2 - a, b, p),
    "a+1": lambda a, b, p: (a + 1, b, p),
    "a/b": lambda a, b, p: (a / b, b, p),
    "1/a": lambda a, b, p: (1.0 / a, b, p),
    "a//2": lambda a, b, p: (a // 2, b, p),
    "a%3": lambda a, b, p: (a % 3, b, p),
    "a>b": lambda a, b, p: (a > b, b, p),
    "a<=1.5": lambda a, b, p: (a <= 1.5, b, p),
    "1.5<a": lambda a, b, p: (1.5 < a, b, p),
    "a==b": lambda a, b, p: (a == b, b, p),
    "a!=p": lambda a, b, p: (a != p, b, p),
    "(a>0)&(b>0)": lambda a, b, p: ((a > 0) & (b > 0), b, p),
    "maximum(a,b)": lambda a, b, p: (np.maximum(a, b), b, p),
    "minimum(p,a)": lambda a, b, p: (np.minimum(p, a), b, p),
    "hypot(a,b)": lambda a, b, p: (np.hypot(a, b), b, p),
    "arctan2(a,p)": lambda a, b, p: (np.arctan2(a, p), b, p),
    "add where": lambda a, b, p: (np.add(a, 1, where=b > 0, out=a.copy()), b, p),
    "b=a*b": lambda a, b, p: (a, a * b, p),
    "a+=1": _iadd,
    "a+=b": _iaddb,
    "a*=a": _imulself,
    "a-=p": _isubp,
    "a/=2": _idiv,
    "a//=2": _ifloor,
    "a**=2": _ipow,
    "p+=a": _padd,
    "p*=2": _pmul,
    "a[1:]+=1": _slice_add,
    "a[[0,-1]]*=3": _list_mul,
    "a[[-1]]-=b[[0]]": _list_sub,
    "a[::2]-=1 by mask": _bool_neg,
    "a[:1]=b[:1]": _assign,
    "sin(a,out=a)": lambda a, b, p: (np.sin(a, out=a), b, p),
    "add(a,b,out=b)": lambda a, b, p: (a, np.add(a, b, out=b), p),
    "subtract(b,a,out=a)": lambda a, b, p: (np.subtract(b, a, out=a), b, p),
    "add(a,1,out=p)": lambda a, b, p: (a, b, np.add(a, 1, out=p)),
    "add(p,1,out=a)": lambda a, b, p: (np.add(p, 1, out=a), b, p),
    "divmod(a,2,out=(a,b))": _divmod_out,
    "multiply(a,2,out=a,where=b>0)": _where_out,
    "add.at(a)": lambda a, b, p: (at(a), b, p),
    "copy": lambda a, b, p: (a.copy(), b, p),
    "copy.copy": lambda a, b, p: (copy.copy(a), b, p),
    "deepcopy": lambda a, b, p: (copy.deepcopy(a), b, p),
    "pickle": lambda a, b, p: (pickled(a), b, p),
    "astype": lambda a, b, p: (a.astype(a.dtype), b, p),
    "array": lambda a, b, p: (np.array(a, subok=True), b, p),
    "view": lambda a, b, p: (a.view(), b, p),
    "a[:]": lambda a, b, p: (a[:], b, p),
    "[::-1]": _mask(lambda x: x[::-1]),
    "[1:]": _mask(lambda x: x[1:]),
    "[mask]": _mask(lambda x: x[np.arange(len(x)) != 1]),
    "[index]": _mask(lambda x: x[list(range(len(x)))[::2]]),
    "b=a": lambda a, b, p: (a, a, p),
    "swap": lambda a, b, p: (b, a, p),
    ".selected": "selected",
    ".non_selected": "non_selected",
}

# the operations the deepest sequences are made of
DEEP = ["a+b", "p-a", "-a", "a>b", "exp(min(a))", "divmod(a,2)", "a+=1", "a+=b", "a*=a", "p+=a", "a[1:]+=1", "a[[0,-1]]*=3", "add(a,b,out=b)", "add(a,1,out=p)", "add(p,1,out=a)", "divmod(a,2,out=(a,b))", "copy", "astype", "view", "a[:]", "[mask]", "b=a", "swap", ".selected", ".non_selected"]

SEL_OPS = {"[::-1]", "[1:]", "[mask]", "[index]"}

OBS_A = [1.25, -2.5, 3.75]
LAT_A = [5.5, 0.5, -7.25]
OBS_B = [0.5, 2.0, -1.5]
LAT_B = [-3.0, 1.0, 4.5]
PLAIN = [2.0, -1.0, 0.5]


def cases(tier):
    start3 = dict(n=3, mask=(True, False, True), kind="separate")
    full = tier == "thorough"
    for n in range(4):
        for m in w.masks(n):
            for kind in ("separate", "shared", "int"):
                c = dict(n=n, mask=m, kind=kind)
                yield dict(c, depth=1)
                main = m == (True, False, True)[:n]
                for first in OPS:
                    if full or main or (kind == "separate" and first in DEEP):
                        yield dict(c, depth=2, first=first, rest="all" if full or main else "deep")
    for first in OPS:
        if full:
            yield dict(start3, depth=3, first=first, rest="all")
            yield dict(start3, mask=(False, True, True), depth=3, first=first, rest="all")
            if first in DEEP:
                yield dict(start3, depth=4, first=first, rest="deep")
        else:
            yield dict(start3, depth=3, first=first, rest="deep")


    # more objects
    for n in LONG if not full else LONG + (17, 1000, 5000):
        for k, m in enumerate(([i % 3 == 0 for i in range(n)], [i >= n // 2 for i in range(n)], [True] * n, [False] * n)):
            for kind in ("separate", "shared", "int"):
                c = dict(n=n, mask=tuple(m), kind=kind)
                yield dict(c, depth=1)
                if k == 0 and kind == "separate" and n <= 130:
                    for first in DEEP:
                        yield dict(c, depth=2, first=first, rest="deep")


LONG = (4, 8, 11, 50, 130, 1100)


def run(case, cov):
    if case["depth"] == 1:
        sequence(case, (), cov)
        for op in OPS:
            sequence(case, (op,), cov)
        return
    alphabet = DEEP if case["rest"] == "deep" else list(OPS)
    for rest in itertools.product(alphabet, repeat=case["depth"] - 1):
        sequence(case, (case["first"],) + rest, cov)


class Model:
    """A variable: the arrays of observed and latent values and the selection"""

    def __init__(self, obs, lat, sel):
        self.obs, self.lat, self.sel = obs, lat, sel


def start(case):
    n = case["n"]
    sel = np.array(case["mask"], dtype=bool)
    t = int if case["kind"] == "int" else float

    def values(x):
        # longer than the lists: they go on with other numbers
        return np.array([x[i % 3] + i // 3 for i in range(n)]).astype(t)

    def var(o, l):
        o, l = values(o), values(l)
        if case["kind"] == "shared":
            return S(o, o, sel.copy()), Model(o.copy(), o.copy(), sel)
        return S(o, l, sel.copy()), Model(o.copy(), l.copy(), sel)

    a, ma = var(OBS_A, LAT_A)
    b, mb = var(OBS_B, LAT_B)
    p = values(PLAIN)
    return (a, b, p), (ma, mb, p.copy())


def sequence(case, seq, cov):
    real, model = start(case)
    history = [(real[0], model[0]), (real[1], model[1])]
    plains = [(real[2], model[2])]
    for op in seq:
        f = OPS[op]
        if f in ("selected", "non_selected"):
            ra, rb, rp = real
            ma, mb, mp = model
            m = ma.sel if f == "selected" else ~ma.sel
            new = np.ones(m.sum(), bool) if f == "selected" else np.zeros(m.sum(), bool)
            if len(m) != len(mb.obs):
                return
            real = (getattr(ra, f), getattr(rb, f), rp[m])
            model = (Model(ma.obs[m], ma.lat[m], new), Model(mb.obs[m], mb.lat[m], new), mp[m])
        else:
            ma, mb, mp = model
            err = None
            try:
                with np.errstate(all="ignore"):
                    lat = f(ma.lat, mb.lat, mp.copy())
                    obs = f(ma.obs, mb.obs, mp)
            except (TypeError, ValueError, IndexError) as e:
                err = type(e)
            try:
                with np.errstate(all="ignore"):
                    out = f(*real)
                    raised = None
            except (TypeError, ValueError, IndexError) as e:
                raised = e
            if err is not None:
                check(raised is not None, "an operation that is invalid for arrays is valid for variables", operation=op)
                # it may have done a part of its work
                return
            if raised is not None:
                raise Violation("an operation on simulated variables raised %s: %s" % (type(raised).__name__, str(raised)[:200]), operation=op)
            sel = f(ma.sel, mb.sel, ma.sel)[0] if op in SEL_OPS else ma.sel
            # identities: an operation that returns its operand does so
            models = []
            for o, l, r in ((obs[0], lat[0], out[0]), (obs[1], lat[1], out[1])):
                for old in (ma, mb):
                    if o is old.obs and l is old.lat:
                        models.append(old)
                        break
                else:
                    models.append(Model(o, l, sel))
            real = out
            model = (models[0], models[1], obs[2])
        history.append((real[0], model[0]))
        history.append((real[1], model[1]))
        plains.append((real[2], model[2]))
        cov.step()
    observe(history, plains, seq, cov)
    cov.note("sequences")


def eq(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
        return False
    if x.dtype.kind != "f":
        return bool((x == y).all())
    # the rounding of some functions depends on the strides
    with np.errstate(all="ignore"):
        return bool(((x == y) | (abs(x - y) <= 1e-9 * abs(y)) | ((x != x) & (y != y))).all())


def observe(history, plains, seq, cov):
    last = len(history) - 2
    for i, (r, m) in enumerate(history):
        where = "the variable" if i >= last else "an earlier variable"
        check(isinstance(r, S), "an operation gives no simulated variable", type=type(r), sequence=seq)
        check(eq(r.view(np.ndarray), m.obs), "%s has wrong observed values" % where, got=np.asarray(r), expected=m.obs, sequence=seq)
        check(eq(r.latent, m.lat), "%s has wrong latent values" % where, got=r.latent, expected=m.lat, sequence=seq)
    for r, m in plains:
        check(eq(r, m), "a plain array has the wrong values", got=r, expected=m, sequence=seq)
    for r, m in history[last:]:
        s, h = r.selected, r.non_selected
        check(isinstance(s, S) and isinstance(h, S), "the parts are no simulated variables", sequence=seq)
        check(eq(s.view(np.ndarray), m.obs[m.sel]), "the detected part has wrong observed values", got=np.asarray(s), expected=m.obs[m.sel], sequence=seq)
        check(eq(h.view(np.ndarray), m.obs[~m.sel]), "the hidden part has wrong observed values", got=np.asarray(h), expected=m.obs[~m.sel], sequence=seq)
        check(eq(s.latent, m.lat[m.sel]), "the detected part has wrong latent values", got=s.latent, expected=m.lat[m.sel], sequence=seq)
        check(eq(h.latent, m.lat[~m.sel]), "the hidden part has wrong latent values", got=h.latent, expected=m.lat[~m.sel], sequence=seq)
        check(len(s.selected) == len(s) and len(s.non_selected) == 0, "the detected part has hidden objects", sequence=seq)
        check(len(h.selected) == 0 and len(h.non_selected) == len(h), "the hidden part has detected objects", sequence=seq)
        if len(seq) <= 1 or (len(seq) == 2 and len(m.sel) == 3):
            numbers(r, m, seq)
    r, m = history[last]
    cov.state((m.obs.tobytes(), m.lat.tobytes(), m.sel.tobytes(), history[-1][1].obs.tobytes()))
    cov.outcome((m.obs.tobytes(), m.lat.tobytes()))


def numbers(r, m, seq):
    """It behaves as the array of its observed values"""
    check(len(r) == len(m.obs), "a variable has the wrong length", sequence=seq)
    check(eq(np.array(list(r), dtype=m.obs.dtype), m.obs), "a variable gives other values when iterated", sequence=seq)
    for i in range(len(r)):
        check(eq(r[i], m.obs[i]), "a variable gives another entry", sequence=seq)
    if len(r) == 0:
        return
    with np.errstate(all="ignore"):
        for k in ("sum", "mean", "min", "max", "any", "all", "argmax", "tolist"):
            x, y = getattr(r, k)(), getattr(m.obs, k)()
            check(not isinstance(x, S) and eq(x, y), "%s gives another result than for the observed values" % k, got=x, expected=y, sequence=seq)
        if m.obs.dtype.kind != "b":
            for f in (np.std, np.var, np.median, lambda x: np.percentile(x, 30), np.ptp, lambda x: np.histogram(x[np.isfinite(x)], 3)[0]):
                x, y = f(r), f(m.obs)
                check(eq(x, y), "a statistic gives another result than for the observed values", got=x, expected=y, sequence=seq)
            g = r[r > 1]
            k = m.obs > 1
            check(eq(g.view(np.ndarray), m.obs[k]) and eq(g.latent, m.lat[k]) and eq(g.selected.view(np.ndarray), m.obs[k][m.sel[k]]), "indexing with a comparison gives other objects", sequence=seq)
