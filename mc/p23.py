"""
P23: plots and displays show the data of the population they belong to.

All detection patterns of up to four objects, with and without measurement error, in
original, restored and partial populations, in every plot, on new and given axes.
Oracle: the columns of the population (the data that are drawn are read back from the
artists of matplotlib and the scatters of ipyvolume).
"""
import itertools
import os
import tempfile

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from IPython.core.interactiveshell import InteractiveShell
from IPython.utils.capture import capture_output
from matplotlib.collections import PathCollection
from matplotlib.colors import to_rgba
from matplotlib.patches import FancyArrow, Rectangle

from mc.core import Violation, check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: exhaustive enumeration of detection patterns, populations and plots; the artists are compared with the columns"
BOUNDS = {
    "quick": "all detection patterns of up to 4 objects x no, log10 and natural-log errors x original, restored, observed part, hidden part x 6 spatial distributions (up to 3 objects) x 8 plots with given colours, on new and given axes, all ordered pairs of plots on one axis",
    "thorough": "patterns of up to 6 objects, and all triples of plots on one axis",
}
ASSUMPTIONS = ["matplotlib and ipyvolume draw the artists they are given"]
CHUNK = 2

P = w.popsynth

SPATIAL = {
    "sphere": ["ConstantSphericalDistribution", {"Lambda": 1.0, "r_max": 2.0}],
    "z sphere": ["ZPowerSphericalDistribution", {"Lambda": 1.0, "delta": 1.5, "r_max": 3.0}],
    "cosmo": ["ZPowerCosmoDistribution", {"Lambda": 1.0, "delta": 1.0, "r_max": 6.0}],
    "sfr": ["SFRDistribution", {"r0": 1.0, "a": 0.1, "rise": 2.0, "decay": 3.0, "peak": 1.5, "r_max": 5.0}],
    "flat": ["ConstantSphericalDistribution", {"Lambda": 1.0, "r_max": 0.01}],
    "spiral": ["SpiralGalaxyDistribution", {"rho": 1.0, "a": 1.64, "b": 4.01, "R1": 0.55, "R0": 8.5, "r_max": 15.0}],
}
ERRORS = {"none": None, "error": 0.5, "small": 0.03}
FORMS = ("original", "restored", "observed", "hidden")
FLUX = ("true", "obs", "both", "lum")


def patterns(n):
    return itertools.product((False, True), repeat=n)


def cases(tier):
    top = 4 if tier == "quick" else 6
    for n in range(top + 1):
        for mask in patterns(n):
            for spatial in SPATIAL if n <= top - 1 else ["sphere"]:
                for err in ERRORS:
                    for form in FORMS:
                        if spatial != "sphere" and (form not in ("original",) or err == "small"):
                            continue
                        yield dict(kind="plots", mask=list(mask), spatial=spatial, err=err, form=form)
    for n in range(4):
        for mask in patterns(n):
            for k in (2,) if tier == "quick" else (2, 3):
                yield dict(kind="overlay", mask=list(mask), k=k)
    for n in range(4):
        for mask in patterns(n):
            for kw in range(len(SPHERES)):
                yield dict(kind="spheres", mask=list(mask), kw=kw)
    # more objects: the first detected ones in other places
    for n in (12, 70, 130, 1100) if tier == "quick" else (7, 12, 40, 70, 130, 300, 1100, 5000):
        for m in MANY:
            mask = [bool(MANY[m](i, n)) for i in range(n)]
            for kw in range(len(SPHERES)):
                yield dict(kind="spheres", mask=mask, kw=kw)
            if n <= (12 if tier == "quick" else 70):
                for err in ERRORS:
                    for form in FORMS:
                        yield dict(kind="plots", mask=mask, spatial="sphere", err=err, form=form)
    for n in (1, 2, 3, 4, 10, 99, 100, 1000) if tier == "quick" else (1, 2, 3, 4, 10, 99, 100, 1000, 20000):
        yield dict(kind="colours", n=n)
    for n in (0, 1, 3, 30):
        for i in range(len(SHOWN)):
            yield dict(kind="shown", n=n, i=i)
    for n in (1, 5, 40, 400):
        for part in (None, 0, 1, 2):
            yield dict(kind="counts", n=n, part=part)


MANY = {
    "third": lambda i, n: i % 3 == 0,
    "late": lambda i, n: i >= n // 2,
    "all": lambda i, n: True,
    "none": lambda i, n: False,
    "one": lambda i, n: i == n // 3,
}


def run(case, cov):
    plt.close("all")
    globals()[case["kind"]](case, cov)
    plt.close("all")
    cov.state(repr(sorted(case.items(), key=str)))


def population(case):
    mask = case["mask"]
    s = w.World(dict(spatial=SPATIAL[case.get("spatial", "sphere")], flux=["McMask", mask], seed=case.get("seed", 77))).synth
    return s.draw_survey(n_samples=len(mask), flux_sigma=ERRORS[case.get("err", "error")])


def transformed(pop, form):
    if form == "restored":
        d = tempfile.mkdtemp(dir=os.environ.get("MC_WORK"))
        name = os.path.join(d, "p.h5")
        try:
            pop.writeto(name)
            return P.Population.from_file(name)
        finally:
            if os.path.exists(name):
                os.unlink(name)
            os.rmdir(d)
    if form in ("observed", "hidden"):
        return pop.to_sub_population(observed=form == "observed")
    return pop


class Data:
    """The data of a population, from its columns"""

    def __init__(self, pop):
        self.sel = np.array(pop.selection, dtype=bool)
        self.d = w.arr(pop.distances)
        self.true = w.arr(pop.fluxes_latent)
        self.obs = w.arr(pop.fluxes_observed)
        self.lum = w.arr(pop.luminosities_latent)
        self.theta = w.arr(pop.theta)
        self.phi = w.arr(pop.phi)
        self.r_max = pop.to_stan_data()["r_max"]

    def want(self, plot):
        """The sets of points of a plot, by their role"""
        s = self.sel
        t = ("first", self.d, self.true)
        o = ("second", self.d[s], self.obs[s])
        if plot == "true":
            return [t]
        if plot == "obs":
            return [o]
        if plot == "both":
            return [t, o]
        if plot == "lum":
            return [("second", self.d[s], self.lum[s]), ("first", self.d[~s], self.lum[~s])]

    def arrows(self):
        return sorted(zip(self.d[self.sel], self.true[self.sel], self.obs[self.sel]))


COLORS = dict(first=to_rgba("#11aa22"), second=to_rgba("#cc3344"), arrow=to_rgba("#5566ee"))


def draw(pop, plot, ax, colors=True, **more):
    c = {k: v[:3] for k, v in COLORS.items()}
    if plot == "true":
        return pop.display_true_fluxes(ax=ax, **(dict(flux_color=c["first"]) if colors else {}), **more)
    if plot == "obs":
        return pop.display_obs_fluxes(ax=ax, **(dict(flux_color=c["second"]) if colors else {}), **more)
    if plot == "both":
        kw = dict(true_color=c["first"], obs_color=c["second"], arrow_color=c["arrow"]) if colors else {}
        return pop.display_fluxes(ax=ax, **kw, **more)
    if plot == "lum":
        kw = dict(true_color=c["first"], obs_color=c["second"]) if colors else {}
        return pop.display_luminosities(ax=ax, **kw, **more)
    raise Violation("no such plot")


def points(ax):
    """(colour, x, y) of all points drawn on an axis"""
    out = []
    for c in ax.collections:
        if not isinstance(c, PathCollection):
            continue
        xy = np.asarray(c.get_offsets(), dtype=float).reshape(-1, 2)
        fc = np.asarray(c.get_facecolors())
        for i, (x, y) in enumerate(xy):
            k = tuple(fc[min(i, len(fc) - 1)][:3]) if len(fc) else None
            out.append((k, x, y))
    for line in ax.lines:
        if line.get_marker() not in (None, "None", "", " "):
            k = tuple(to_rgba(line.get_markerfacecolor())[:3])
            out += [(k, x, y) for x, y in zip(line.get_xdata(), line.get_ydata())]
    return out


def near(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def arrows(ax):
    """(x, tail, tip, colour) of all arrows of an axis that point somewhere"""
    out = []
    for a in ax.patches:
        if not isinstance(a, FancyArrow):
            continue
        xy = np.asarray(a.get_xy(), dtype=float)
        if len(xy) == 0:
            continue
        x = 0.5 * (xy[:, 0].min() + xy[:, 0].max())
        lo, hi = xy[:, 1].min(), xy[:, 1].max()
        # an arrow has one tip
        low = np.ptp(xy[xy[:, 1] == lo][:, 0])
        high = np.ptp(xy[xy[:, 1] == hi][:, 0])
        out.append((x, hi, lo) if low < high else (x, lo, hi))
    return sorted(out)


def expect_points(ax, want, plot, colors=True):
    got = points(ax)
    exp = [(COLORS[k][:3] if colors else None, x, y) for k, xs, ys in want for x, y in zip(xs, ys)]
    if not colors:
        got = [(None, x, y) for _, x, y in got]
    check(len(got) == len(exp), "a plot does not show as many points as there are objects", plot=plot, got=len(got), expected=len(exp))
    got = sorted(got, key=str)
    exp = sorted(((None if c is None else tuple(c), float(x), float(y)) for c, x, y in exp), key=str)
    got = sorted(((None if c is None else tuple(round(v, 6) for v in c), float(x), float(y)) for c, x, y in got), key=str)
    exp = sorted(((None if c is None else tuple(round(v, 6) for v in c), x, y) for c, x, y in exp), key=str)
    for g, e in zip(got, exp):
        check(g[0] == e[0] and near(g[1], e[1]) and near(g[2], e[2]), "a plot shows other points than those of the population", plot=plot, got=got, expected=exp)


def expect_arrows(ax, want, plot):
    want = [a for a in want if a[1] != a[2]]
    got = [a for a in arrows(ax) if a[1] != a[2]]
    check(len(got) == len(want), "a plot does not show an arrow for each detected object", plot=plot, got=len(got), expected=len(want))
    for g, e in zip(got, want):
        scale = max(abs(e[1]), abs(e[2]))
        ok = abs(g[0] - e[0]) <= 1e-9 and abs(g[1] - e[1]) <= 1e-9 * scale and abs(g[2] - e[2]) <= 1e-9 * scale
        check(ok, "an arrow does not lead from the true to the observed flux of an object", plot=plot, got=got, expected=want)


def expect_visible(ax, want, plot, r_max=None):
    """Every point lies within the limits (distances within those of the population)"""
    (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    for k, xs, ys in want:
        for x, y in zip(xs, ys):
            out = r_max is not None and x > r_max
            check((out or x0 * (1 - 1e-12) - 1e-300 <= x <= x1 * (1 + 1e-12)) and y0 * (1 - 1e-12) <= y <= y1 * (1 + 1e-12), "a plot cuts off a point of its data", plot=plot, point=(float(x), float(y)), limits=((x0, x1), (y0, y1)))


def plots(case, cov):
    pop = transformed(population(case), case["form"])
    before = w.snapshot(pop)
    data = Data(pop)
    # a look at the columns: the order of the selection
    for plot in FLUX:
        for given in (False, True):
            ax = plt.subplots()[1] if given else None
            n = len(plt.get_fignums())
            fig = draw(pop, plot, ax)
            some = plot != "obs" or data.sel.any()
            if given:
                check(fig is ax.get_figure(), "a plot on a given axis does not return its figure", plot=plot)
                check(len(plt.get_fignums()) == n, "a plot on a given axis makes another figure", plot=plot)
            elif not some:
                check(fig is None or not any(points(a) for a in fig.axes), "a plot of nothing shows something", plot=plot)
                continue
            else:
                check(fig is not None and len(fig.axes) == 1, "a plot does not return its figure", plot=plot)
                ax = fig.axes[0]
            expect_points(ax, data.want(plot), plot)
            expect_arrows(ax, data.arrows() if plot == "both" else [], plot)
            fig.canvas.draw()
            if some and len(data.d):
                expect_visible(ax, data.want(plot), plot, data.r_max)
                if plot != "lum":
                    check(ax.get_yscale() == "log", "the fluxes are not displayed on a logarithmic scale", plot=plot)
            cov.step()
        # the colours that come with it
        plt.close("all")
        fig = draw(pop, plot, None, colors=False)
        if fig is not None:
            expect_points(fig.axes[0], data.want(plot), plot, colors=False)
        plt.close("all")
    # what can be handed over
    fig = draw(pop, "both", None, with_arrows=False, marker="s", s=17)
    expect_points(fig.axes[0], data.want("both"), "both")
    expect_arrows(fig.axes[0], [], "both, without arrows")
    for c in fig.axes[0].collections:
        if len(c.get_offsets()):
            check(set(np.asarray(c.get_sizes()).tolist()) == {17.0}, "a plot ignores what is handed on to its points", sizes=c.get_sizes())
    plt.close("all")
    bars(pop, data, cov)
    w.same_survey(w.snapshot(pop), before, "a plot changes the population")
    cov.outcome((case["form"], case["spatial"], case["err"], tuple(case["mask"]), len(data.d)))


def bars(pop, data, cov):
    for given in (False, True):
        ax = plt.subplots()[1] if given else None
        n = len(plt.get_fignums())
        fig = pop.display_distances(ax=ax)
        if given:
            check(len(plt.get_fignums()) == n, "a plot on a given axis makes another figure", plot="distances")
        else:
            check(len(plt.get_fignums()) == n + 1, "a plot without axis makes no figure", plot="distances")
            ax = plt.gcf().axes[0]
        groups = {}
        for c in ax.containers:
            b = [b for b in c.patches if isinstance(b, Rectangle)]
            label = c.get_label()
            if label.startswith("_") and b:
                # the first bar has the name of all of them
                label = b[0].get_label()
            groups[label] = b
        for label, d in (("Total Pop.", data.d), ("Obs. Pop.", data.d[data.sel])):
            check(label in groups, "the distances of all or of the detected objects are not displayed", got=sorted(groups), expected=label)
            b = groups[label]
            left = np.array([r.get_x() for r in b])
            width = np.array([r.get_width() for r in b])
            height = np.array([r.get_height() for r in b])
            check(abs(left[0]) < 1e-12 and np.isclose(left[-1] + width[-1], data.r_max), "the bars do not span the distances of the population", first=left[0], last=left[-1] + width[-1], r_max=data.r_max)
            check(np.allclose(left[:-1] + width[:-1], left[1:]), "there are gaps between the bars of distances")
            inside = d[(d >= 0) & (d <= data.r_max)]
            edges = np.append(left, left[-1] + width[-1])
            for lo, hi, h in zip(edges[:-1], edges[1:], height):
                tol = 1e-9 * data.r_max
                most = np.sum((d >= lo - tol) & (d <= hi + tol))
                least = np.sum((d > lo + tol) & (d < hi - tol))
                check(least <= h <= most, "a bar of the distances is not the number of objects at them", label=label, bar=(lo, hi), got=h, expected=(least, most))
            edge = np.sum((d > data.r_max * (1 - 1e-9)) & (d < data.r_max * (1 + 1e-9)))
            check(abs(height.sum() - len(inside)) <= edge, "the bars of the distances do not contain every object", label=label, got=height.sum(), expected=len(inside))
        plt.close("all")
        cov.step()


def overlay(case, cov):
    """Plots one after another on one axis, of two populations"""
    a = population(dict(mask=case["mask"], err="error"))
    b = population(dict(mask=[not x for x in case["mask"]], err="small", seed=5))
    da, db = Data(a), Data(b)
    todo = [(pop, data, plot) for pop, data in ((a, da), (b, db)) for plot in FLUX]
    for seq in itertools.product(todo, repeat=case["k"]):
        ax = plt.subplots()[1]
        want, arrow = [], []
        for pop, data, plot in seq:
            draw(pop, plot, ax)
            want += data.want(plot)
            if plot == "both":
                arrow += data.arrows()
            expect_points(ax, want, [x[2] for x in seq])
            cov.step()
        expect_arrows(ax, sorted(arrow), [x[2] for x in seq])
        plt.close("all")


# ---------------------------------------------------------------------------
# spheres

SPHERES = [
    {},
    dict(distance_transform=lambda d: 3.0 * d + 1.0),
    dict(use_log=True),
    dict(distance_transform=lambda d: np.log10(d + 1.0), use_log=True, background_color="black"),
    dict(size=3),
]


def sphere_points(fig):
    """(x, y, z, colour) of each scatter of a figure"""
    out = []
    for s in fig.scatters:
        x, y, z = (np.atleast_1d(np.asarray(getattr(s, k), dtype=float)).ravel() for k in "xyz")
        c = np.asarray(s.color, dtype=float)
        c = c.reshape(-1, c.shape[-1]) if c.ndim else c
        out.append((x, y, z, c))
    return out


def expect_sphere(fig, data, which, cmaps, kw, plot):
    want = []
    for part, cmap in zip(which, cmaps):
        m = data.sel if part == "obs" else ~data.sel
        if m.any():
            want.append((m, cmap))
    if not want:
        check(fig is None or not fig.scatters, "a sphere of nothing shows something", plot=plot)
        return
    check(fig is not None, "a sphere with objects is not returned", plot=plot)
    got = sphere_points(fig)
    check(len(got) == len(want), "a sphere does not show the fluxes it is to show", plot=plot, got=len(got), expected=len(want))
    f = kw.get("distance_transform", lambda d: d)
    for (x, y, z, c), (m, cmap) in zip(got, want):
        r, th, ph = f(data.d[m]), data.theta[m], data.phi[m]
        e = (r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th))
        for u, v in zip((x, y, z), e):
            check(len(u) == len(v) and np.allclose(u, v, rtol=1e-5, atol=1e-6), "an object is not at its position on the sphere", plot=plot, got=u.tolist(), expected=v.tolist())
        v = data.obs[m]
        if kw.get("use_log"):
            v = np.log(v)
        t = (v - v.min()) / (np.ptp(v) or 1.0)
        e = matplotlib.colormaps[cmap](t)
        n = min(c.shape[-1], 4)
        check(c.shape[0] == len(v) and np.abs(c[:, :3] - e[:, :3]).max() < 0.02, "the colour of an object on the sphere is not that of its flux", plot=plot, got=c.tolist(), expected=e.tolist())


def colours(case, cov):
    """The colours of values: in their order, on the scale that is asked for"""
    from popsynth.utils.array_to_cmap import array_to_cmap

    n = case["n"]
    base = np.array([((i * 7919) % 1009 + 1.0) * 10.0 ** (i % 4) for i in range(n)])
    for k, x in enumerate((base, base[::-1], np.sort(base), base * 1e-50, list(base), np.full(n, 3.0))):
        for log in (False, True):
            for name in ("viridis", "magma", "Reds", matplotlib.colormaps["plasma"]):
                sm, got = array_to_cmap(x, name, use_log=log)
                v = np.log(np.asarray(x)) if log else np.asarray(x)
                span = v.max() - v.min()
                t = (v - v.min()) / (span or 1.0)
                e = (matplotlib.colormaps[name] if isinstance(name, str) else name)(t)
                got = np.asarray(got, dtype=float)
                # a single value comes with an axis more
                got = got.reshape(-1, got.shape[-1])
                check(got.shape == e.shape, "the colours are not one for each value", got=got.shape, expected=e.shape)
                check(float(np.abs(got - e).max()) < 0.02, "the colours are not those of the values", log=log, cmap=str(name), kind=k)
                check(float(np.abs(np.asarray(sm.to_rgba(np.asarray(x))) - e).max()) < 0.02, "the colour map that is returned has another scale than the colours", log=log, cmap=str(name), kind=k)
                cov.step()


def spheres(case, cov):
    import ipyvolume as ipv

    kw = SPHERES[case["kw"]]
    pop = population(dict(mask=case["mask"], err="error"))
    before = w.snapshot(pop)
    data = Data(pop)
    with capture_output():
        for j in range(2):
            ipv.clear()
            own = dict(cmap="viridis") if j else {}
            expect_sphere(pop.display_obs_fluxes_sphere(**own, **kw), data, ["obs"], ["viridis" if j else "magma"], kw, "obs")
            ipv.clear()
            expect_sphere(pop.display_hidden_fluxes_sphere(**own, **kw), data, ["hidden"], ["viridis" if j else "magma"], kw, "hidden")
            ipv.clear()
            own = dict(seen_cmap="viridis", unseen_cmap="plasma") if j else {}
            expect_sphere(pop.display_flux_sphere(**own, **kw), data, ["obs", "hidden"], ["viridis", "plasma"] if j else ["Reds", "Blues"], kw, "both")
            cov.step(3)
    ipv.clear()
    w.same_survey(w.snapshot(pop), before, "a sphere changes the population")
    cov.outcome((tuple(case["mask"]), case["kw"]))


# ---------------------------------------------------------------------------
# the bars of many objects


def counts(case, cov):
    n = case["n"]
    mask = [case["part"] is not None and i % 3 == case["part"] for i in range(n)]
    for spatial in SPATIAL:
        pop = population(dict(mask=mask, spatial=spatial))
        bars(pop, Data(pop), cov)


# ---------------------------------------------------------------------------
# what is written on the screen

SHOWN = [
    dict(),
    dict(spatial=SPATIAL["sfr"], lum=["BPLDistribution", {"Lmin": 1.25, "alpha": -0.75, "Lbreak": 4.5, "beta": -2.25, "Lmax": 31.5}]),
    dict(spatial=SPATIAL["spiral"], lum=["Log10NormalDistribution", {"mu": 0.375, "tau": 0.625}]),
    dict(
        lum=None,
        aux=[
            dict(name="der", type="McDerived", params={"gain": 1.375}, secondary=["sec"]),
            dict(name="sec", type="NormalAuxSampler", params={"mu": 2.5625, "tau": 0.8125, "sigma": 0.4375}),
        ],
        top=["der"],
    ),
    dict(
        spatial=SPATIAL["cosmo"],
        aux=[
            dict(name="one", type="NormalAuxSampler", params={"mu": 7.5625, "tau": 0.3125, "sigma": 0.9375}),
            dict(name="two", type="TruncatedNormalAuxSampler", params={"mu": 3.5, "tau": 0.6875, "lower": -1.625, "upper": 9.75, "sigma": 0.21875}),
        ],
        top=["one", "two"],
    ),
]
# a synth with every number of secondaries of a derived luminosity
# sampler next to every number of other samplers
def _forest(secondaries, tops, own):
    normal = lambda name, k: dict(name=name, type="NormalAuxSampler", params={"mu": 2.5625 + k, "tau": 0.8125 + k, "sigma": 0.4375 + k})
    subs = [normal(f"sub{i}", 3 * i) for i in range(secondaries or 0)]
    rest = [normal(f"top{i}", 20 + 3 * i) for i in range(tops)]
    out = subs + rest
    if own and rest:
        out = [normal("own", 50)] + out
        rest[0]["secondary"] = ["own"]
    der = []
    if secondaries is not None:
        der = [dict(name="der", type="McDerived", params={"gain": 1.375}, secondary=[x["name"] for x in subs])]
    return dict(
        lum=None if der else ["ParetoDistribution", {"Lmin": 1.0625, "alpha": 1.71875}],
        aux=out + der,
        top=[x["name"] for x in der + rest],
    )


SHOWN += [_forest(k, t, own) for k in (None, 0, 1, 2) for t in (0, 1, 2) for own in (False, True) if t or not own]
SHELL = []


def screen(f):
    """All text that is displayed"""
    if not SHELL:
        SHELL.append(InteractiveShell.instance())
    with capture_output() as c:
        f()
    out = [c.stdout]
    for o in c.outputs:
        out += [str(v) for v in o.data.values()]
    return "\n".join(out)


def words(text):
    for c in "<>|":
        text = text.replace(c, " ")
    return text.split()


def expect_text(text, names, values, what):
    t = words(text)
    numbers = []
    for x in t:
        try:
            numbers.append(float(x.strip(",;:")))
        except ValueError:
            pass
    for n in names:
        check(n in text, "what is displayed lacks a parameter", display=what, parameter=n, text=text[:2000])
    for n, v in values:
        check(any(abs(x - v) <= 1e-4 * abs(v) + 1e-6 for x in numbers), "what is displayed lacks the value of a parameter", display=what, parameter=n, value=v, text=text[:2000])


def shown(case, cov):
    spec = dict(SHOWN[case["i"]], flux=["McMask", lambda n: np.arange(n) % 2 == 0])
    W = w.World(spec)
    s = W.synth
    pop = s.draw_survey(n_samples=case["n"])
    params = {"spatial": spec.get("spatial", SPATIAL["sphere"])[1]}
    lum = spec.get("lum", ["", {"Lmin": 1.0, "alpha": 1.5}])
    if lum is not None:
        params["luminosity"] = lum[1]
    aux = {a["name"]: a.get("params", {}) for a in spec.get("aux", [])}
    d0, s0 = w.plain(s.to_dict()), w.snapshot(pop)
    for what, text in (("synth, displayed", screen(s.display)), ("synth, printed", repr(s))):
        for k, v in params.items():
            expect_text(text, list(v), list(v.items()), what)
        for k, v in aux.items():
            if k == "own":
                continue
            expect_text(text, [k], list(v.items()), what)
        cov.step()
    for a in spec.get("aux", []):
        # one that was not drawn from is a sampler as well
        sampler = W.samplers[a["name"]]
        secondary = a.get("secondary", [])
        parents = [b["name"] for b in spec["aux"] if a["name"] in b.get("secondary", [])]
        v = a.get("params", {})
        text = repr(sampler)
        expect_text(text, [a["name"]] + list(v) + secondary + parents, list(v.items()), "sampler, printed")
        lines = set(words(text.replace("[", " ").replace("]", " ").replace(",", " ").replace("'", " ")))
        others = {b["name"] for b in spec["aux"]} - set(secondary) - set(parents) - {a["name"]}
        check(not (others & lines), "what is displayed of a sampler names others that it has nothing to do with", sampler=a["name"], text=text)
        expect_text(screen(sampler.display), list(v), list(v.items()), "sampler, displayed")
        cov.step()
    for o, k in ((s.spatial_distribution, "spatial"), (s.luminosity_distribution, "luminosity")):
        if k in params and o is not None:
            expect_text(repr(o), list(params[k]), list(params[k].items()), "distribution, printed")
            expect_text(screen(o.display), list(params[k]), list(params[k].items()), "distribution, displayed")
            cov.step()
    text = screen(pop.display)
    for k, v in params.items():
        expect_text(text, list(v), list(v.items()), "population, displayed")
    n, k = case["n"], (case["n"] + 1) // 2
    for what, t in (("population, displayed", text), ("population, printed", repr(pop))):
        numbers = [x for x in words(t) if x.isdigit()]
        check(str(n) in numbers and str(k) in numbers, "what is displayed does not have the numbers of objects", display=what, text=t[:600], n=n, detected=k)
    check(w.plain(s.to_dict()) == d0, "displaying changes the synth")
    w.same_survey(w.snapshot(pop), s0, "displaying changes the population")
    cov.outcome((case["i"], n))
