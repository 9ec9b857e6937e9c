"""P26, P27: the Python bindings. Workloads and monitors; every module is compiled from the tree under test with AddressSanitizer."""
import sys
sys.dont_write_bytecode = True
import gc, hashlib, itertools, json, math, os, random, resource, struct, sys, time, weakref

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vfbuilder

CASES, THOROUGH_CASES = {}, set()
OWNERSHIP = {"lifetime_views", "lifetime_functions", "subspace_lifetime", "references", "refusals", "rebind", "histories"}


def case(f):
    CASES[f.__name__] = f
    return f


def thorough_case(f):
    THOROUGH_CASES.add(f.__name__)
    return case(f)


class Monitor:
    def __init__(self, out, name, seed, thorough):
        self.out, self.name, self.thorough = out, name, thorough
        self.obs, self.states, self.samples, self.failures = {"checks": 0}, set(), [], {}
        self.rnd = random.Random(f"{seed}:{name}")

    def emit(self, d):
        self.out.write(json.dumps(d) + "\n")
        self.out.flush()

    def count(self, k, n=1):
        self.obs[k] = self.obs.get(k, 0) + n

    def fail(self, key, detail):
        k = self.name + ":" + key
        self.failures[k] = self.failures.get(k, 0) + 1
        if self.failures[k] <= 3:
            self.emit({"violation": k, "detail": str(detail)[:1500]})

    def check(self, ok, key, *detail):
        self.obs["checks"] += 1
        if not ok:
            self.fail(key, " ".join(map(str, detail)))
        return ok

    def state(self, *x):
        self.states.add(hashlib.md5(repr(x).encode()).hexdigest())

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:300])

    def refused(self, f, key, *detail):
        """f has to raise an exception (and to do so without damage)"""
        try:
            r = f()
        except Exception as e:
            self.check(True, key)
            self.count("refusals")
            return e
        self.check(False, key, "accepted:", r, *detail)


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


M = None
GRIDS = {}


def setup_modules(repo, build):
    vfbuilder.setup(repo, build)
    global df, np, structuredGrid, warnings
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    from dune.grid import structuredGrid
    import dune.functions as df


# ------------------------------------------------------------------ meshes and spaces
class Mesh:
    def __init__(self, dim, n=None):
        r = M.rnd
        self.dim = dim
        self.n = n or [r.randint(1, 4 if dim == 2 else 3) for _ in range(dim)]
        self.lo = [r.uniform(-1, 1) for _ in range(dim)]
        self.up = [l + r.uniform(0.3, 3) for l in self.lo]
        self.view = structuredGrid(self.lo, self.up, self.n)
        M.count("meshes")

    def h(self, i):
        return (self.up[i] - self.lo[i]) / self.n[i]


def Lag(k): return df.Lagrange(order=k)
def RT(k): return df.RaviartThomas(order=k)
def Ned(): return df.Nedelec(kind=1, order=1)
def Pow(c, n, layout="lexicographic", blocked=False): return df.Power(c, n, layout=layout, blocked=blocked)
def TH(): return Comp(Lag(1), Pow(Lag(2), 2, "interleaved"))
def Comp(*c, blocked=False): return df.Composite(*c, blocked=blocked, layout="lexicographic")


def leafpaths(t):
    """(path, leaf descriptor) in the order of the local indices"""
    if isinstance(t, df.Power):
        return [((i,) + p, l) for i in range(t.exponent) for p, l in leafpaths(t.children[0])]
    if isinstance(t, df.Composite):
        return [((i,) + p, l) for i, c in enumerate(t.children) for p, l in leafpaths(c)]
    return [((), t)]


LEAFNAMES = {}


def leafkey(t):
    return repr(t)


class Leaves:
    """Numbering of the leaf spaces of a tree, taken from bases consisting of that leaf only"""

    def __init__(self, view, tree):
        self.basis = {}
        for _, l in leafpaths(tree):
            if leafkey(l) not in self.basis:
                self.basis[leafkey(l)] = df.defaultGlobalBasis(view, l)
        self.views = {k: b.localView() for k, b in self.basis.items()}

    def bind(self, e):
        for v in self.views.values():
            v.bind(e)


def sizes(t, leaves):
    """nested description of the index tree: int for flat containers or list of children"""
    if isinstance(t, df.Power):
        c = sizes(t.children[0], leaves)
        n = t.exponent
        if t.layout == "lexicographic":
            return [c] * n if t.blocked else (c * n)
        if t.blocked:   # interleaved: every leaf index gets a block
            return push(c, n)
        return interl(c, n)
    if isinstance(t, df.Composite):
        cs = [sizes(c, leaves) for c in t.children]
        return cs if t.blocked else sum(cs, [])
    return [0] * len(leaves.basis[leafkey(t)])


def push(c, n):
    return [[0] * n if x == 0 else push(x, n) for x in c]


def interl(c, n):
    return [x for x in c for _ in range(n)]


def index(t, path, i, leaves):
    """expected multi index of the i-th shape function of the leaf at path"""
    if isinstance(t, df.Power):
        c = index(t.children[0], path[1:], i, leaves)
        k, n = path[0], t.exponent
        if t.layout == "lexicographic":
            if t.blocked:
                return [k] + c
            return [k * len(sizes(t.children[0], leaves)) + c[0]] + c[1:]
        return c + [k] if t.blocked else [c[0] * n + k] + c[1:]
    if isinstance(t, df.Composite):
        c = index(t.children[path[0]], path[1:], i, leaves)
        if t.blocked:
            return [path[0]] + c
        return [sum(len(sizes(x, leaves)) for x in t.children[:path[0]]) + c[0]] + c[1:]
    return list(leaves.views[leafkey(t)].index(i))


def total(s):
    return 1 if s == 0 else sum(total(x) for x in s)


def node(tree, path):
    for k in path:
        tree = tree.child(k)
    return tree


def leafsize(t, dim):
    if isinstance(t, df.Lagrange):
        return (t.order + 1) ** dim
    if isinstance(t, df.Nedelec):
        return 4 if dim == 2 else 12
    if t.order == 0:
        return 2 * dim
    return {(1, 2): 12, (1, 3): 36}[(t.order, dim)]


def leafdim(t, mesh):
    n = mesh.n
    if isinstance(t, df.Lagrange):
        return math.prod(t.order * x + 1 for x in n)
    faces = sum(math.prod(x + (1 if i == d else 0) for i, x in enumerate(n)) for d in range(len(n)))
    edges = sum(math.prod(x + (0 if i == d else 1) for i, x in enumerate(n)) for d in range(len(n)))
    if isinstance(t, df.Nedelec):
        return edges
    if t.order == 0:
        return faces
    if len(n) == 2:
        return 2 * faces + 4 * math.prod(n)
    return 4 * faces + 12 * math.prod(n)


# ------------------------------------------------------------------ monitors
def check_basis(name, tree, mesh, basis=None):
    """sizes, tree of local nodes, global numbering"""
    gv = mesh.view
    b = basis if basis is not None else df.defaultGlobalBasis(gv, tree)
    leaves = Leaves(gv, tree)
    for k, lb in leaves.basis.items():
        l = next(l for _, l in leafpaths(tree) if leafkey(l) == k)
        M.check(len(lb) == leafdim(l, mesh), "leaf-dimension", k, mesh.n, len(lb), leafdim(l, mesh))
        lv = leaves.views[k]
        for e in gv.elements:
            lv.bind(e)
            M.check(len(lv) == leafsize(l, mesh.dim) == lv.size() == lv.maxSize(), "leaf-size", k, len(lv))
            ix = [tuple(lv.index(i)) for i in range(len(lv))]
            M.check(len(set(ix)) == len(ix), "leaf-injective", k, ix)
    s = sizes(tree, leaves)
    M.check(b.dimension == total(s) and isinstance(b.dimension, int), name + "-dimension", mesh.n, b.dimension, total(s))
    M.check(len(b) == total(s), name + "-len", len(b), total(s))
    M.check(b.size() == len(s), name + "-size", b.size(), len(s))

    def sz(prefix, s):
        M.check(b.size(prefix) == (len(s) if s != 0 else 0), name + "-prefix-size", prefix, b.size(prefix), s if s == 0 else len(s))
        if s != 0:
            for i, c in enumerate(s):
                if len(s) < 40 or i % 7 == 0:
                    sz(prefix + [i], c)
    sz([], s)
    lp = leafpaths(tree)
    lv = b.localView()
    seen = {}
    maxsize = sum(leafsize(l, mesh.dim) for _, l in lp)
    for e in gv.elements:
        lv.bind(e)
        leaves.bind(e)
        t = lv.tree()
        M.check(len(lv) == maxsize and lv.size() == maxsize and lv.maxSize() == maxsize, name + "-localsize", len(lv), lv.maxSize(), maxsize)
        M.check(near(sum(abs(a - c) for a, c in zip(lv.element().geometry.center, e.geometry.center)), 0), name + "-element")
        off = 0
        for p, l in lp:
            nd = node(t, p)
            m = leafsize(l, mesh.dim)
            M.check(nd.isLeaf and not nd.isPower and not nd.isComposite and nd.degree() == 0, name + "-leaf-kind", p)
            fe = nd.finiteElement()
            M.check(len(nd) == m and nd.size() == m and fe.size() == m and len(fe) == m, name + "-leaf-node-size", p, len(nd), fe.size(), m)
            for i in range(m):
                M.check(nd.localIndex(i) == off + i, name + "-localIndex", p, i, nd.localIndex(i), off + i)
                got, want = list(lv.index(nd.localIndex(i))), index(tree, p, i, leaves)
                M.check(got == want, name + "-index", mesh.n, "leaf", p, "shape", i, "got", got, "expected", want)
                seen.setdefault(tuple(got), (p,))
                M.state(name, mesh.n, tuple(got))
            off += m

        def inner(nd, d):
            if isinstance(d, df.Power):
                M.check(nd.isPower and not nd.isLeaf and not nd.isComposite and nd.degree() == d.exponent, name + "-power-kind", repr(d))
                kids = [d.children[0]] * d.exponent
            elif isinstance(d, df.Composite):
                M.check(nd.isComposite and not nd.isLeaf and not nd.isPower and nd.degree() == len(d.children), name + "-composite-kind", repr(d))
                kids = d.children
            else:
                return leafsize(d, mesh.dim)
            n = sum(inner(nd.child(i), c) for i, c in enumerate(kids))
            M.check(nd.size() == n and len(nd) == n, name + "-inner-size", nd.size(), n)
            M.refused(lambda: nd.child(len(kids)), name + "-no-such-child")
            for i in range(n):
                M.check(nd.localIndex(i) - nd.localIndex(0) == i, name + "-inner-localIndex", i)
            return n
        inner(t, tree)
        M.count("elements")
    M.check(len(seen) == total(s), name + "-numbering-surjective", len(seen), total(s))
    M.sample(f"{tree!r} on {mesh.n}: {total(s)} indices, e.g. {sorted(seen)[:3]}")
    return b


def is_lagrange(l): return isinstance(l, df.Lagrange)


def poly(dim, k):
    """random tensor product polynomial of degree k in each variable, and its source"""
    c = {a: M.rnd.uniform(-1, 1) for a in itertools.product(range(k + 1), repeat=dim)}
    return lambda x: sum(v * math.prod(x[i] ** a[i] for i in range(dim)) for a, v in c.items())


def shape_values(fe, x):
    return [[float(w) for w in v] for v in fe.localBasis.evaluateFunction(x)]


def random_x(dim):
    r = M.rnd
    return [r.choice([0.0, 1.0, r.random(), r.random(), r.random()]) for _ in range(dim)]


def flat(v):
    try:
        return [float(v)]
    except (TypeError, ValueError):
        return [float(w) for w in v]


def fval(f, e, x):
    return flat(f(e, x))


def check_functions(name, tree, mesh, b):
    """functions with random coefficients have the value the definition says"""
    gv, dim = mesh.view, mesh.dim
    lp = leafpaths(tree)
    lv = b.localView()
    for rep in range(3 if M.thorough else 1):
        v = np.array([M.rnd.uniform(-1, 1) for _ in range(b.size())])
        keep = v.copy()
        f = b.asFunction(v)
        lf = f.localFunction()
        for e in gv.elements:
            lv.bind(e)
            t = lv.tree()
            lf.bind(e)
            for _ in range(3):
                x = random_x(dim)
                want = []
                for p, l in lp:
                    nd = node(t, p)
                    sv = shape_values(nd.finiteElement(), x)
                    want += [sum(v[lv.index(nd.localIndex(i))[0]] * sv[i][c] for i in range(len(sv))) for c in range(len(sv[0]))]
                for how, got in (("global", fval(f, e, x)), ("local", flat(lf(x)))):
                    M.check(len(got) == len(want) and all(near(a, c) for a, c in zip(got, want)), f"{name}-value-{how}", mesh.n, x, got, want)
                M.count("evaluations")
            lf.unbind()
        # many points at once
        e = M.rnd.choice(list(gv.elements))
        xs = np.array([[M.rnd.random() for _ in range(5)] for _ in range(dim)])
        try:
            many = np.array(f(e, xs))
        except Exception:
            many = None
        if many is not None:
            for j in range(5):
                one = fval(f, e, list(xs[:, j]))
                got = flat(many[..., j]) if many.ndim > 1 else flat(many[j])
                M.check(len(one) == len(got) and all(near(a, c) for a, c in zip(one, got)), name + "-vectorized", one, got)
        M.check(bool((v == keep).all()), name + "-coefficients-modified")
        # the function refers to the array
        v *= -2
        e = M.rnd.choice(list(gv.elements)); x = random_x(dim)
        g = b.asFunction(-2 * keep)
        M.check(all(near(a, c) for a, c in zip(fval(f, e, x), fval(g, e, x))), name + "-aliasing", fval(f, e, x), fval(g, e, x))
        # arrays with strides are read correctly
        big = np.full(3 * len(v), 7.0)
        big[1::3] = v
        rev = v[::-1].copy()[::-1]
        for how, a in (("strided", big[1::3]), ("reversed", rev)):
            h = b.asFunction(a)
            for e in list(gv.elements)[:4]:
                x = random_x(dim)
                M.check(all(near(p, q) for p, q in zip(fval(h, e, x), fval(f, e, x))), f"{name}-{how}", fval(h, e, x), fval(f, e, x))
        M.state(name, rep, mesh.n)


def check_interpolation(name, tree, mesh, b, k):
    """Lagrange spaces (products of one and the same): reproduction of polynomials; coefficients elsewhere untouched"""
    gv, dim = mesh.view, mesh.dim
    ncomp = len(leafpaths(tree))
    for deg in range(k + 1):
        ps = [poly(dim, deg) for _ in range(ncomp)]
        calls = []

        def func(x):
            calls.append(tuple(x))
            return ps[0](x) if ncomp == 1 else [p(x) for p in ps]
        base = np.full(2 * b.size() + 3, 13.0)
        v = base[1:b.size() + 1] if deg % 2 else base[1:2 * b.size() + 1:2]
        b.interpolate(v, func)
        untouched = np.ones(len(base), dtype=bool)
        untouched[(range(1, b.size() + 1) if deg % 2 else range(1, 2 * b.size() + 1, 2))] = False
        M.check(bool((base[untouched] == 13.0).all()), name + "-wrote-elsewhere")
        M.check(not (v == 13.0).any(), name + "-not-written")
        inside = all(mesh.lo[i] - 1e-12 <= c[i] <= mesh.up[i] + 1e-12 for c in calls for i in range(dim))
        M.check(inside and calls, name + "-points-outside")
        f = b.asFunction(v)
        for e in gv.elements:
            geo = e.geometry
            for _ in range(2):
                x = random_x(dim)
                y = [float(w) for w in geo.toGlobal(x)]
                M.check(all(mesh.lo[i] - 1e-9 <= y[i] <= mesh.up[i] + 1e-9 for i in range(dim)), name + "-geometry")
                got = fval(f, e, x)
                M.check(len(got) == ncomp and all(near(g, p(y), 1e-8) for g, p in zip(got, ps)), f"{name}-reproduction", mesh.n, "degree", deg, y, got, [p(y) for p in ps])
        M.state(name, "interp", deg, mesh.n)
        M.count("interpolations")
        if ncomp == 1 and k >= 1:
            pd = f.pointData() if hasattr(f, "pointData") else None
            if pd is not None:
                pts = list(gv.coordinates()) if hasattr(gv, "coordinates") else None
                if pts is not None and len(pts) == len(pd):
                    for a, y in zip(pd, pts):
                        M.check(near(flat(a)[0], ps[0](y), 1e-8), name + "-pointdata", y, a, ps[0](y))


def lagrange_points(b, mesh):
    """position of every degree of freedom of a scalar Lagrange basis"""
    cols = []
    for i in range(mesh.dim):
        v = np.zeros(b.size())
        b.interpolate(v, lambda x, i=i: x[i])
        cols.append(v)
    return [tuple(float(c[j]) for c in cols) for j in range(b.size())]


def on_boundary(y, mesh):
    return any(near(y[i], mesh.lo[i]) or near(y[i], mesh.up[i]) for i in range(mesh.dim))


def check_update(name, tree, mesh):
    """assigning gridView gives the basis of the new grid view"""
    b = df.defaultGlobalBasis(mesh.view, tree)
    for _ in range(3):
        m2 = Mesh(mesh.dim)
        b.gridView = m2.view
        fresh = df.defaultGlobalBasis(m2.view, tree)
        M.check(len(b) == len(fresh) and b.size() == fresh.size(), name + "-update-size", m2.n, len(b), len(fresh))
        v, w = b.localView(), fresh.localView()
        M.check(b.gridView.size(0) == m2.view.size(0), name + "-update-gridview")
        keep, view = m2.view, m2
        for e in b.gridView.elements:
            v.bind(e)
            w.bind(e)
            M.check(len(v) == len(w) and all(list(v.index(i)) == list(w.index(i)) for i in range(len(v))), name + "-update-index", m2.n)
        M.state(name, "update", m2.n)
    # refinement of the grid
    m3 = Mesh(mesh.dim)
    hg = m3.view.hierarchicalGrid
    b = df.defaultGlobalBasis(hg.leafView, tree)
    hg.globalRefine(1)
    b.gridView = hg.leafView
    m3.n = [2 * x for x in m3.n]
    m3.view = hg.leafView
    M.check(m3.view.size(0) == math.prod(m3.n), name + "-refined-cells")
    check_basis(name + "-refined", tree, m3, b)


SPACES2 = {
    "lag1": lambda: Lag(1), "lag2": lambda: Lag(2), "lag3": lambda: Lag(3), "rt0": lambda: RT(0), "rt1": lambda: RT(1), "ned": Ned,
    "pow_lex": lambda: Pow(Lag(1), 2), "pow_int": lambda: Pow(Lag(2), 3, "interleaved"),
    "th_flat": TH,
    "th_blocked": lambda: Comp(Pow(Lag(2), 2, "interleaved", True), Lag(1), blocked=True),
    "mixed": lambda: Comp(RT(0), Lag(1), Ned()),
    "nested": lambda: Pow(Comp(Lag(1), Pow(Lag(2), 2)), 2, "lexicographic", True),
    "powpow": lambda: Pow(Pow(Lag(1), 2, "interleaved"), 2),
    "pow_rt": lambda: Pow(RT(0), 2),
    "pow_bl": lambda: Pow(Lag(1), 3, "lexicographic", True),
}
SPACES3 = {"lag2_3d": lambda: Lag(2), "pow_3d": lambda: Pow(Lag(1), 3, "interleaved"), "mixed_3d": lambda: Comp(Lag(1), RT(0), Ned())}
LAG = {"lag1": 1, "lag2": 2, "lag3": 3, "pow_lex": 1, "pow_int": 2, "lag2_3d": 2, "pow_3d": 1}
VALUES = list(LAG) + ["rt0", "rt1", "ned"]
THOROUGH_SPACES = {"lag3", "rt1", "pow_rt", "powpow", "pow_bl", "lag2_3d", "pow_3d"}  # every module costs half a minute of compilation
UPDATE = ["lag2", "rt0", "pow_lex", "th_flat", "mixed_3d"]


def space_case(name, dim, make):
    def run():
        tree = make()
        for _ in range(6 if M.thorough else 2):
            mesh = Mesh(dim)
            b = check_basis(name, tree, mesh)
            if name in VALUES:
                check_functions(name, tree, mesh, b)
            if name in LAG:
                check_interpolation(name, tree, mesh, b, LAG[name])
            if name in UPDATE:
                check_update(name, tree, mesh)
    run.__name__ = "space_" + name
    (thorough_case if name in THOROUGH_SPACES else case)(run)


for _n, _m in SPACES2.items():
    space_case(_n, 2, _m)
for _n, _m in SPACES3.items():
    space_case(_n, 3, _m)


def neighbours(gv, dim):
    for e in gv.elements:
        for i in gv.intersections(e):
            o = i.outside
            if o is not None:
                yield e, o, i


def conforming(name, tree, mode):
    """continuity across faces of random functions from Python"""
    for _ in range(3):
        mesh = Mesh(2, [M.rnd.randint(2, 4), M.rnd.randint(1, 4)])
        b = df.defaultGlobalBasis(mesh.view, tree)
        v = np.array([M.rnd.uniform(-1, 1) for _ in range(b.size())])
        f = b.asFunction(v)
        for e, o, i in neighbours(mesh.view, 2):
            n = i.centerUnitOuterNormal
            for _ in range(2):
                s = [M.rnd.random()]
                a, c = fval(f, e, i.geometryInInside.toGlobal(s)), fval(f, o, i.geometryInOutside.toGlobal(s))
                if mode == "all":
                    ok = all(near(p, q) for p, q in zip(a, c))
                else:
                    t = n if mode == "normal" else [-n[1], n[0]]
                    ok = near(sum(p * w for p, w in zip(a, t)), sum(p * w for p, w in zip(c, t)))
                M.check(ok, f"{name}-continuity", mesh.n, a, c)
                M.count("face_points")
        M.state(name, mesh.n)
        # vector valued interpolation: constants are contained in all these spaces
        if mode != "all":
            w = [M.rnd.uniform(-1, 1), M.rnd.uniform(-1, 1)]
            c = np.full(b.size(), np.nan)
            b.interpolate(c, lambda x: w)
            g = b.asFunction(c)
            for e in mesh.view.elements:
                got = fval(g, e, random_x(2))
                M.check(all(near(p, q) for p, q in zip(got, w)), f"{name}-constant", got, w)


@case
def conforming_spaces():
    conforming("lag2", Lag(2), "all")
    if M.thorough:
        conforming("lag3", Lag(3), "all")
    conforming("pow_lex", Pow(Lag(1), 2), "all")
    conforming("rt0", RT(0), "normal")
    conforming("ned", Ned(), "tangential")


# ------------------------------------------------------------------ boundary
@case
def boundary():
    for rep in range(3):
        mesh = Mesh(2)
        b = df.defaultGlobalBasis(mesh.view, Lag(2))
        seen = []
        df.forEachBoundaryDOF(b, seen.append)
        pts = lagrange_points(b, mesh)
        want = {j for j, y in enumerate(pts) if on_boundary(y, mesh)}
        M.check(set(seen) == want and all(type(s) is int for s in seen), "lag2", mesh.n, sorted(seen), sorted(want))
        for tree in (Pow(Lag(1), 2), TH()):
            tb = df.defaultGlobalBasis(mesh.view, tree)
            seen = set()
            df.forEachBoundaryDOF(tb, seen.add)
            leaves = Leaves(mesh.view, tree)
            bd = {k: {j for j, y in enumerate(lagrange_points(lb, mesh)) if on_boundary(y, mesh)} for k, lb in leaves.basis.items()}
            want = set()
            for e in mesh.view.elements:
                leaves.bind(e)
                for p, l in leafpaths(tree):
                    lv = leaves.views[leafkey(l)]
                    want |= {index(tree, p, i, leaves)[0] for i in range(len(lv)) if lv.index(i)[0] in bd[leafkey(l)]}
            M.check(seen == want, "tree", repr(tree), mesh.n, sorted(seen), sorted(want))
            M.state(mesh.n, repr(tree), len(want))
        # an exception of the callback arrives and nothing breaks
        class Stop(Exception):
            pass

        def stop(i):
            raise Stop(i)
        try:
            df.forEachBoundaryDOF(b, stop)
            M.check(False, "exception-lost")
        except Stop:
            M.check(True, "exception-lost")


# ------------------------------------------------------------------ subspaces
@case
def subspace():
    for rep in range(3):
        mesh = Mesh(2)
        tree = TH()
        b = df.defaultGlobalBasis(mesh.view, tree)
        V = df.subspaceBasis(b, 1)
        V1 = df.subspaceBasis(b, 1, 0)
        N1 = df.subspaceBasis(V, 1) if M.thorough else None  # P27 uses the nested one
        P = df.subspaceBasis(b, 0)
        lvb = b.localView()
        for s, path in ((V, (1,)), (V1, (1, 0)), (N1, (1, 1)), (P, (0,))):
            if s is None:
                continue
            M.check(s.size() == b.size() and s.dimension == b.dimension, "size", path)
            lv = s.localView()
            idx = set()
            for e in mesh.view.elements:
                lv.bind(e)
                lvb.bind(e)
                a, c = lv.tree(), node(lvb.tree(), path)
                M.check(len(a) == len(c) and len(lv) <= lv.maxSize(), "local-size", path, len(a), len(c))
                for i in range(len(a)):
                    M.check(a.localIndex(i) == c.localIndex(i), "local-index", path, i, a.localIndex(i), c.localIndex(i))
                    M.check(list(lv.index(a.localIndex(i))) == list(lvb.index(c.localIndex(i))), "index", path, i)
                    idx.add(lvb.index(c.localIndex(i))[0])
                M.check(near(float(lv.element().geometry.center[0]), float(e.geometry.center[0])), "element")
            nc = 2 if path == (1,) else 1
            ps = [poly(2, 1) for _ in range(nc)]
            v = np.full(b.size(), 5.0)
            s.interpolate(v, lambda x: ps[0](x) if nc == 1 else [p(x) for p in ps])
            M.check(all(v[j] == 5.0 for j in range(len(v)) if j not in idx), "wrote-elsewhere", path)
            M.check(all(v[j] != 5.0 for j in idx), "not-written", path)
            f = s.asFunction(v)
            for e in mesh.view.elements:
                x = random_x(2)
                y = e.geometry.toGlobal(x)
                M.check(all(near(g, p(y), 1e-8) for g, p in zip(fval(f, e, x), ps)), "reproduction", path, fval(f, e, x))
            M.refused(lambda: s.interpolate(np.zeros(b.size() + 1), lambda x: ps[0](x) if nc == 1 else [0, 0]), "wrong-size")
            M.refused(lambda: s.asFunction(np.zeros(b.size() - 1)), "wrong-size-function")
            M.state(path, mesh.n)
        M.check(s.gridView.size(0) == mesh.view.size(0), "gridview")
        try:
            V.gridView = mesh.view
            M.check(False, "update-accepted")
        except AttributeError:
            M.check(True, "update-accepted")


@case
def subspace_lifetime():
    mesh = Mesh(2)
    b = df.defaultGlobalBasis(mesh.view, TH())
    n, es = b.size(), list(mesh.view.elements)
    e = M.rnd.choice(es)
    lvb = b.localView()
    lvb.bind(e)
    want = [list(lvb.index(node(lvb.tree(), (1, 1)).localIndex(i))) for i in range(9)]
    N1 = df.subspaceBasis(df.subspaceBasis(b, 1), 1)
    v = np.zeros(n)
    N1.interpolate(v, lambda x: 3 + x[1])
    f = N1.asFunction(v)
    lv = N1.localView()
    del b, lvb, N1, v
    gc.collect()
    lv.bind(e)
    t = lv.tree()
    del lv
    gc.collect()
    M.check(len(t) == 9 and [t.localIndex(i) for i in range(9)] == list(range(13, 22)), "tree", [t.localIndex(i) for i in range(9)])
    lf = f.localFunction()
    M.check(near(fval(f, e, [0, 1])[0], 3 + float(e.geometry.toGlobal([0, 1])[1])), "value")
    s = f.basis
    del f
    gc.collect()
    lf.bind(e)
    M.check(near(flat(lf([0, 1]))[0], 3 + float(e.geometry.toGlobal([0, 1])[1])), "local-value")
    lv = s.localView()
    lv.bind(e)
    M.check([list(lv.index(lv.tree().localIndex(i))) for i in range(9)] == want, "index")
    M.state(mesh.n)


# ------------------------------------------------------------------ life times
def alive(name, tree, probe):
    """probe(basis, elements) returns (objects to keep, function checking them); everything else is dropped in between"""
    for rep in range(2):
        mesh = Mesh(2, [M.rnd.randint(2, 4), M.rnd.randint(2, 4)])
        b = df.defaultGlobalBasis(mesh.view, tree)
        es = list(mesh.view.elements)
        kept, verify = probe(b, es)
        del b, mesh, es
        gc.collect()
        junk = [bytearray(n) for n in range(16, 4096, 16)]   # reuse what was freed
        del junk
        M.check(bool(verify(kept)), name, repr(tree))
        M.state(name, rep, repr(tree))


@case
def lifetime_views():
    P = Pow(Lag(1), 2)

    def tree_only(b, es):
        lv = b.localView()
        lv.bind(es[1])
        return lv.tree(), lambda t: t.size() == 8 and t.degree() == 2 and len(t.child(1)) == 4 and t.child(1).localIndex(2) == 6
    alive("tree", P, tree_only)

    def leaf_tree(b, es):
        lv = b.localView()
        lv.bind(es[1])
        return lv.tree(), lambda t: t.size() == 9 and t.finiteElement().size() == 9 and near(sum(v[0] for v in shape_values(t.finiteElement(), [.3, .4])), 1)
    alive("leaf-tree", Lag(2), leaf_tree)

    def child_only(b, es):
        lv = b.localView()
        lv.bind(es[1])
        return lv.tree().child(1), lambda t: t.size() == 4 and [t.localIndex(i) for i in range(4)] == [4, 5, 6, 7] and len(t.finiteElement()) == 4
    alive("child", P, child_only)

    def grandchild(b, es):
        lv = b.localView()
        lv.bind(es[0])
        return lv.tree().child(1).child(1), lambda t: t.size() == 9 and t.localIndex(0) == 13 and t.finiteElement().size() == 9
    alive("grandchild", TH(), grandchild)

    def element_only(b, es):
        lv = b.localView()
        c = list(map(float, es[2].geometry.center))
        lv.bind(es[2])
        return lv.element(), lambda e: all(near(x, y) for x, y in zip(e.geometry.center, c))
    alive("element", P, element_only)

    def element_kept_by_view(b, es):
        lv = b.localView()
        c = list(map(float, es[2].geometry.center))
        lv.bind(list(b.gridView.elements)[2])
        return lv, lambda lv: all(near(x, y) for x, y in zip(lv.element().geometry.center, c)) and lv.index(0) is not None
    alive("bound-element", P, element_kept_by_view)

    def view_only(b, es):
        lv = b.localView()
        lw = b.localView()
        lw.bind(es[3])
        want = [list(lw.index(i)) for i in range(8)]
        e = es[3]

        def verify(lv):
            lv.bind(e)
            return [list(lv.index(i)) for i in range(8)] == want
        return lv, verify
    alive("view", P, view_only)

    def fe_only(b, es):
        lv = b.localView()
        lv.bind(es[1])
        return lv.tree().finiteElement(), lambda fe: fe.size() == 9 and near(sum(v[0] for v in shape_values(fe, [.3, .4])), 1)
    alive("finite-element", Lag(2), fe_only)

    def fe_rt(b, es):
        lv = b.localView()
        lv.bind(es[0])
        return lv.tree().child(0).finiteElement(), lambda fe: fe.size() == 4 and len(shape_values(fe, [.3, .4])) == 4
    alive("finite-element-rt", Comp(RT(0), Lag(1), Ned()), fe_rt)


@case
def lifetime_functions():
    def value(b, how):
        p = poly(2, 1)
        v = np.zeros(b.size())
        b.interpolate(v, p)
        return p, v

    def asf(b, es):
        p, v = value(b, 0)
        e = es[1]
        return b.asFunction(v), lambda f: near(fval(f, e, [.2, .7])[0], p(e.geometry.toGlobal([.2, .7])), 1e-8)
    alive("asFunction", Lag(2), asf)

    def ctor(b, es):
        p, v = value(b, 0)
        e = es[1]
        return type(b.asFunction(v))(b, v), lambda f: near(fval(f, e, [.2, .7])[0], p(e.geometry.toGlobal([.2, .7])), 1e-8)
    alive("constructor", Lag(2), ctor)

    def local(b, es):
        p, v = value(b, 0)
        e = es[1]

        def verify(lf):
            lf.bind(e)
            return near(flat(lf([.2, .7]))[0], p(e.geometry.toGlobal([.2, .7])), 1e-8)
        return b.asFunction(v).localFunction(), verify
    alive("localFunction", Lag(2), local)

    def basis_of(b, es):
        p, v = value(b, 0)
        n = len(b)
        e = es[1]

        def verify(b):
            lv = b.localView()
            lv.bind(e)
            return len(b) == n and len(lv) == 9 and 0 <= lv.index(8)[0] < n
        return b.asFunction(v).basis, verify
    alive("function-basis", Lag(2), basis_of)

    def grid_of(b, es):
        p, v = value(b, 0)
        n = b.gridView.size(0)
        return b.asFunction(v).grid, lambda g: g.size(0) == n and sum(1 for e in g.elements) == n
    alive("function-grid", Lag(2), grid_of)

    def view_of(b, es):
        n = b.gridView.size(0)
        return b.gridView, lambda g: g.size(0) == n and sum(1 for e in g.elements) == n and sum(e.geometry.volume for e in g.elements) > 0
    alive("gridView", Lag(2), view_of)

    def assigned(b, es):
        n = [M.rnd.randint(2, 5), M.rnd.randint(2, 5)]
        b.gridView = Mesh(2, n).view
        gc.collect()

        def verify(b):
            lv = b.localView()
            m = 0
            for e in b.gridView.elements:
                lv.bind(e)
                m = max(m, max(lv.index(i)[0] for i in range(9)))
            return m == len(b) - 1 == (2 * n[0] + 1) * (2 * n[1] + 1) - 1
        return b, verify
    alive("assigned-gridView", Lag(2), assigned)

    def array_kept(b, es):
        p, v = value(b, 0)
        r = weakref.ref(v)
        e = es[0]
        return b.asFunction(v), lambda f: r() is not None and near(fval(f, e, [.2, .7])[0], p(e.geometry.toGlobal([.2, .7])), 1e-8)
    alive("array", Lag(2), array_kept)


@case
def references():
    """objects are neither leaked nor released too often"""
    for rep in range(3):
        mesh = Mesh(2)
        b = df.defaultGlobalBasis(mesh.view, Lag(2))
        lv = b.localView()
        e = next(iter(mesh.view.elements))
        r0 = sys.getrefcount(e)
        for i in range(M.rnd.randint(2, 9)):
            lv.bind(e)
            r1 = sys.getrefcount(e)
            M.check(r0 <= r1 <= r0 + 2, "bound", r1 - r0)
            for _ in range(M.rnd.randint(0, 2)):
                lv.bind(e)
            M.check(sys.getrefcount(e) == r1, "rebound", sys.getrefcount(e) - r0)
            for _ in range(M.rnd.randint(1, 2)):
                lv.unbind()
            M.check(sys.getrefcount(e) == r0, "unbound", sys.getrefcount(e) - r0)
        lv.bind(e)
        del lv
        gc.collect()
        M.check(sys.getrefcount(e) == r0, "view-destroyed", sys.getrefcount(e) - r0)
        # arrays and callables
        v = np.zeros(b.size())
        r1 = sys.getrefcount(v)
        f = b.asFunction(v)
        del f
        gc.collect()
        M.check(sys.getrefcount(v) == r1, "array-leaked", sys.getrefcount(v) - r1)

        class Callable:
            def __call__(self, x):
                return x[0]
        c = Callable()
        r2 = sys.getrefcount(c)
        b.interpolate(v, c)
        M.check(sys.getrefcount(c) == r2 and sys.getrefcount(v) == r1, "callable-leaked", sys.getrefcount(c) - r2)
        M.refused(lambda: b.interpolate(np.zeros(1), c), "size")
        gc.collect()
        M.check(sys.getrefcount(c) == r2, "callable-leaked-on-error", sys.getrefcount(c) - r2)
        # a basis that is not referenced any more dies, and with it what it kept
        g = weakref.ref(b)
        del b
        gc.collect()
        M.check(g() is None, "basis-leaked")
        M.state(rep, mesh.n)


@case
def rebind():
    """nodes obtained before follow the local view; views of one basis are independent of each other"""
    for tree, path in ((Pow(Lag(1), 2), (1,)), (Comp(RT(0), Lag(1), Ned()), (0,)), (Comp(RT(0), Lag(1), Ned()), (2,))):
        mesh = Mesh(2, [3, 2])
        b = df.defaultGlobalBasis(mesh.view, tree)
        es = list(mesh.view.elements)
        lv, other = b.localView(), b.localView()
        lv.bind(es[0])
        nd, t = node(lv.tree(), path), lv.tree()
        for _ in range(8):
            e, o = M.rnd.choice(es), M.rnd.choice(es)
            lv.bind(e)
            other.bind(o)
            ref = b.localView()
            ref.bind(e)
            x = random_x(2)
            w = node(ref.tree(), path)
            M.check(shape_values(nd.finiteElement(), x) == shape_values(w.finiteElement(), x), "shapes", repr(tree), path)
            M.check([nd.localIndex(i) for i in range(len(nd))] == [w.localIndex(i) for i in range(len(w))], "local-index")
            M.check([list(lv.index(i)) for i in range(len(lv))] == [list(ref.index(i)) for i in range(len(ref))], "index")
            M.check(len(t) == len(lv), "tree")
            if M.rnd.random() < .5:
                lv.unbind()
            M.state(repr(tree), path, tuple(map(float, e.geometry.center)), tuple(map(float, o.geometry.center)))


def history(tree, steps):
    """random histories over a pool of objects obtained from each other; the pool loses members at random"""
    path = (1,) if isinstance(tree, df.Power) else ()
    mesh = Mesh(2, [M.rnd.randint(1, 4), M.rnd.randint(1, 4)])
    pool = [("basis", df.defaultGlobalBasis(mesh.view, tree), mesh.n, None)]
    del mesh
    vec = bool(path)
    n1 = 8 if vec else 9

    def dim(n): return 2 * (n[0] + 1) * (n[1] + 1) if vec else (2 * n[0] + 1) * (2 * n[1] + 1)
    trace = []
    for _ in range(steps):
        kind, o, n, x = M.rnd.choice(pool)
        op = "probe"
        if kind == "basis":
            op = M.rnd.choice(["view", "function", "gridview", "probe"])
            if op == "view":
                pool.append(("view", o.localView(), n, {"center": None}))  # the token does not refer to the view
            elif op == "function":
                c = [M.rnd.uniform(-1, 1) for _ in range(4)]
                v = np.zeros(o.size())
                o.interpolate(v, (lambda y: [c[0] + c[1] * y[0], c[2] + c[3] * y[1]]) if vec else (lambda y: c[0] + c[1] * y[0]))
                pool.append(("function", o.asFunction(v), n, c))
            elif op == "gridview":
                pool.append(("gridview", o.gridView, n, None))
            else:
                M.check(len(o) == dim(n) == o.dimension, "history-dimension", trace, n, len(o))
        elif kind == "view":
            op = M.rnd.choice(["bind", "bind", "unbind", "tree", "element", "index"])
            gv = next((p[1] for p in pool if p[0] == "gridview" and p[2] is n), None)
            if gv is None:
                gv = next((p[1].gridView for p in pool if p[0] == "basis" and p[2] is n), None)
            if op == "bind" and gv is not None:
                e = M.rnd.choice(list(gv.elements))
                o.bind(e)
                x["center"] = [float(w) for w in e.geometry.center]
            elif op == "unbind":  # nothing of an unbound view may be used
                o.unbind()
                x["center"] = None
                pool = [p for p in pool if p[0] not in ("tree", "child", "fe") or p[3] is not x]
            elif x["center"] is not None:
                if op == "tree":
                    t = o.tree()
                    pool.append(("tree", t, n, x))
                    if path:
                        pool.append(("child", t.child(1), n, x))
                elif op == "element":
                    o.bind(o.element()) if M.rnd.random() < .3 else None
                    pool.append(("element", o.element(), n, x["center"]))
                elif op == "index":
                    ix = [o.index(i)[0] for i in range(n1)]
                    M.check(len(set(ix)) == n1 and 0 <= min(ix) and max(ix) < dim(n), "history-index", trace, ix)
        elif kind == "tree":
            M.check(len(o) == n1 and o.localIndex(n1 - 1) == n1 - 1, "history-tree", trace)
            if not vec:
                pool.append(("fe", o.finiteElement(), n, x))
        elif kind == "child":
            M.check(len(o) == 4 and o.localIndex(0) == 4, "history-child", trace)
            pool.append(("fe", o.finiteElement(), n, x))
        elif kind == "fe":
            M.check(near(sum(v[0] for v in shape_values(o, random_x(2))), 1), "history-fe", trace)
        elif kind == "gridview":
            M.check(o.size(0) == n[0] * n[1] == sum(1 for _ in o.elements), "history-gridview", trace, o.size(0), n)
        elif kind == "element":
            M.check(all(near(a, float(c)) for a, c in zip(x, o.geometry.center)), "history-element", trace)
        elif kind == "function":
            op = M.rnd.choice(["probe", "basis", "grid", "local"])
            if op == "basis":
                pool.append(("basis", o.basis, n, None))
            elif op == "grid":
                pool.append(("gridview", o.grid, n, None))
            elif op == "local":
                pool.append(("local", o.localFunction(), n, x))
            else:
                e = M.rnd.choice(list(o.grid.elements))
                q = random_x(2)
                y = e.geometry.toGlobal(q)
                M.check(all(near(a, c, 1e-8) for a, c in zip(fval(o, e, q), [x[0] + x[1] * y[0], x[2] + x[3] * y[1]])), "history-function", trace)
        elif kind == "local":
            gv = next((p[1] for p in pool if p[0] == "gridview" and p[2] is n), None)
            if gv is not None:
                e = M.rnd.choice(list(gv.elements))
                o.bind(e)
                q = random_x(2)
                y = e.geometry.toGlobal(q)
                M.check(all(near(a, c, 1e-8) for a, c in zip(flat(o(q)), [x[0] + x[1] * y[0], x[2] + x[3] * y[1]])), "history-local", trace)
        trace.append(kind + "." + op)
        del o, x
        # forget some
        while len(pool) > 1 and (len(pool) > 14 or M.rnd.random() < .2):
            pool.pop(M.rnd.randrange(len(pool)))
            trace.append("drop")
        if M.rnd.random() < (.02 if any(p[0] in ("basis", "function") for p in pool) else .3):
            m = Mesh(2)
            pool.append(("basis", df.defaultGlobalBasis(m.view, tree), m.n, None))
            del m
        if M.rnd.random() < .3:
            e = t = gv = es = v = None
            gc.collect()
        M.state(tuple(trace))
        M.count("operations")
    M.sample(" ".join(trace[:14]))


@case
def histories():
    for rep in range(60 if M.thorough else 8):
        for tree in (Lag(2), Pow(Lag(1), 2)):
            history(tree, 60)


# ------------------------------------------------------------------ refusals
@case
def refusals():
    for tree, good in ((Lag(2), lambda x: 1.0), (Pow(Lag(1), 2), lambda x: [1.0, 1.0])):
        vec = isinstance(tree, df.Power)
        mesh = Mesh(2)
        b = df.defaultGlobalBasis(mesh.view, tree)
        n = b.size()
        # what is accepted is written
        for dt, f in ((float, good), (np.float64, good), (bool, (lambda x: [True, True]) if vec else (lambda x: True))) + (() if vec else ((np.int32, lambda x: 1),)):
            v = np.zeros(n, dtype=dt)
            b.interpolate(v, f)
            M.check(bool((v == 1).all()), "accepted-dtype", dt, v)
        # everything else is either written completely or refused
        for dt in (np.float32, np.float16, np.int32, np.int64, np.int8, np.uint32, complex, object, np.longdouble):
            v = np.zeros(n, dtype=dt)
            try:
                b.interpolate(v, good)
            except Exception:
                M.check(bool((v == 0).all()), "refused-but-written", dt)
                M.count("refusals")
            else:
                M.check(bool((v == 1).all()), "silently-not-written", dt, v[:4])
        for v in ([0.0] * n, tuple([0.0] * n), range(n), "x" * n, None, 1.0):
            M.refused(lambda: b.interpolate(v, good), "not-an-array", type(v))
        for shape in ((n + 1,), (n - 1,), (0,), (2 * n,), (n, 1), (n, 2), (), (1, n)):
            v = np.zeros(shape)
            M.refused(lambda: b.interpolate(v, good), "shape", shape)
            M.check(bool((v == 0).all()), "refused-but-written", shape)
        v = np.zeros(n)
        v.flags.writeable = False
        M.refused(lambda: b.interpolate(v, good), "read-only")
        M.check(bool((v == 0).all()), "read-only-written")
        for m in (0, 1, n - 1, n + 1, 2 * n):
            M.refused(lambda: b.asFunction(np.zeros(m)), "function-size", m)
            M.refused(lambda: type(b.asFunction(np.zeros(n)))(b, np.zeros(m)), "constructor-size", m)
        for dt in (np.float32, np.int64, complex, np.int8, bool):
            v = np.ones(n, dtype=dt)
            e = next(iter(mesh.view.elements))
            try:
                f = b.asFunction(v)
            except Exception:
                M.check(True, "function-dtype")
                M.count("refusals")
            else:
                M.check(all(near(c, 1) for c in fval(f, e, [.3, .3])), "function-dtype", dt, fval(f, e, [.3, .3]))
        for bad in (None, 3, "x", [0.0] * n):
            M.refused(lambda: b.asFunction(bad), "function-argument", type(bad))
        # exceptions of the callable arrive
        class Boom(Exception):
            pass
        calls = [0]
        stop = M.rnd.randint(1, 4)

        def boom(x):
            calls[0] += 1
            if calls[0] == stop:
                raise Boom("here")
            return good(x)
        v = np.zeros(n)
        try:
            b.interpolate(v, boom)
            M.check(False, "exception-lost")
        except Boom as e:
            M.check(str(e) == "here" and calls[0] == stop, "exception-altered", e, calls[0], stop)
        for bad in (lambda x: "s", lambda x: None, lambda x: object(), lambda: 1.0, lambda x, y: 1.0):
            M.refused(lambda: b.interpolate(np.zeros(n), bad), "callable-result")
        M.refused(lambda: b.interpolate(np.zeros(n), None), "callable-none")
        if vec:
            for bad in (lambda x: [1.0] * 3, lambda x: [1.0]):
                try:
                    b.interpolate(np.zeros(n), bad)
                except Exception:
                    pass
                M.count("wrong_length_results")
        # the basis works as before
        v = np.zeros(n)
        b.interpolate(v, good)
        M.check(bool((v == 1).all()), "after-refusals")
        lv = b.localView()
        for bad in (None, 1, mesh.view, lv):
            M.refused(lambda: lv.bind(bad), "bind-argument")
        lv.bind(next(iter(mesh.view.elements)))
        M.check(len(lv) in (8, 9), "bind-after-refusal")
        M.state(repr(tree), mesh.n)


@case
def descriptions():
    """the classes describing trees, and the C++ type built from them"""
    from dune.functions.globalbasis import preBasisTypeName, indexMergingStrategy
    from dune.functions.tree import DG, Tree
    a, c = Lag(1), RT(0)
    t = a * c
    M.check(type(t) is df.Composite and t.children == [a, c] and t.blocked is False and t.layout == "lexicographic", "mul")
    p = a ** 3
    M.check(type(p) is df.Power and p.exponent == 3 and p.children == [a] and p.blocked is False and p.layout == "lexicographic", "pow")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        df.Power(a, 2)
        M.check(len(w) == 1 and "layout" in str(w[0].message), "pow-warning", len(w))
        df.Power(a, 2, layout="interleaved")
        M.check(len(w) == 1, "pow-no-warning", len(w))
    for layout in ("lexicographic", "interleaved"):
        for blocked in (False, True):
            ims = indexMergingStrategy(blocked, layout)
            M.check(ims.split("::")[-1] == ("Blocked" if blocked else "Flat") + layout.capitalize(), "ims", ims)
    M.refused(lambda: indexMergingStrategy(False, "sideways"), "ims-unknown")
    for bad in (DG(1), DG(2, 3), Comp(a, DG(1)), Pow(DG(1), 2)):
        M.refused(lambda: preBasisTypeName(bad, "GV"), "dg", repr(bad))
        M.refused(lambda: df.defaultGlobalBasis(Mesh(2).view, bad), "dg-basis")
    M.refused(lambda: preBasisTypeName(Tree("x"), "GV"), "unknown-tree")
    M.refused(lambda: preBasisTypeName("Lagrange", "GV"), "no-tree")
    M.refused(lambda: df.Composite(), "empty-composite")
    M.refused(lambda: df.Composite(1, 2), "composite-of-ints")
    M.refused(lambda: df.Power(None, 2), "power-of-none")

    # every description gives the type with the same tree; the compiler decides whether types are the same
    def want(t):
        F = "Dune::Functions::"
        if isinstance(t, df.Lagrange): return f"{F}LagrangePreBasis<GV,{t.order}>"
        if isinstance(t, df.RaviartThomas): return f"{F}RaviartThomasPreBasis<GV,{t.order}>"
        if isinstance(t, df.Nedelec): return f"{F}NedelecPreBasis<GV,double,{t.kind},{t.order}>"
        ims = F + "BasisFactory::" + ("Blocked" if t.blocked else "Flat") + t.layout.capitalize()
        if isinstance(t, df.Power): return f"{F}PowerPreBasis<{ims},{want(t.children[0])},{t.exponent}>"
        return f"{F}CompositePreBasis<{ims},{','.join(want(x) for x in t.children)}>"

    def rand(d):
        r = M.rnd
        k = r.randint(0, 4 if d else 2)
        if k == 0: return Lag(r.randint(1, 5))
        if k == 1: return RT(r.randint(0, 2))
        if k == 2: return df.Nedelec(kind=1, order=1)
        if k == 3: return df.Power(rand(d - 1), r.randint(1, 4), blocked=r.random() < .5, layout=r.choice(["lexicographic", "interleaved"]))
        return df.Composite(*[rand(d - 1) for _ in range(r.randint(1, 3))], blocked=r.random() < .5)
    gv = Mesh(2).view
    includes = list(gv.cppIncludes) + ["dune/functions/functionspacebases/" + h + ".hh" for h in
                                       ("powerbasis", "compositebasis", "lagrangebasis", "nedelecbasis", "raviartthomasbasis", "defaultglobalbasis")]
    code = ["#include <config.h>"] + [f"#include <{i}>" for i in includes] + ["#include <type_traits>", f"using GV = {gv.cppTypeName};"]
    trees = [rand(3) for _ in range(400 if M.thorough else 200)]
    for i, t in enumerate(trees):
        code.append(f'static_assert(std::is_same_v<{preBasisTypeName(t, "GV")}, {want(t)}>, "tree {i} differs");')
        r = repr(t)
        M.check(r.count("(") == r.count(")") and r.count("[") == r.count("]"), "repr", r)
        M.state(want(t))
    import dune.generator
    errors = dune.generator.builder.diagnose("\n".join(code))
    other = [l for l in errors if "differs" not in l]
    if other:
        raise vfbuilder.CompileError("compilation of descriptions failed: " + "\n".join(other))
    for i, t in enumerate(trees):
        bad = [l for l in errors if f"tree {i} differs" in l]
        M.check(not bad, "type", repr(t), preBasisTypeName(t, "GV"), want(t))


def main():
    global M
    a = sys.argv[1:]
    opt = {"--seed": "1", "--out": None, "--case": None, "--repo": "/repo", "--build": None}
    thorough = "--thorough" in a
    lst = "--list" in a
    i = 0
    while i < len(a):
        if a[i] in opt:
            opt[a[i]] = a[i + 1]
            i += 1
        i += 1
    if lst:
        chosen = os.environ.get("VF_PYSET", "")
        print("\n".join(c for c in CASES if (thorough or c not in THOROUGH_CASES) and (not chosen or (c in OWNERSHIP) == (chosen == "ownership"))))
        return 0
    out = open(opt["--out"], "a") if opt["--out"] else sys.stdout
    M = Monitor(out, opt["--case"], opt["--seed"], thorough)
    M.emit({"start": M.name})
    try:
        setup_modules(opt["--repo"], opt["--build"])
        CASES[opt["--case"]]()
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        if isinstance(e, vfbuilder.BuildTrouble):
            sys.stderr.write(str(e)[:3000])
            return 4
        # for the user of the bindings, a module that does not compile is an object that can not be created
        M.fail("cannot-be-created" if isinstance(e, vfbuilder.CompileError) else "unexpected-exception", f"{type(e).__name__} {str(e)[:600]} {tb[-900:]}")
    r = resource.getrusage(resource.RUSAGE_SELF)
    M.obs["cpu_ms"] = int((r.ru_utime + r.ru_stime) * 1000)
    M.emit({"end": M.name, "distinct": len(M.states), "obs": M.obs, "samples": M.samples})
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)  # no destruction of modules at exit: out of scope
