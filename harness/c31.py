"""The Python files of dune.geometry, with stand-ins for the compiled module, the
generator and quadpy."""
import os
import sys
import types
import numpy

REPO = "/repo"
CODE = {}
SHAPES = {1: ["Line"], 2: ["Triangle", "Quadrilateral"], 3: ["Tetrahedron", "Pyramid", "Prism", "Hexahedron"]}


class GeometryType:
    """What the compiled class offers (C28): equality, a hash of its own, dim, names."""

    def __init__(self, dim, id):
        self.dim = self.dimension = dim
        self._id = id            # 0 .. number of types - 1

    def __eq__(self, o):
        return bool(isinstance(o, GeometryType) and self.dim == o.dim and self._id == o._id)

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(self.dim)

    def __str__(self):
        return "GeometryType(%d,%d)" % (self._id, self.dim)

    @property
    def isVertex(self):
        return self.dim == 0

    @property
    def isNone(self):
        return False

    @property
    def isSimplex(self):
        return bool(self._id == 0)

    @property
    def isCube(self):
        return bool(self._id == max(count(self.dim) - 1, 0))


for _d, _l in SHAPES.items():
    for _i, _n in enumerate(_l):
        setattr(GeometryType, "is" + _n, property(lambda self, d=_d, i=_i: bool(self.dim == d and self._id == i)))


def count(dim):
    return 1 if dim < 2 else 2**(dim - 1)


def same(a, b):
    return a is b or (a.dim == b.dim and a._id == b._id)


class Record:
    pass


def refmodule(dim, w):
    """The compiled module of the reference elements of one dimension."""
    m = types.ModuleType("dune.geometry._geometry._defaultreferenceelements_%d" % dim)

    class Rule:
        def __init__(self, type, order):
            self.type, self.requested, self.dim = type, order, dim
            if w.points is not None:
                self.arrays = w.points(dim)

        def get(self):
            return self.arrays

    class Element:
        def __init__(self, type):
            self.type, self.dim = type, dim

    def rule(type, order):
        if not isinstance(type, GeometryType) or type.dim != dim:
            raise TypeError("rule(): incompatible function arguments")
        return Rule(type, order)

    def general(type):
        if not isinstance(type, GeometryType) or type.dim != dim:
            raise TypeError("general(): incompatible function arguments")
        return Element(type)
    m.rule, m.general, m.isModuleOf = rule, general, dim
    return m


def load(precompiled=True, points=None):
    """A fresh dune.geometry."""
    for n in [n for n in sys.modules if n == "dune" or n.startswith("dune.") or n == "quadpy" or n.startswith("quadpy.")]:
        del sys.modules[n]
    w = Record()
    w.points, w.loads, w.generated = points, [], {}

    def package(name, **attrs):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(attrs)
        sys.modules[name] = m
        if "." in name:
            setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        return m
    package("dune")
    package("dune.common")
    import hashlib
    package("dune.common.hashit", hashIt=lambda s: hashlib.md5((s if isinstance(s, str) else "".join(s)).encode()).hexdigest())

    class SimpleGenerator:
        def __init__(self, typeName, namespace, pythonname=None, filename=None):
            self.typeName, self.namespace = typeName, namespace

        def load(self, includes, duneType, moduleName, *args, **kw):
            w.loads.append((self.typeName, self.namespace, tuple(includes), duneType, moduleName))
            t = "".join(duneType.split())
            head = "Dune::Geo::ReferenceElement<Dune::Geo::ReferenceElementImplementation<double,"
            if not (t.startswith(head) and t.endswith(">>")):
                raise ValueError("unknown type " + duneType)
            # compiled modules are found by their names
            if moduleName not in w.generated:
                w.generated[moduleName] = refmodule(int(t[len(head):-2]), w)
            return w.generated[moduleName]
    package("dune.generator")
    package("dune.generator.generator", SimpleGenerator=SimpleGenerator)
    g = package("dune.geometry")
    c = package("dune.geometry._geometry", GeometryType=GeometryType)
    del c.__path__
    if precompiled:
        for d in range(5):
            m = refmodule(d, w)
            sys.modules[m.__name__] = m
            setattr(c, m.__name__.rpartition(".")[2], m)
    base = os.path.join(REPO, "python", "dune", "geometry")
    g.__file__ = os.path.join(base, "__init__.py")
    g.__package__ = "dune.geometry"
    g.__path__ = [base]
    execute(g)
    return g, w


class Finder:
    """Imports the module's files without writing byte code next to them."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if not name.startswith("dune.geometry."):
            return None
        f = os.path.join(REPO, "python", "dune", "geometry", name.split(".")[-1] + ".py")
        if name.count(".") != 2 or not os.path.exists(f):
            return None
        from importlib.machinery import ModuleSpec
        s = ModuleSpec(name, Finder, origin=f)
        return s

    @staticmethod
    def create_module(spec):
        return None

    @staticmethod
    def exec_module(m):
        m.__file__ = m.__spec__.origin
        execute(m)


def execute(m):
    f = m.__file__
    if f not in CODE:
        CODE[f] = compile(open(f).read(), f, "exec")
    exec(CODE[f], m.__dict__)


sys.meta_path.insert(0, Finder)


def request(v, k, dims):
    """A type, given as itself or by something that has it."""
    dim = dims[v.choose("dim%d" % k, len(dims))]
    t = GeometryType(dim, v.int("id%d" % k, 0, count(dim) - 1))
    if v.choose("entity%d" % k, 2):
        e = Record()
        e.type = t
        return e, t
    return t, t


def rules(v, n, dims):
    g, w = load()
    got = []
    for k in range(n):
        x, t = request(v, k, dims)
        order = v.int("order%d" % k, 0, 60)
        r = g.quadratureRules(order)(x) if v.choose("lazy%d" % k, 2) else g.quadratureRule(x, order)
        got.append((r, t, order))
        for r, t, order in got:          # neither the new nor the old ones changed
            v.check(r.dim == t.dim, "the rule has the dimension of the type")
            v.equal(r.type._id, t._id, "the rule belongs to the requested type")
            v.equal(r.requested, order, "the rule has the requested order")
            v.check(callable(getattr(r, "apply", None)), "the rule can be applied")


def elements(v, n, dims):
    g, w = load()
    got = []
    for k in range(n):
        x, t = request(v, k, dims)
        got.append((g.referenceElement(x), t))
        for r, t in got:
            v.check(r.dim == t.dim, "the reference element has the dimension of the type")
            v.equal(r.type._id, t._id, "the reference element belongs to the requested type")


def modules(v):
    """Compiled modules are used if there are any, others are generated."""
    compiled = v.choose("compiled", 2)
    g, w = load(precompiled=compiled)
    for k in range(3):
        dim = v.choose("dim%d" % k, 7)
        m = g.module(dim)
        v.check(m.isModuleOf == dim, "the module has the requested dimension")
        v.check(not (compiled and dim < 5 and any("double,%d>" % dim in "".join(l[3].split()) for l in w.loads)), "a compiled module is not generated again")
    for t, n, inc, duneType, name in w.loads:
        v.check(t == "ReferenceElements" and n == "Dune::Python", "the registration function of reference elements is called")
        v.check("dune/python/geometry/referenceelements.hh" in inc, "its header is included")
        v.check(name.isidentifier(), "the name of a generated module is an identifier")


def integration(v):
    dim = 1 + v.choose("dim", 3)
    n = 1 + v.choose("points", 3)
    comps = v.choose("components", 3)      # 0: a number
    xs = numpy.array([[v.real("x%d_%d" % (i, j)) for j in range(n)] for i in range(dim)], dtype=object)
    ws = numpy.array([v.real("w%d" % j) for j in range(n)], dtype=object)
    ies = [v.real("ie%d" % j) for j in range(n)]
    fs = [[v.real("f%d_%d" % (i, j)) for j in range(n)] for i in range(max(comps, 1))]
    g, w = load(points=lambda d: (xs, ws))
    seen = []

    def same_points(p):
        return p is xs or (p.shape == xs.shape and all(bool(a == b) for a, b in zip(p.flat, xs.flat)))

    class Geometry:
        def integrationElement(self, p):
            v.check(same_points(p), "the integration element is taken at the points of the rule")
            return numpy.array(ies, dtype=object)
    geo = Geometry()
    geo.type = GeometryType(dim, 0)
    kind = v.choose("geometry", 2)
    if kind:
        entity = geo                        # a geometry instead of an entity
    else:
        entity = Record()
        entity.type, entity.geometry = geo.type, geo

    def f(e, p):
        v.check(e is entity, "the function is called with the entity")
        v.check(same_points(p), "the function is evaluated at the points of the rule")
        return numpy.array(fs if comps else fs[0], dtype=object)
    order = v.int("order", 0, 60)
    how = v.choose("how", 2)
    res = g.integrate(g.quadratureRules(order), entity, f) if how else g.quadratureRule(entity, order).apply(entity, f)
    res = list(numpy.array(res, dtype=object).reshape(-1))
    v.check(len(res) == max(comps, 1), "one result for each component")
    for r, fi in zip(res, fs):
        s = 0
        for j in range(n):
            s = s + fi[j] * ies[j] * ws[j]
        v.equal(r, s, "the integral is the sum of values, integration elements and weights")


class Scheme:
    def __init__(self, quad, method, v):
        self.quad, self.method, self.degree = quad, method, 3
        self.points = numpy.array([[v.real("p%d_%d" % (j, i)) for i in range(quad.columns)] for j in range(2)], dtype=object)
        self.weights = numpy.array([v.real("w%d" % j) for j in range(2)], dtype=object)


def quadpy(v):
    """Stand-in for quadpy: families of schemes, affine and multilinear transformations."""
    q = types.ModuleType("quadpy")
    q.__path__ = []
    sys.modules["quadpy"] = q
    cache = {}

    class Family:
        def __init__(self, name, columns):
            self.name, self.columns = name, columns

        def __getattr__(self, method):
            if method.startswith("_") or not method.startswith("scheme"):
                raise AttributeError(method)
            k = (self.name, method)
            if k not in cache:
                cache[k] = Scheme(self, method, v)
            return cache[k]

        def integrate(self, f, vertices, scheme):
            return ("integrated", self, f, vertices, scheme)
    for n, c in dict(line_segment=1, triangle=3, quadrilateral=2, tetrahedron=4, hexahedron=3, pyramid=3, wedge=3).items():
        setattr(q, n, Family(n, c))
    q.quadrilateral.__dict__["rectangle_points"] = lambda x, y: [[[x[i], y[j]] for j in range(2)] for i in range(2)]
    q.hexahedron.__dict__["cube_points"] = lambda x, y, z: [[[[x[i], y[j], z[k]] for k in range(2)] for j in range(2)] for i in range(2)]
    for n in ("ncube", "nsimplex"):
        p = types.ModuleType("quadpy." + n)
        p.__path__ = []
        t = types.ModuleType("quadpy.%s.transform" % n)
        p.transform = t
        sys.modules[p.__name__], sys.modules[t.__name__] = p, t
        setattr(q, n, p)

    def corners(x):                       # of a multilinear cell: axes first, then the coordinate
        x = numpy.array(x, dtype=object)
        return x if x.ndim > 1 else x.reshape(-1, 1)

    def ncube(xi, c):
        c = corners(c)
        out = []
        for k in range(xi.shape[1]):
            a = c
            for d in range(xi.shape[0]):
                a = a[0] * (1 - xi[d, k]) + a[1] * xi[d, k]
            out.append(a)
        return numpy.array(out, dtype=object)
    q.ncube.transform.transform = ncube
    q.ncube.transform.get_detJ = lambda xi, c: numpy.array([1] * xi.shape[1], dtype=object)
    q.nsimplex.transform.transform = lambda xi, s: numpy.dot(numpy.array(s, dtype=object), xi)   # corners as columns
    q.nsimplex.transform.get_vol = lambda s: {2: 1, 3: 1, 4: 1}[len(s)]
    return q


def qprules(v):
    """Requests of quadpy rules: two shapes with two schemes each."""
    g, w = load()
    q = quadpy(v)
    import importlib
    qp = importlib.import_module("dune.geometry.quadpy")
    shapes = [(1, 0, "line_segment"), (2, 0, "triangle"), (2, 1, "quadrilateral"), (3, 0, "tetrahedron"), (3, 3, "hexahedron")]
    got = []
    for k in range(2):
        dim, id, family = shapes[v.choose("shape%d" % k, len(shapes))]
        t = GeometryType(dim, id)
        method = ["schemeA", "schemeB"][v.choose("method%d" % k, 2)]
        x = t
        if v.choose("entity%d" % k, 2):
            x = Record()
            x.type = t
        if v.choose("lazy%d" % k, 2):
            r = qp.rules({t: (3, method)})(x)
        else:
            r = qp.rule(x, (3, method))
        got.append((r, dim, family, method))
    for r, dim, family, method in got:
        s = getattr(getattr(q, family), method)
        v.check(r.order == s.degree and r.name() == method, "the rule is the requested one")
        pts, wts = r.get()
        v.check(pts.shape == (dim, 2) and len(wts) == 2, "points are columns")
        it = list(r)
        v.check(len(it) == 2, "iteration visits every point")
        for j in range(2):
            v.equal(wts[j], s.weights[j], "weights of the scheme")
            v.equal(it[j].weight, s.weights[j], "weights of the scheme by iteration")
            simplex = family in ("triangle", "tetrahedron")
            for i in range(dim):
                e = s.points[j][i + 1] if simplex else s.points[j][i]
                v.equal(pts[i][j], e, "points of the scheme on the reference element")
                v.equal(it[j].position[i], e, "points of the scheme by iteration")


def qpnone(v):
    """Shapes without rule are rejected, requests without method give the family."""
    load()
    q = quadpy(v)
    import importlib
    qp = importlib.import_module("dune.geometry.quadpy")
    dim = v.choose("dim", 6)
    id = v.choose("id", count(dim))
    t = GeometryType(dim, id)
    families = {(1, 0): "line_segment", (2, 0): "triangle", (2, 1): "quadrilateral", (3, 0): "tetrahedron", (3, 3): "hexahedron"}
    for request in ((None, None), (2, "schemeA")):
        try:
            r = qp.rule(t, request)
        except ValueError:
            v.check((dim, id) not in families, "supported shapes are not rejected")
            continue
        v.check((dim, id) in families, "unsupported shapes are rejected")
        if request[0] is None:
            v.check(r is getattr(q, families[dim, id]), "the family of the shape")


ENTRIES = dict(
    rules=lambda v: rules(v, 2, [0, 1, 2, 3, 4]),
    rules3=lambda v: rules(v, 3, [2, 3]),
    elements=lambda v: elements(v, 2, [0, 1, 2, 3, 4]),
    elements3=lambda v: elements(v, 3, [1, 2, 3]),
    elements4_T=lambda v: elements(v, 4, [1, 2, 3]),
    rules4_T=lambda v: rules(v, 4, [2]),
    modules=modules,
    integration=integration,
    quadpy=qprules,
    unsupported=qpnone,
)
