"""Python-side properties (P01-P03): generators and oracles."""
import math
import numpy
import dune.geometry as dg
import vtruth
from dune.common import FieldVector
from pyrun import prop

PRED = ["isVertex", "isLine", "isTriangle", "isQuadrilateral", "isTetrahedron", "isPyramid", "isPrism", "isHexahedron", "isSimplex", "isCube", "isNone"]

# ---------------------------------------------------------------- model of type labels

class T:
    """A type label of the model: dimension, sequence of extension steps (bit
    d is set if step d is a prism; the first step has no influence), or none."""
    def __init__(self, dim, code, none=False):
        self.dim, self.code, self.none = dim, (0 if none else code & ~1 & ((1 << dim) - 1)), none

    def key(self):
        return (self.dim, self.code, self.none)

    def steps(self):
        return [(self.code >> i) & 1 for i in range(1, self.dim)]

    def simplex(self):
        return not self.none and not any(self.steps())

    def cube(self):
        return not self.none and all(self.steps())

    def name(self):
        if self.none:
            return "none(%d)" % self.dim
        if self.dim < 4:
            return {(0, 0): "vertex", (1, 0): "line", (2, 0): "triangle", (2, 2): "quadrilateral", (3, 0): "tetrahedron", (3, 2): "pyramid",
                    (3, 4): "prism", (3, 6): "hexahedron"}[(self.dim, self.code)]
        if self.simplex():
            return "simplex(%d)" % self.dim
        if self.cube():
            return "cube(%d)" % self.dim
        return None

    def predicates(self):
        d = {k: False for k in PRED}
        d["isNone"] = self.none
        if not self.none:
            n = self.name()
            if self.dim < 4:
                d["is" + n.capitalize()] = True
            d["isSimplex"], d["isCube"] = self.simplex(), self.cube()
        return d

def all_types(maxdim):
    return [T(d, c) for d in range(maxdim + 1) for c in range(0, max(1, 1 << d), 2)] + [T(d, 0, True) for d in range(maxdim + 1)]

TYPES = all_types(6)
SHAPES = [(d, c) for d in range(5) for c in range(0, max(1, 1 << d), 2)]

def spell(s, t):
    """one of the ways of writing or obtaining a label in Python"""
    sp = [lambda: "", lambda: " " * s.choice(3)][s.choice(2)]
    ways = []
    if t.name():
        ways.append(lambda: dg.GeometryType(t.name()))
    if t.none:
        ways.append(lambda: dg.none(t.dim))
        ways.append(lambda: dg.GeometryType("none(%s%d%s)" % (sp(), t.dim, sp())))
    else:
        low = s.choice(2) if t.dim > 0 else 0
        ways.append(lambda: dg.GeometryType("general(%s%d%s,%s%d%s)" % (sp(), t.code | low, sp(), sp() + " ", t.dim, sp())))
        if t.simplex():
            ways.append(lambda: dg.simplex(t.dim))
            ways.append(lambda: dg.GeometryType("simplex(%s%d%s)" % (sp(), t.dim, sp())))
        if t.cube():
            ways.append(lambda: dg.cube(t.dim))
            ways.append(lambda: dg.GeometryType("cube(%s%d%s)" % (sp(), t.dim, sp())))
        if t.dim < 4:
            ways.append(lambda: getattr(dg, t.name()))
    return ways[s.choice(len(ways))]()

@prop("P01", "types", "the pair of labels is written in at least one way other than its plain name, or the two differ")
def p01_types(s, c):
    t = TYPES[s.stratum(len(TYPES))]
    u = t if s.choice(3) == 0 else s.pick(TYPES)
    a, b = spell(s, t), spell(s, u)
    c.desc = "%s and %s" % (t.key(), u.key())
    c.cls("dim %d%s" % (t.dim, " none" if t.none else ""))
    for x, m in ((a, t), (b, u)):
        want = vtruth.make(m.code, m.dim, m.none)
        info = vtruth.typeInfo(x)
        c.equal((info["dim"], info["id"], info["isNone"]), m.key(), "label behind the name")
        c.check(x == want and not (x != want), "not equal to the C++ label", m.key())
        c.equal(x.dim, m.dim, "dim")
        c.equal(x.dimension, m.dim, "dimension")
        pm = m.predicates()
        for k in PRED:
            c.equal(getattr(x, k), info[k], k, "of", m.key())
            # shapeless labels of dimension 0 and 1 answer like points and lines
            if not (m.none and m.dim < 2):
                c.equal(getattr(x, k), pm[k], k, "of", m.key())
        text = str(x)
        if m.name():
            c.equal(text, m.name(), "text")
        y = dg.GeometryType(text)
        c.check(y == x and hash(y) == hash(x) and str(y) == text, "text does not round trip:", text)
        # an operator against something else must not claim equality
        c.check(not (x == text) and x != text, "a label equals its text")
    same = t.key() == u.key()
    c.equal(a == b, same, "equality")
    c.equal(a != b, not same, "inequality")
    if same:
        c.equal(hash(a), hash(b), "hash of equal labels")
    c.equal(len({a, b}), 1 if same else 2, "set of the two labels")
    c.equal({a: 1}.get(b), 1 if same else None, "dictionary look-up")
    c.nontrivial = not same or t.name() is None or t.dim > 0

NAMES = ["cube", "general", "hexahedron", "line", "none", "prism", "pyramid", "quadrilateral", "simplex", "tetrahedron", "triangle", "vertex"]
NARGS = {"cube": 1, "general": 2, "none": 1, "simplex": 1}

@prop("P01", "names", "the text is not empty")
def p01_names(s, c):
    kind = s.stratum(7)
    n = s.pick(NAMES)
    args = lambda k: "(" + ", ".join(str(s.choice(4)) for _ in range(k)) + ")" if k else ""
    good = n + (args(NARGS[n]) if n in NARGS else "")
    if n == "general":
        good = "general(0, 3)"
    if kind == 0:      # a name that does not exist: letters changed, added or removed
        m = list(n)
        op = s.choice(4)
        i = s.choice(len(m))
        if op == 0:
            m[i] = chr(ord("a") + s.choice(26))
        elif op == 1:
            m.insert(i, chr(ord("a") + s.choice(26)))
        elif op == 2:
            del m[i]
        else:
            m[i] = m[i].upper()
        name = "".join(m)
        if name in NAMES:
            name += "x"
        text = name + good[len(n):]
    elif kind == 1:    # wrong number of arguments
        k = NARGS.get(n, 0)
        wrong = [x for x in range(4) if x != k]
        text = n + args(wrong[s.choice(3)])
    elif kind == 2:    # code too large for the dimension
        d = s.choice(6)
        text = "general(%d, %d)" % ((1 << d) + s.choice(40), d)
    elif kind == 3:    # not a number
        n = ["cube", "none", "simplex", "general"][s.choice(4)]
        bad = ["x", "a1", "dim", "-", "+", "()", "one"][s.choice(6)]
        text = n + ("(%s)" % bad if n != "general" else ["(%s, 2)", "(1, %s)"][s.choice(2)] % bad)
    elif kind == 4:    # unterminated argument list
        n = ["cube", "none", "simplex", "general"][s.choice(4)]
        text = n + ["(", "(3", "(3, ", "(  "][s.choice(4)]
    elif kind == 5:    # empty argument
        n = ["cube", "none", "simplex", "general"][s.choice(4)]
        text = n + ["()", "(,)", "(3,)", "(,3)", "( )"][s.choice(5)]
    else:              # surrounding text or blanks before the name
        text = [" " + good, "x" + good, "a " + n, n + "_" + "1", n + "s", ""][s.choice(6)]
    c.desc = repr(text)
    c.cls("kind %d" % kind)
    c.nontrivial = text != ""
    c.raises(Exception, lambda: str(dg.GeometryType(text)), "malformed name", repr(text))
    # the refusal leaves nothing behind
    c.equal(str(dg.GeometryType("prism")), "prism", "good name after a bad one")

# ---------------------------------------------------------------- reference elements

class Holder:
    def __init__(self, type):
        self.type = type

_truth = {}
def truth(dim, code):
    if (dim, code) not in _truth:
        _truth[(dim, code)] = getattr(vtruth, "refElement_%d" % dim)(code)
    return _truth[(dim, code)]

@prop("P01", "elements", "the element has dimension at least one")
def p01_elements(s, c):
    dim, code = SHAPES[s.stratum(len(SHAPES))]
    m = T(dim, code)
    t = truth(dim, code)
    c.desc = "%s:" % (m.key(),)
    c.cls("dim %d" % dim)
    gt = spell(s, m)
    r = dg.referenceElement(Holder(gt) if s.flag() else gt)
    c.check(r is not None, "no reference element")
    c.equal(r.dimension, dim, "dimension")
    c.near(r.volume, t["volume"], 0, "volume")
    c.nearlist(r.center, t["positions"][0][0], 0, "center")
    c.equal(len(r.corners), t["sizes"][dim], "number of corners")
    for i, x in enumerate(r.corners):
        c.nearlist(x, t["positions"][dim][i], 0, "corner", i)
    c.nontrivial = dim > 0
    for _ in range(12):
        q = s.choice(8)
        cc0 = s.choice(dim + 1)
        i = s.choice(t["sizes"][cc0])
        cc = cc0 + s.choice(dim - cc0 + 1)
        subs = t["subs"][cc0][i][cc]
        c.desc += " q%d(%d,%d,%d)" % (q, i, cc0, cc)
        if q == 0:
            c.equal(r.size(cc0), t["sizes"][cc0], "size", cc0)
            c.equal(r.size(i, cc0, cc), len(subs), "size", i, cc0, cc)
            c.equal(r.size((i, cc0), cc), len(subs), "size of pair", i, cc0, cc)
        elif q == 1:
            c.check(r.type(i, cc0) == t["types"][cc0][i], "type", i, cc0)
            c.check(r.type((i, cc0)) == t["types"][cc0][i], "type of pair", i, cc0)
        elif q == 2:
            ty = r.types(cc0)
            c.equal(len(ty), t["sizes"][cc0], "types", cc0)
            for k in range(len(ty)):
                c.check(ty[k] == t["types"][cc0][k], "types", cc0, "entry", k)
        elif q == 3:
            c.equal(list(r.subEntities(i, cc0, cc)), subs, "subEntities", i, cc0, cc)
            c.equal(list(r.subEntities((i, cc0), cc)), subs, "subEntities of pair", i, cc0, cc)
        elif q == 4:
            ii = s.choice(len(subs))
            c.equal(r.subEntity(i, cc0, ii, cc), subs[ii], "subEntity", i, cc0, ii, cc)
            c.equal(r.subEntity((i, cc0), (ii, cc)), subs[ii], "subEntity of pairs", i, cc0, ii, cc)
        elif q == 5:
            c.nearlist(r.position(i, cc0), t["positions"][cc0][i], 0, "position", i, cc0)
            c.nearlist(r.position((i, cc0)), t["positions"][cc0][i], 0, "position of pair", i, cc0)
            ps = r.positions(cc0)
            c.equal(len(ps), t["sizes"][cc0], "positions", cc0)
            for k in range(len(ps)):
                c.nearlist(ps[k], t["positions"][cc0][k], 0, "positions", cc0, "entry", k)
        elif q == 6 and dim > 0:
            f = s.choice(t["sizes"][1])
            c.nearlist(r.integrationOuterNormal(f), t["normals"][f], 0, "normal", f)
            ns = r.integrationOuterNormals
            c.equal(len(ns), t["sizes"][1], "normals")
            for k in range(len(ns)):
                c.nearlist(ns[k], t["normals"][k], 0, "normals entry", k)
        elif q == 7:
            # indices that do not exist
            n, ns = t["sizes"][cc0], len(subs)
            badc = [-1, dim + 1, dim + 1 + s.choice(5), -1 - s.choice(5)][s.choice(4)]
            badi = [-1, n, n + s.choice(20), -1 - s.choice(20)][s.choice(4)]
            badii = [-1, ns, ns + s.choice(20), -1 - s.choice(20)][s.choice(4)]
            for what, fn in (("size codim", lambda: r.size(badc)), ("type index", lambda: r.type(badi, cc0)), ("type codim", lambda: r.type(0, badc)),
                             ("types codim", lambda: r.types(badc)), ("position index", lambda: r.position(badi, cc0)), ("position codim", lambda: r.position(0, badc)),
                             ("positions codim", lambda: r.positions(badc)), ("sub-size index", lambda: r.size(badi, cc0, cc)), ("sub-size codim", lambda: r.size(i, cc0, badc)),
                             ("subEntities index", lambda: r.subEntities(badi, cc0, cc)), ("subEntities codim", lambda: r.subEntities(i, cc0, badc)),
                             ("subEntities pair index", lambda: r.subEntities((badi, cc0), cc)), ("subEntities pair codim", lambda: r.subEntities((0, badc), cc)),
                             ("subEntity index", lambda: r.subEntity(badi, cc0, 0, cc)), ("subEntity sub-index", lambda: r.subEntity(i, cc0, badii, cc)),
                             ("subEntity pair sub-index", lambda: r.subEntity((i, cc0), (badii, cc))), ("type pair index", lambda: r.type((badi, cc0))),
                             ("position pair index", lambda: r.position((badi, cc0))), ("sub-size pair index", lambda: r.size((badi, cc0), cc))):
                c.raises(ValueError, fn, what, badi, badc, badii)
            if cc0 > 0:
                c.raises(ValueError, lambda: r.size(i, cc0, cc0 - 1), "sub-codimension below the codimension")
            if dim > 0:
                nf = t["sizes"][1]
                c.raises(ValueError, lambda: r.integrationOuterNormal([-1, nf, nf + s.choice(9)][s.choice(3)]), "normal index")
    # asking again, through another spelling
    r2 = dg.referenceElement(spell(s, m))
    c.near(r2.volume, t["volume"], 0, "volume when asked again")
    c.equal([r2.size(k) for k in range(dim + 1)], t["sizes"], "sizes when asked again")
    if s.choice(4) == 0:
        c.check(dg.referenceElement(dg.none(dim)) is None, "shapeless label has a reference element")

# ---------------------------------------------------------------- quadrature

_rules = {}
def truth_rule(dim, code, order):
    k = (dim, code, order)
    if k not in _rules:
        _rules[k] = getattr(vtruth, "rule_%d" % dim)(code, order)
    return _rules[k]

RSHAPES = [(d, c) for d, c in SHAPES if 1 <= d <= 4]

def same_rule(c, q, dim, code, order):
    t = truth_rule(dim, code, order)
    c.equal(q.order, t["order"], "order")
    c.check(q.order >= order, "order below the requested one")
    c.check(q.type == t["type"], "type of the rule", q.type)
    p, w = q.get()
    c.equal(p.shape, (dim, len(t["weights"])), "shape of the point array")
    c.equal(w.shape, (len(t["weights"]),), "shape of the weight array")
    for i in range(len(t["weights"])):
        c.near(w[i], t["weights"][i], 0, "weight", i)
        for k in range(dim):
            c.near(p[k, i], t["points"][i][k], 0, "point", i, "coordinate", k)
    pts = list(q)
    c.equal(len(pts), len(t["weights"]), "number of points iterated over")
    for i, x in enumerate(pts):
        c.near(x.weight, t["weights"][i], 0, "iterated weight", i)
        c.nearlist(x.position, t["points"][i], 0, "iterated point", i)

@prop("P02", "rules", "at least one rule of order two or more is requested")
def p02_rules(s, c):
    rules = []
    for k in range(s.range(1, 5)):
        dim, code = RSHAPES[s.stratum(len(RSHAPES))] if k == 0 else s.pick(RSHAPES)
        order = s.choice(13 if dim < 4 else 5)
        m = T(dim, code)
        gt = spell(s, m)
        way = s.choice(4)
        c.desc += " %s order %d way %d" % (m.name(), order, way)
        c.cls("%s" % m.name())
        c.nontrivial |= order > 1
        if way == 0:
            q = dg.quadratureRule(gt, order)
        elif way == 1:
            q = dg.quadratureRule(Holder(gt), order)
        elif way == 2:
            q = dg.quadratureRules(order)(Holder(gt))
        else:
            q = dg.quadratureRules(order)(gt)
        same_rule(c, q, dim, code, order)
        rules.append((q, dim, code, order))
        if s.choice(8) == 0:
            c.raises(Exception, lambda: dg.quadratureRule(gt, 1000 + s.choice(1000)), "order that does not exist")
    for q in rules:
        same_rule(c, *q)

class Element:
    """Affine element x -> b + A x with vectorised integration element."""
    def __init__(self, type, A, b, nested):
        self.type, self.A, self.b = type, A, b
        self.ie = math.sqrt(max(0.0, numpy.linalg.det(A.T @ A)))
        f = lambda x: self.ie * (1 + self.k * x[0])
        self.k = 0.0
        if nested:
            self.geometry = Inner(f)
        else:
            self.integrationElement = f

    def scale(self, x):
        return self.ie * (1 + self.k * x[0])

class Inner:
    def __init__(self, f):
        self.integrationElement = f

@prop("P02", "integrals", "the integrand is not constant")
def p02_integrals(s, c):
    dim, code = RSHAPES[s.stratum(len(RSHAPES))]
    order = s.choice(13 if dim < 4 else 5)
    m = T(dim, code)
    rules = dg.quadratureRules(order)
    total, want = 0.0, 0.0
    c.desc = "%s order %d" % (m.name(), order)
    comp = s.choice(3)               # scalar, or this many components
    powers = [[s.choice(4) for _ in range(dim)] for _ in range(max(1, comp))]
    coef = [1 + s.choice(5) for _ in powers]
    c.nontrivial = any(any(p) for p in powers)
    c.desc += " powers %s" % powers
    mono = lambda x, k: coef[k] * numpy.prod([x[j] ** powers[k][j] for j in range(dim)], axis=0)

    def f(e, x):
        y = [e.b[j] + sum(e.A[j, l] * x[l] for l in range(dim)) for j in range(dim)]
        if comp == 0:
            return mono(y, 0)
        return numpy.array([mono(y, k) for k in range(comp)])
    for _ in range(s.range(1, 3)):
        A = numpy.array([[(2.0 if i == j else 0.0) + s.sreal(0.5) for j in range(dim)] for i in range(dim)])
        b = numpy.array([s.sreal(1.0) for _ in range(dim)])
        e = Element(spell(s, m), A, b, s.flag())
        e.k = s.real(0, 1)
        q = rules(e)
        got = dg.integrate(rules, e, f) if s.flag() else q.apply(e, f)
        t = truth_rule(dim, code, order)
        exact = [0.0] * max(1, comp)
        size = 0.0
        for x, w in zip(t["points"], t["weights"]):
            v = f(e, numpy.array(x))
            v = [v] if comp == 0 else list(v)
            for k in range(len(exact)):
                exact[k] += float(v[k]) * e.scale(x) * w
                size += abs(float(v[k]) * e.scale(x) * w)
        if comp == 0:
            c.equal(numpy.shape(got), (), "shape of a scalar integral")
            c.near(got, exact[0], 1e-12 * (size + 1e-3), "integral")
        else:
            c.equal(numpy.shape(got), (comp,), "shape of a vector integral")
            c.nearlist(got, exact, 1e-12 * (size + 1e-3), "integral")

# ---------------------------------------------------------------- geometries

PAIRS = [(0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]
GSHAPES = [(d, w, code) for d, w in PAIRS for code in range(0, max(1, 1 << d), 2)]

def form(s, x):
    """a point in one of the forms Python code writes points in"""
    k = s.choice(3)
    return list(x) if k == 0 else tuple(x) if k == 1 else FieldVector(list(x)) if len(x) > 0 else list(x)

def rows(mat, r, w):
    return [[float(mat[i][j]) for j in range(w)] for i in range(r)]

@prop("P03", "queries", "the element has dimension at least one")
def p03_queries(s, c):
    pool = []
    for k in range(s.range(1, 3)):
        dim, w, code = GSHAPES[s.stratum(len(GSHAPES))] if k == 0 else s.pick(GSHAPES)
        m = T(dim, code)
        ref = truth(dim, code)["positions"][dim]
        scale = [1.0, 0.01, 50.0, 1e-9, 1e-20, 1e7][s.choice(6)]
        A = [[(1.5 if i == j else 0.0) + s.sreal(0.3) for j in range(dim)] for i in range(w)]
        b = [s.sreal(2.0) for _ in range(w)]
        bend = 0.0 if s.choice(3) == 0 else 0.08
        corners = [[scale * (b[i] + sum(A[i][j] * x[j] for j in range(dim)) + (s.sreal(bend) if bend else 0.0)) for i in range(w)] for x in ref]
        c.desc += " %s in %dd corners %s" % (m.name(), w, corners)
        c.cls("%s in %dd" % (m.name(), w))
        cls = getattr(vtruth, "Geometry_%d_%d" % (dim, w))
        gt = spell(s, m)
        pts = [form(s, x) for x in corners]
        g = cls(gt, pts) if s.flag() else cls(type=gt, corners=pts)
        pool.append((g, dim, w, code, corners, scale))
        c.nontrivial |= dim > 0
    for _ in range(s.range(2, 10)):
        g, dim, w, code, corners, scale = s.pick(pool)
        x = [s.real(0, 1) for _ in range(dim)]
        ref = truth(dim, code)["positions"][dim]
        # a point of the reference element: convex combination of corners
        lam = [s.real(0, 1) + 1e-3 for _ in ref]
        x = [sum(l * r[j] for l, r in zip(lam, ref)) / sum(lam) for j in range(dim)]
        off = [scale * s.sreal(0.05) if w > dim else 0.0 for _ in range(w)]
        t = getattr(vtruth, "geometry_%d_%d" % (dim, w))(code, corners, x, off)
        tol = 16e-12 * scale
        q = s.choice(11)
        c.desc += " q%d at %s" % (q, x)
        if q == 0:
            c.equal(g.affine, t["affine"], "affine")
        elif q == 1:
            c.check(g.type == t["type"], "type")
        elif q == 2:
            c.equal(g.corners, t["corners"], "number of corners")
            for i in range(g.corners):
                c.nearlist(g.corner(i), corners[i], 0, "corner", i)
        elif q == 3:
            c.nearlist(g.center, t["center"], tol, "center")
        elif q == 4:
            c.near(g.volume, t["volume"], 16e-12 * (abs(t["volume"]) + scale ** dim), "volume")
        elif q == 5:
            c.near(g.integrationElement(form(s, x)), t["ie"], 16e-12 * (t["ie"] + scale ** dim), "integration element")
        elif q == 6:
            jt = g.jacobianTransposed(form(s, x))
            for i in range(dim):
                c.nearlist([jt[i][j] for j in range(w)], t["jt"][i], tol, "transposed Jacobian row", i)
        elif q == 7:
            jit = g.jacobianInverseTransposed(form(s, x))
            for i in range(w if dim > 0 else 0):
                c.nearlist([jit[i][j] for j in range(dim)], t["jit"][i], 1e-10 / scale, "transposed inverse Jacobian row", i)
        elif q in (8, 9):
            c.nearlist(g.toGlobal(form(s, x)), t["global"], tol, "global")
        else:
            y = [a + b for a, b in zip(t["global"], off)]
            c.nearlist(g.toLocal(form(s, y)), t["local"], 1e-8, "local")

@prop("P03", "malformed", "the list has the right number of entries of which one is not a point")
def p03_malformed(s, c):
    dim, w, code = GSHAPES[s.stratum(len(GSHAPES))]
    m = T(dim, code)
    ref = truth(dim, code)["positions"][dim]
    corners = [form(s, [x[j] if j < dim else 0.5 for j in range(w)]) for x in ref]
    cls = getattr(vtruth, "Geometry_%d_%d" % (dim, w))
    bad = ["text", None, {"x": 1}, ["a"] * w, object(), [None] * w, [[1.0, 2.0]] * w][s.choice(7)]
    i = s.choice(len(corners))
    c.desc = "%s in %dd entry %d %r" % (m.name(), w, i, type(bad).__name__)
    c.cls(type(bad).__name__)
    c.nontrivial = True
    wrong = list(corners)
    wrong[i] = bad
    c.raises(Exception, lambda: cls(spell(s, m), wrong), "corner list with an entry that is not a point")
    if s.choice(4) == 0:
        other = [None, 5, "corners"][s.choice(3)]
        c.raises(Exception, lambda: cls(spell(s, m), other), "corners that are not a list")
        c.raises(Exception, lambda: cls("triangle-ish", corners), "type that is not a label")
    g = cls(spell(s, m), corners)
    c.equal(g.corners, len(corners), "geometry from the good list")
