"""Generators of ONNX operators: each adds one (or a few) nodes to a graph,
with operands, attributes and shapes drawn from what the operator allows."""
import numpy as np

from pypbt import known
from cc_lib import (DT, FLOATS, Discard, oh, rand, shape_of, tname)

OPS = {}      # name -> (group, function)


def op(group, name=None, weight=1):
    def deco(f):
        OPS[name or f.__name__[2:]] = (group, f, weight)
        return f
    return deco


def ty(g, ts):
    f = g.focus
    return f.t if f is not None and f.t in ts and g.s.chance(75) \
        else g.s.pick(ts)


def fl(g):
    return ty(g, ["f32", "f32", "f32", "f64"])


def num(g):
    return ty(g, ["f32", "f32", "f64", "i32", "i64"])


def anyt(g):
    return ty(g, ["f32", "f32", "i64", "i32", "f64", "u8", "i8", "i16",
                  "u16", "u32", "u64", "bool", "f16"])


def style(t):
    return None if t in FLOATS else "wide"


def bcast(g, shape, n):
    """n operand shapes whose broadcast is shape (with luck)."""
    r = []
    for _ in range(n):
        sh = [1 if g.s.chance(20) else d for d in shape]
        while sh and g.s.chance(25):
            sh = sh[1:]
        r.append(sh)
    if n and g.s.chance(70):
        r[g.s.draw(n)] = list(shape)
    return r


def axis(g, r, neg=True):
    a = g.s.range(0, r - 1)
    return a - r if neg and g.s.chance(35) else a


def axes(g, r, least=1):
    n = g.s.range(least, r)
    p = g.s.perm(r)[:n]
    if g.s.chance(60):
        p.sort()
    return [a - r if g.s.chance(25) else a for a in p]


def i64(g, xs, const=None, t="i64"):
    # Of unknown length they are not supported.
    return g.leaf(np.array(xs, DT[t]), const, dyn=False)


def ci64(g, xs, t="i64"):
    """A shape-like operand: constant, or now and then an input."""
    return i64(g, xs, const=g.s.chance(75), t=t)


# --- elementwise -------------------------------------------------------------

UN = {"Abs": None, "Neg": None, "Ceil": None, "Floor": None, "Round": None,
      "Sign": None, "Relu": None, "Exp": (-4, 4), "Sigmoid": None,
      "Tanh": None, "Softplus": None, "Softsign": None, "Erf": None,
      "Sin": None, "Cos": None, "Tan": (-1.25, 1.25), "Asin": (-1, 1),
      "Acos": (-1, 1), "Atan": None, "Sinh": (-3, 3), "Cosh": (-3, 3),
      "Asinh": None, "Acosh": (1, 8), "Atanh": (-0.75, 0.75),
      "Log": (0.25, 9), "Sqrt": (0, 9), "Reciprocal": (0.25, 4),
      "HardSwish": None, "Mish": None, "Identity": None}
UNINT = ("Abs", "Neg", "Sign", "Relu", "Identity")
APPROX = {"Exp", "Sigmoid", "Tanh", "Softplus", "Erf", "Sin", "Cos", "Tan",
          "Asin", "Acos", "Atan", "Sinh", "Cosh", "Asinh", "Acosh", "Atanh",
          "Log", "Mish", "Gelu", "Elu", "Selu", "Celu"}


@op("elem", "Unary", 3)
def o_unary(g):
    o = g.s.pick([k for k in UN if k != "HardSwish"])
    if o == "Mish" and g.opset < 18:
        o = "Abs"
    # LLVM 20 has no math.tanh of f64.
    t = fl(g) if o not in ("Tanh", "Mish", "Erf") else "f32"
    if o in UNINT and g.s.chance(30):
        t = ty(g, ["i32", "i64", "i8", "i16"])
        if o == "Relu" and g.opset < 14:
            t = "f32"
    if o in ("Ceil", "Floor", "Round", "Sign"):
        g.exact_only = True
    lo, hi = UN[o] or (-4, 4)
    x = g.data(t, shape_of(g.s), lo=lo, hi=hi, reuse=UN[o] is None,
               style="real" if o == "Round" and g.s.chance(50) else None)
    g.s.label(o)
    return [g.node(o, [x])]


@op("elem", "UnaryAttr")
def o_unaryattr(g):
    o = g.s.pick(["Elu", "Selu", "Celu", "LeakyRelu", "HardSigmoid",
                  "ThresholdedRelu", "Shrink", "Gelu"])
    if o == "Gelu" and g.opset < 20:
        o = "LeakyRelu"
    x = g.data("f32", shape_of(g.s))
    at = {}
    if o in ("Elu", "Celu", "LeakyRelu", "HardSigmoid", "ThresholdedRelu",
             "Selu"):
        if g.s.chance(60):
            at["alpha"] = g.s.pick([0.5, 1.0, 0.125, 2.0])
    if o == "Selu" and g.s.chance(50):
        at["gamma"] = g.s.pick([1.0, 0.5, 2.0])
    if o == "HardSigmoid" and g.s.chance(60):
        at["beta"] = g.s.pick([0.25, 0.5, 0.0])
    if o == "Shrink":
        at = {"lambd": g.s.pick([0.5, 1.0, 0.0]),
              "bias": g.s.pick([0.0, 0.5, -0.25])}
    if o == "Gelu" and g.s.chance(50):
        at["approximate"] = "tanh"
    g.s.label(o)
    return [g.node(o, [x], **at)]


@op("elem", "Binary", 4)
def o_binary(g):
    o = g.s.pick(["Add", "Sub", "Mul", "Div"])
    t = num(g)
    sh = shape_of(g.s)
    sa, sb = bcast(g, sh, 2)
    lo, hi = (-4, 4)
    st = style(t) if o != "Div" and g.s.chance(30) else None
    a = g.data(t, sa, style=st)
    if o == "Div":
        b = g.data(t, sb, lo=1, hi=5, reuse=False)
        if t in ("i32", "i64") and g.s.chance(50):
            b = g.node("Neg", [b])
        if t in ("i32", "i64") and np.any(a.a < 0):
            # The sign of an integer quotient is the reference's numpy one.
            a = g.node("Abs", [a])
            b = b if np.all(b.a > 0) else g.node("Abs", [b])
    else:
        b = g.data(t, sb, style=st)
    g.s.label(o)
    return [g.node(o, [a, b])]


@op("elem", "Pow")
def o_pow(g):
    t = ty(g, ["f32", "f32", "f64"])
    sh = shape_of(g.s)
    sa, sb = bcast(g, sh, 2)
    if g.s.chance(50):
        e = g.s.pick([2.0, 3.0, 0.5, 1.0, 0.0, -1.0, 4.0, -2.0])
        b = g.leaf(np.full(sb if g.s.chance(30) else [], e, DT[t]))
        lo = 0.25 if e in (0.5, -1.0, -2.0) else -4
        a = g.data(t, sa, lo=lo, reuse=False)
    else:
        a = g.data(t, sa, lo=0.5, hi=3, reuse=False)
        b = g.data(t, sb, lo=-2, hi=3)
    return [g.node("Pow", [a, b])]


@op("elem", "Mod")
def o_mod(g):
    t = ty(g, ["f32", "i32", "i64", "f64", "i8"])
    f = 1 if t in ("f32", "f64") else 0
    sh = shape_of(g.s)
    sa, sb = bcast(g, sh, 2)
    a = g.data(t, sa, lo=-9, hi=9, style="int")
    b = g.data(t, sb, lo=1, hi=5, style="int", reuse=False)
    if g.s.chance(40):
        b = g.node("Neg", [b])
    return [g.node("Mod", [a, b], fmod=f)]


@op("elem", "Compare", 2)
def o_compare(g):
    o = g.s.pick(["Equal", "Greater", "Less", "GreaterOrEqual",
                  "LessOrEqual"])
    t = ty(g, ["f32", "i32", "i64", "f64"])
    if o == "Equal" and g.s.chance(20):
        t = "bool"
    if o in ("GreaterOrEqual", "LessOrEqual") and g.opset < 16:
        pass
    sh = shape_of(g.s)
    sa, sb = bcast(g, sh, 2)
    g.s.label(o)
    return [g.node(o, [g.data(t, sa, style="int"),
                       g.data(t, sb, style="int")])]


@op("elem", "Logic")
def o_logic(g):
    o = g.s.pick(["And", "Or", "Xor", "Not"])
    sh = shape_of(g.s)
    sa, sb = bcast(g, sh, 2)
    if o == "Not":
        return [g.node(o, [g.data("bool", sa)])]
    return [g.node(o, [g.data("bool", sa), g.data("bool", sb)])]


@op("elem", "Bitwise")
def o_bitwise(g):
    o = g.s.pick(["BitShift", "BitwiseAnd", "BitwiseOr", "BitwiseXor",
                  "BitwiseNot"])
    if g.opset < 18:
        o = "BitShift"
    sh = shape_of(g.s)
    sa, sb = bcast(g, sh, 2)
    if o == "BitShift":
        t = ty(g, ["u8", "u32", "u64"])
        a = g.data(t, sa, style="wide")
        b = g.data(t, sb, lo=0, hi=7, style="int", reuse=False)
        return [g.node(o, [a, b], direction=g.s.pick(["LEFT", "RIGHT"]))]
    t = ty(g, ["i32", "i64", "i8", "i16"])    # unsigned: not supported
    a = g.data(t, sa, style="wide")
    if o == "BitwiseNot":
        return [g.node(o, [a])]
    return [g.node(o, [a, g.data(t, sb, style="wide")])]


@op("elem", "Variadic", 2)
def o_variadic(g):
    o = g.s.pick(["Max", "Min", "Sum", "Mean"])
    t = ty(g, ["f32", "f64", "i32", "i64"] if o in ("Max", "Min")
                 else ["f32", "f64"])
    n = g.s.range(1, 4)
    sh = shape_of(g.s)
    g.s.label(o)
    return [g.node(o, [g.data(t, x) for x in bcast(g, sh, n)])]


@op("elem", "PRelu")
def o_prelu(g):
    t = "f32"
    sh = shape_of(g.s, 1)
    sb = [1 if g.s.chance(40) else d for d in sh][g.s.range(0, len(sh)):]
    return [g.node("PRelu", [g.data(t, sh), g.data(t, sb)])]


@op("elem", "Clip")
def o_clip(g):
    t = ty(g, ["f32", "f32", "f64", "i32", "i64"])
    x = g.data(t, shape_of(g.s))
    lo = hi = None
    if g.s.chance(70):
        lo = g.leaf(np.array(g.s.pick([-2, 0, 1]), DT[t]))
    if g.s.chance(70):
        hi = g.leaf(np.array(g.s.pick([3, 2, 1]), DT[t]))
    ins = [x, lo, hi]
    while ins[-1] is None:
        ins.pop()
    return [g.node("Clip", ins)]


@op("elem", "Where")
def o_where(g):
    t = ty(g, ["f32", "i64", "i32", "f64", "bool", "u8"])
    sh = shape_of(g.s)
    a, b, c = bcast(g, sh, 3)
    return [g.node("Where", [g.data("bool", a), g.data(t, b),
                             g.data(t, c)])]


@op("elem", "Cast", 2)
def o_cast(g):
    ts = ["f32", "f64", "i32", "i64", "i8", "u8", "i16", "u16", "u32", "u64",
          "bool"]
    a, b = g.s.pick(ts), g.s.pick(ts)
    if b[0] == "u" and a[0] not in "uf":
        b = "i" + b[1:]             # signed to unsigned: not supported
    st = None
    lo, hi = -4, 4
    if a in FLOATS and b[0] == "u":
        lo = 0
    if a not in FLOATS and b not in FLOATS and b != "bool" and a != "bool":
        st = g.s.pick(["wide", "int"])
    if a[0] in "iu" and b in FLOATS:
        lo, hi = -100, 100
    x = g.data(a, shape_of(g.s), style=st, lo=lo, hi=hi, reuse=False)
    return [g.node("Cast", [x], to=oh.np_dtype_to_tensor_dtype(
        np.dtype(DT[b])))]


@op("elem", "IsNaNInf")
def o_isnan(g):
    if g.opset < 13:
        raise Discard()
    o = g.s.pick(["IsNaN", "IsInf"])
    sh = shape_of(g.s)
    t = ty(g, ["f32", "f64"])
    sd = g.s.draw(1 << 20)

    def mk(k=0):
        a = rand(t, sh, "int", sd + k, -2, 2)
        return np.where(a == 2, np.inf, np.where(
            a == -2, -np.inf, np.where(a == 1, np.nan, a))).astype(DT[t])
    x = g.leaf(mk(), gen=mk)
    at = {}
    if o == "IsInf":
        if g.s.chance(40):
            at["detect_positive"] = g.s.draw(2)
        if g.s.chance(40):
            at["detect_negative"] = g.s.draw(2)
        if not any(at.get("detect_" + k, 1) for k in ("positive",
                                                      "negative")):
            at = {}     # not supported
    return [g.node(o, [x], **at)]


# --- data movement -----------------------------------------------------------

def bigdata(g, t, sh):
    return g.data(t, sh, style=style(t))


@op("move", "Reshape", 3)
def o_reshape(g):
    t = anyt(g)
    sh = shape_of(g.s)
    x = bigdata(g, t, sh)
    n = x.a.size
    out, rest = [], n
    for _ in range(g.s.range(0, 4)):
        ds = [d for d in (1, 2, 3, 4, 5, 7, 8, 16, rest) if rest % d == 0]
        d = g.s.pick(ds)
        out.append(d)
        rest //= d
    if rest != 1 or not out:
        out.append(rest)
    tgt = list(out)
    for k in range(len(tgt)):
        if k < len(sh) and tgt[k] == sh[k] and g.s.chance(40):
            tgt[k] = 0
    if tgt and g.s.chance(50):
        tgt[g.s.draw(len(tgt))] = -1
    at = {"allowzero": 0} if g.opset >= 14 and g.s.chance(20) else {}
    return [g.node("Reshape", [x, ci64(g, tgt)], **at)]


@op("move", "Transpose", 3)
def o_transpose(g):
    t = anyt(g)
    sh = shape_of(g.s, 0, 5)
    x = bigdata(g, t, sh)
    at = {}
    if sh and g.s.chance(80):
        at["perm"] = g.s.perm(len(sh))
    return [g.node("Transpose", [x], **at)]


@op("move", "SqueezeUnsqueeze", 2)
def o_squeeze(g):
    t = anyt(g)
    if g.s.chance(50):
        sh = shape_of(g.s, 1)
        for k in range(len(sh)):
            if g.s.chance(50):
                sh[k] = 1
        ones = [k for k in range(len(sh)) if sh[k] == 1]
        if not ones or g.s.chance(15):
            # Which dimensions are one must be known.
            return [g.node("Squeeze", [g.data(
                t, sh, style=style(t), dyn=False, reuse=False)])]
        x = bigdata(g, t, sh)
        ax = [a - len(sh) if g.s.chance(30) else a for a in ones
              if g.s.chance(70)] or [ones[0]]
        return [g.node("Squeeze", [x, i64(g, ax, const=True)])]
    sh = shape_of(g.s, 0, 3)
    n = g.s.range(1, 3)
    r = len(sh) + n
    ax = g.s.perm(r)[:n]
    ax = [a - r if g.s.chance(30) else a for a in ax]
    x = bigdata(g, t, sh)
    return [g.node("Unsqueeze", [x, i64(g, ax, const=True)])]


@op("move", "Flatten")
def o_flatten(g):
    sh = shape_of(g.s, 1)
    x = bigdata(g, anyt(g), sh)
    at = {}
    if g.s.chance(75):
        at["axis"] = g.s.range(-len(sh), len(sh))
    return [g.node("Flatten", [x], **at)]


@op("move", "Concat", 2)
def o_concat(g):
    t = anyt(g)
    sh = shape_of(g.s, 1)
    n = g.s.range(1, 4)
    ax = axis(g, len(sh))
    xs = []
    for _ in range(n):
        y = list(sh)
        if g.s.chance(60):
            y[ax] = g.s.range(1, 5)
        xs.append(bigdata(g, t, y))
    return [g.node("Concat", xs, axis=ax)]


@op("move", "Split", 2)
def o_split(g):
    t = anyt(g)
    sh = shape_of(g.s, 1)
    ax = axis(g, len(sh))
    n = g.s.range(1, 3)
    at = {"axis": ax}
    if g.s.chance(50):
        parts = [g.s.range(1, 4) for _ in range(n)]
        sh[ax] = sum(parts)
        x = bigdata(g, t, sh)
        r = g.node("Split", [x, i64(g, parts, const=True)], nout=n, **at)
    else:
        if g.opset >= 18:
            at["num_outputs"] = n
            sh[ax] = n * g.s.range(1, 3) - (g.s.draw(2) if n > 1 else 0)
            c = -(-sh[ax] // n)
            if c * (n - 1) >= sh[ax]:
                sh[ax] = n * c
        else:
            sh[ax] = n * g.s.range(1, 3)
        uneven = sh[ax] % n and known("split-dynamic-uneven")
        x = g.data(t, sh, style=style(t), dyn=not uneven, reuse=not uneven)
        r = g.node("Split", [x], nout=n, **at)
    return [r] if n == 1 else r


@op("move", "Slice", 3)
def o_slice(g):
    t = anyt(g)
    sh = shape_of(g.s, 1)
    x = bigdata(g, t, sh)
    r = len(sh)
    n = g.s.range(1, r)
    ax = g.s.perm(r)[:n]
    allax = n == r and g.s.chance(30)
    if allax:
        ax = list(range(r))
    st, en, sp = [], [], []
    for a in ax:
        d = sh[a]
        p = g.s.pick([1, 1, 2, -1, 3, -2])
        lo = g.s.range(0, d - 1)
        hi = g.s.range(lo + 1, d)
        if p < 0:
            b, e = hi - 1, lo - 1
            e = -d - 1 if e < 0 else (e if g.s.chance(60) else e - d)
            if g.s.chance(15):
                e = np.iinfo(np.int64).min + 1 if g.s.chance(50) else -1000
        else:
            b, e = lo, hi
            if g.s.chance(30) and e < d:
                e -= d
            if g.s.chance(20):
                e = g.s.pick([np.iinfo(np.int64).max, 1000,
                              np.iinfo(np.int32).max])
        if g.s.chance(30):
            b -= d
        if g.s.chance(8):
            b, e = (0, 0) if p > 0 else (0, 0)
        st.append(b)
        en.append(e)
        sp.append(p)
    it = "i32" if g.s.chance(15) and max(map(abs, en)) < 2**31 else "i64"
    c = g.s.chance(70)
    ins = [x, i64(g, st, const=c, t=it), i64(g, en, const=c, t=it)]
    steps = any(p != 1 for p in sp) or g.s.chance(30)
    if not allax or steps or g.s.chance(50):
        ins.append(i64(g, [a - r if g.s.chance(30) else a for a in ax],
                       const=True, t=it))
        if steps:
            ins.append(i64(g, sp, const=g.s.chance(80), t=it))
    return [g.node("Slice", ins)]


def indices(g, shape, dim, neg=True, t=None):
    sd = g.s.draw(1 << 20)
    lo = -dim if neg and g.s.chance(50) else 0
    t = t or g.s.pick(["i64", "i64", "i32"])

    def mk(k=0):
        return np.random.default_rng(sd + k).integers(
            lo, dim, shape).astype(DT[t])
    return g.leaf(mk(), gen=mk)


@op("move", "Gather", 2)
def o_gather(g):
    t = anyt(g)
    sh = shape_of(g.s, 1)
    ax = axis(g, len(sh))
    x = bigdata(g, t, sh)
    i = indices(g, shape_of(g.s, 0, 2, total=12), sh[ax])
    at = {"axis": ax} if ax or g.s.chance(50) else {}
    return [g.node("Gather", [x, i], **at)]


@op("move", "GatherElements")
def o_gatherelements(g):
    sh = shape_of(g.s, 1)
    ax = axis(g, len(sh))
    ish = [g.s.range(1, d) for d in sh]
    ish[ax] = g.s.range(1, 5)
    x = bigdata(g, anyt(g), sh)
    return [g.node("GatherElements", [x, indices(g, ish, sh[ax])], axis=ax)]


@op("move", "GatherND")
def o_gathernd(g):
    sh = shape_of(g.s, 1)
    b = g.s.range(0, min(1, len(sh) - 1))
    k = g.s.range(1, len(sh) - b)
    lead = sh[:b] + shape_of(g.s, 0, 2, total=8)
    sd = g.s.draw(1 << 20)
    neg = g.s.chance(40) and not known("gathernd-negative")

    def mk(q=0):
        r = np.random.default_rng(sd + q)
        cols = [r.integers(-sh[b + j] if neg else 0, sh[b + j], lead)
                for j in range(k)]
        return np.stack(cols, -1).astype(np.int64)
    x = bigdata(g, anyt(g), sh)
    # An unknown index depth is not supported.
    return [g.node("GatherND", [x, g.leaf(mk(), gen=mk, dyn=False)],
                   batch_dims=b)]


@op("move", "ScatterElements")
def o_scatterelements(g):
    sh = shape_of(g.s, 1)
    ax = axis(g, len(sh))
    a = ax % len(sh)
    ish = [g.s.range(1, d) for d in sh]
    sd = g.s.draw(1 << 20)
    neg = g.s.chance(40)

    def mk(q=0):
        r = np.random.default_rng(sd + q)
        z = np.empty(ish, np.int64)
        mv = np.moveaxis(z, a, -1)
        for pos in np.ndindex(*mv.shape[:-1]):
            mv[pos] = r.permutation(sh[a])[:ish[a]]
        if neg:
            z = np.where(r.integers(0, 2, ish), z - sh[a], z)
        return z
    t = anyt(g)
    x = bigdata(g, t, sh)
    u = bigdata(g, t, ish)
    return [g.node("ScatterElements", [x, g.leaf(mk(), gen=mk), u], axis=ax)]


@op("move", "ScatterND")
def o_scatternd(g):
    sh = shape_of(g.s, 1)
    k = g.s.range(1, len(sh))
    n = int(np.prod(sh[:k]))
    if known("scatternd-index-depth"):
        lead = [1] * k
        lead[g.s.draw(k)] = g.s.range(1, min(n, 6))
        if k > 1 and n >= 4 and g.s.chance(50):
            lead = [1] * (k - 2) + [2, 2]
    else:
        lead = shape_of(g.s, 0, 2, total=min(n, 6))
    m = int(np.prod(lead, dtype=np.int64))
    sd = g.s.draw(1 << 20)

    def mk(q=0):
        r = np.random.default_rng(sd + q)
        p = r.permutation(n)[:m]
        return np.stack(np.unravel_index(p, sh[:k]), -1).astype(
            np.int64).reshape(lead + [k])
    t = anyt(g)
    x = bigdata(g, t, sh)
    u = bigdata(g, t, lead + sh[k:])
    return [g.node("ScatterND", [x, g.leaf(mk(), gen=mk), u])]


@op("move", "Pad", 2)
def o_pad(g):
    t = ty(g, ["f32", "f32", "i32", "i64", "f64"])
    sh = shape_of(g.s, 1)
    mode = g.s.pick(["constant", "reflect", "edge", "constant"])
    b = [g.s.range(0, min(3, d - 1) if mode == "reflect" else 3) for d in sh]
    e = [g.s.range(0, min(3, d - 1) if mode == "reflect" else 3) for d in sh]
    if mode == "constant" and g.s.chance(25):
        k = g.s.draw(len(sh))
        if sh[k] > 1:
            b[k] = -1
    x = bigdata(g, t, sh)
    ins = [x, ci64(g, b + e)]
    if mode == "constant" and g.s.chance(60):
        ins.append(g.leaf(np.array(g.s.pick([1, -2, 0]), DT[t])))
    at = {} if mode == "constant" and g.s.chance(50) else {"mode": mode}
    g.s.label("Pad." + mode)
    return [g.node("Pad", ins, **at)]


@op("move", "Tile")
def o_tile(g):
    sh = shape_of(g.s, 1, 3, total=60)
    x = bigdata(g, anyt(g), sh)
    return [g.node("Tile", [x, ci64(g, [g.s.range(1, 3) for _ in sh])])]


@op("move", "Expand")
def o_expand(g):
    sh = shape_of(g.s, 0, 4)
    a, b = bcast(g, sh, 2)
    x = bigdata(g, anyt(g), a)
    return [g.node("Expand", [x, ci64(g, b) if b else i64(g, b, True)])]


@op("move", "ShapeSize")
def o_shape(g):
    x = bigdata(g, anyt(g), shape_of(g.s, 0, 4))
    o = g.s.pick(["Shape", "Shape", "Size"])
    at = {}
    if o == "Shape" and g.opset >= 15:
        if not x.rank:
            return [g.node(o, [x])]
        lo = g.s.range(0, x.rank - 1)
        hi = g.s.range(lo + 1, x.rank)
        if g.s.chance(40):
            at["start"] = lo - (x.rank if lo < x.rank and g.s.chance(40)
                                else 0)
        if g.s.chance(40):
            at["end"] = hi - (x.rank if hi < x.rank and g.s.chance(40)
                              else 0)
    return [g.node(o, [x], **at)]


@op("move", "ConstantOfShape")
def o_cos(g):
    sh = shape_of(g.s, 0, 3)
    at = {}
    if g.s.chance(70):
        t = ty(g, ["f32", "i64", "i32", "bool", "u8", "f64"])
        at["value"] = oh.make_tensor(
            "v", oh.np_dtype_to_tensor_dtype(np.dtype(DT[t])), [1],
            [g.s.pick([1, 0, 3]) if t != "bool" else True])
    return [g.node("ConstantOfShape", [
        ci64(g, sh) if sh else i64(g, sh, True)], **at)]


@op("move", "DepthSpace")
def o_depthspace(g):
    b = g.s.range(1, 3)
    n, c = g.s.range(1, 2), g.s.range(1, 3)
    h, w = g.s.range(1, 4), g.s.range(1, 4)
    t = ty(g, ["f32", "f32", "f64", "i32"])
    dyn = not known("depth-space-dynamic")
    if g.s.chance(50):
        x = g.data(t, [n, c * b * b, h, w], dyn=dyn, reuse=dyn)
        at = {"mode": g.s.pick(["DCR", "CRD"])} if g.s.chance(70) else {}
        return [g.node("DepthToSpace", [x], blocksize=b, **at)]
    if known("space-to-depth-channels"):
        c = 1
    x = g.data(t, [n, c, h * b, w * b], dyn=dyn, reuse=dyn)
    return [g.node("SpaceToDepth", [x], blocksize=b)]


@op("move", "ReverseSequence")
def o_revseq(g):
    sh = shape_of(g.s, 2)
    ba = g.s.draw(2)
    x = bigdata(g, anyt(g), sh)
    sd = g.s.draw(1 << 20)

    def mk(q=0):
        return np.random.default_rng(sd + q).integers(
            1, sh[1 - ba] + 1, [sh[ba]]).astype(np.int64)
    return [g.node("ReverseSequence", [x, g.leaf(mk(), gen=mk)],
                   batch_axis=ba, time_axis=1 - ba)]


@op("move", "OneHot")
def o_onehot(g):
    d = g.s.range(1, 6)
    ish = shape_of(g.s, 0, 2, total=20)
    it = g.s.pick(["i64", "i32"])
    i = indices(g, ish, d, t=it)
    vt = g.s.pick(["f32", "i64", "i32"])
    v = g.leaf(np.array([g.s.pick([0, 1, -1]), g.s.pick([1, 5])], DT[vt]))
    dep = g.leaf(np.array(d if g.s.chance(50) else [d], DT[
        g.s.pick(["i64", "i32"])]), dyn=False)
    at = {}
    if g.s.chance(60):
        at["axis"] = g.s.range(-len(ish) - 1, len(ish))
    return [g.node("OneHot", [i, dep, v], **at)]


@op("move", "NonZero")
def o_nonzero(g):
    g.datadep = True
    if known("constprop-dynamic-types"):
        g.avoid = "hybrid-pass=false"
    t = ty(g, ["f32", "i64", "bool", "i32"])
    sh = shape_of(g.s, 1, 1 if known("nonzero-rank-2") else 4)
    return [g.node("NonZero", [g.data(t, sh, lo=-1, hi=1, style="int")])]


@op("move", "Compress")
def o_compress(g):
    g.datadep = True
    sh = shape_of(g.s, 1)
    x = bigdata(g, anyt(g), sh)
    at = {}
    n = x.a.size
    if g.s.chance(60):
        at["axis"] = axis(g, len(sh))
        n = sh[at["axis"]]
    c = g.data("bool", [g.s.range(1, n)], reuse=False)
    return [g.node("Compress", [x, c], **at)]


@op("move", "Trilu")
def o_trilu(g):
    if g.opset < 14:
        raise Discard()
    sh = shape_of(g.s, 2, 4)
    x = bigdata(g, anyt(g), sh)
    ins = [x]
    if g.s.chance(60):
        ins.append(i64(g, g.s.range(-4, 4)))
    return [g.node("Trilu", ins, upper=g.s.draw(2))]


@op("move", "Range")
def o_range(g):
    t = ty(g, ["i64", "i32", "f32", "i16", "f64"])
    st = g.s.range(-5, 5)
    d = g.s.pick([1, 2, -1, 3, -2])
    n = g.s.range(0, 9)
    k = 0.25 if t in FLOATS else 1
    lim = st + d * n - (1 if d > 1 and g.s.chance(40) else 0)
    f = lambda v: g.leaf(np.array(v * k, DT[t]))
    return [g.node("Range", [f(st), f(lim), f(d)])]


@op("move", "Dropout")
def o_dropout(g):
    x = g.data(fl(g), shape_of(g.s))
    ins = [x]
    if g.s.chance(40):
        ins.append(g.leaf(np.array(0.5, np.float32), const=True))
    return [g.node("Dropout", ins)]


@op("move", "CumSum")
def o_cumsum(g):
    t = ty(g, ["f32", "f64", "i32", "i64"])
    sh = shape_of(g.s, 1, 4)
    x = g.data(t, sh)
    a = g.leaf(np.array(axis(g, len(sh)), DT[g.s.pick(["i64", "i32"])]))
    at = {}
    if g.s.chance(50):
        at["exclusive"] = g.s.draw(2)
    if g.s.chance(50):
        at["reverse"] = g.s.draw(2)
    return [g.node("CumSum", [x, a], **at)]


@op("move", "TopK")
def o_topk(g):
    sh = shape_of(g.s, 1, 3)
    ax = g.s.pick([-1, len(sh) - 1])    # only the last axis is supported
    x = g.data(ty(g, ["f32", "f32", "f64", "i64", "i32"]), sh)
    k = i64(g, [g.s.range(1, sh[ax])], const=True)
    at = {"axis": ax}
    if g.s.chance(60):
        at["largest"] = g.s.draw(2)
    # ties would be broken differently
    a = np.sort(x.a, axis=ax)
    if sh[ax] > 1 and np.any(np.diff(a, axis=ax) == 0):
        sd = g.s.draw(1 << 20)
        t = x.t

        def mk(q=0):
            r = np.random.default_rng(sd + q)
            return (r.permutation(int(np.prod(sh))).reshape(sh) - 3).astype(
                DT[t])
        x = g.leaf(mk(), gen=mk)
    return g.node("TopK", [x, k], nout=2, **at)


@op("move", "ArgMinMax")
def o_argminmax(g):
    o = g.s.pick(["ArgMax", "ArgMin"])
    sh = shape_of(g.s, 1, 4)
    x = g.data(ty(g, ["f32", "f64", "i32", "i64"]), sh)
    at = {}
    if g.s.chance(80):
        at["axis"] = axis(g, len(sh))
    if g.s.chance(60):
        at["keepdims"] = g.s.draw(2)
    return [g.node(o, [x], **at)]


@op("move", "Resize")
def o_resize(g):
    sh = [1, g.s.range(1, 2), g.s.range(1, 5), g.s.range(1, 5)]
    x = g.data("f32", sh)
    at = {"mode": "nearest",
          "coordinate_transformation_mode": g.s.pick(
              ["asymmetric", "half_pixel"]),
          "nearest_mode": g.s.pick(["floor", "round_prefer_floor", "ceil",
                                    "round_prefer_ceil"])}
    if g.s.chance(40):
        at = {"mode": "nearest",
              "coordinate_transformation_mode": "asymmetric",
              "nearest_mode": "floor"}
    if g.s.chance(50):
        sc = [1.0, 1.0, g.s.pick([1.0, 2.0, 3.0, 0.5]),
              g.s.pick([1.0, 2.0, 0.5])]
        if any(int(d * c) == 0 for d, c in zip(sh, sc)):
            raise Discard()
        return [g.node("Resize", [x, None, g.leaf(
            np.array(sc, np.float32), const=True)], **at)]
    sz = sh[:2] + [g.s.range(1, 8), g.s.range(1, 8)]
    return [g.node("Resize", [x, None, None, i64(g, sz, const=True)], **at)]


@op("move", "Unique")
def o_unique(g):
    g.datadep = True
    sh = shape_of(g.s, 1, 2)
    x = g.data(ty(g, ["f32", "i64"]), sh, style="int")
    at = {}
    if g.s.chance(40):
        at["axis"] = axis(g, len(sh))
    n = g.s.pick([1, 1, 4])
    r = g.node("Unique", [x], nout=n, sorted=1, **at)
    return [r] if n == 1 else r


# --- math ----------------------------------------------------------------------

@op("math", "Reduce", 4)
def o_reduce(g):
    o = g.s.pick(["ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin",
                  "ReduceProd", "ReduceL1", "ReduceL2", "ReduceSumSquare",
                  "ReduceLogSum", "ReduceLogSumExp"])
    t = ty(g, ["f32", "f32", "f32", "f64", "i32", "i64"])
    if o in ("ReduceMean", "ReduceL2", "ReduceSumSquare", "ReduceLogSum", "ReduceLogSumExp"):
        t = ty(g, ["f32", "f32", "f64"])
    sh = shape_of(g.s, 1, 4)
    lo, hi = (-2, 2) if o == "ReduceProd" else (-4, 4)
    if o == "ReduceLogSum":
        lo = 0.25
    x = g.data(t, sh, lo=lo, hi=hi, reuse=o not in ("ReduceLogSum",))
    if x.a.size > 40 and o == "ReduceProd":
        raise Discard()
    at = {}
    if g.s.chance(60):
        at["keepdims"] = g.s.draw(2)
    ins = [x]
    asin = o == "ReduceSum" or g.opset >= 18
    if not asin and o in ("ReduceLogSum", "ReduceLogSumExp",
                          "ReduceSumSquare"):
        g.avoid = "hybrid-pass=false"       # does not decompose them
    k = g.s.draw(10)
    if k == 0:
        pass
    elif asin:
        if k == 1 and o in ("ReduceSum", "ReduceMax", "ReduceMin",
                            "ReduceProd"):
            at["noop_with_empty_axes"] = g.s.draw(2)
        else:
            # Axes known at run time only: not without keepdims.
            ins.append(i64(g, axes(g, len(sh)), const=not at.get(
                "keepdims", 1) or g.s.chance(80)))
    else:
        at["axes"] = axes(g, len(sh))
    g.s.label(o)
    return [g.node(o, ins, **at)]


@op("math", "MatMul", 3)
def o_matmul(g):
    t = ty(g, ["f32", "f32", "f32", "f64", "i32"])
    m, k, n = (g.s.pick([1, 2, 3, 4, 8, 16, 17, 5]) for _ in range(3))
    b = shape_of(g.s, 0, 2, total=6)
    ba, bb = bcast(g, b, 2)
    sa, sb = ba + [m, k], bb + [k, n]
    if not ba and g.s.chance(15):
        sa = [k]
    elif not bb and g.s.chance(15):
        sb = [k]
    dyn = True
    if sa[:-2] != sb[:-2] and sa[:-2] and sb[:-2]:
        # Unknown batch sizes that broadcast are a known finding.
        dyn = not known("matmul-dynamic-batch")
        g.s.label("batch-broadcast")
    return [g.node("MatMul", [g.data(t, sa, dyn=dyn, reuse=dyn),
                              g.data(t, sb, dyn=dyn, reuse=dyn)])]


@op("math", "Gemm", 2)
def o_gemm(g):
    t = ty(g, ["f32", "f32", "f64"])
    m, k, n = (g.s.pick([1, 2, 3, 4, 8, 16, 17, 33]) for _ in range(3))
    ta, tb = g.s.draw(2), g.s.draw(2)
    a = g.data(t, [k, m] if ta else [m, k])
    b = g.data(t, [n, k] if tb else [k, n])
    ins = [a, b]
    if g.s.chance(70):
        c = g.s.pick([[m, n], [n], [1, n], [m, 1], [1], []])
        ins.append(g.data(t, c))
    at = {}
    if ta or g.s.chance(30):
        at["transA"] = ta
    if tb or g.s.chance(30):
        at["transB"] = tb
    if g.s.chance(40):
        at["alpha"] = g.s.pick([0.5, 2.0, 1.0, 0.0])
    if g.s.chance(40):
        at["beta"] = g.s.pick([0.5, 2.0, 1.0, 0.0])
    return [g.node("Gemm", ins, **at)]


@op("math", "MatMulInteger")
def o_matmulint(g):
    m, k, n = (g.s.range(1, 5) for _ in range(3))
    ta, tb = g.s.pick(["u8", "i8"]), g.s.pick(["u8", "i8"])
    ins = [g.data(ta, [m, k], style="wide"), g.data(tb, [k, n], style="wide")]
    if g.s.chance(60):
        ins.append(g.leaf(np.array(g.s.range(0, 9), DT[ta])))
        if g.s.chance(60):
            ins.append(g.leaf(np.array(g.s.range(0, 9), DT[tb])))
    return [g.node("MatMulInteger", ins)]


@op("math", "Conv", 3)
def o_conv(g):
    nd = g.s.pick([2, 2, 2, 1, 3])
    grp = g.s.pick([1, 1, 2, 3])
    ci, co = grp * g.s.range(1, 3), grp * g.s.pick([1, 2, 4, 8])
    k = [g.s.pick([1, 3, 2, 1]) for _ in range(nd)]
    if g.s.chance(25):
        k = [1] * nd
    dil = [g.s.pick([1, 1, 2]) for _ in range(nd)]
    st = [g.s.pick([1, 1, 2, 3]) for _ in range(nd)]
    x = [g.s.range((k[i] - 1) * dil[i] + 1, (k[i] - 1) * dil[i] + 5)
         for i in range(nd)]
    at = {}
    if g.s.chance(60):
        at["kernel_shape"] = k
    ap = g.s.pick([None, None, "SAME_UPPER", "SAME_LOWER", "VALID",
                   "NOTSET"])
    if ap:
        at["auto_pad"] = ap
    if ap in (None, "NOTSET") and g.s.chance(60):
        at["pads"] = [g.s.range(0, 2) for _ in range(2 * nd)]
    if any(d != 1 for d in dil):
        if ap and ap.startswith("SAME"):
            dil = [1] * nd
        else:
            at["dilations"] = dil
    if any(d != 1 for d in st) or g.s.chance(30):
        at["strides"] = st
    if grp != 1 or g.s.chance(20):
        at["group"] = grp
    ins = [g.data("f32", [g.s.range(1, 2), ci] + x),
           g.data("f32", [co, ci // grp] + k)]
    if g.s.chance(50):
        ins.append(g.data("f32", [co]))
    return [g.node("Conv", ins, **at)]


@op("math", "ConvTranspose")
def o_convtranspose(g):
    nd = g.s.pick([2, 2, 1])
    grp = g.s.pick([1, 1, 2])
    ci, co = grp * g.s.range(1, 2), g.s.range(1, 2)
    k = [g.s.pick([1, 3, 2]) for _ in range(nd)]
    st = [g.s.pick([1, 2, 3]) for _ in range(nd)]
    x = [g.s.range(1, 4) for _ in range(nd)]
    at = {"kernel_shape": k, "strides": st}
    if g.s.chance(40):
        at["dilations"] = [g.s.pick([1, 2]) for _ in range(nd)]
    if g.s.chance(50):
        at["pads"] = [g.s.range(0, min(1, k[i % nd] - 1))
                      for i in range(2 * nd)]
    if g.s.chance(40):
        at["output_padding"] = [g.s.range(0, st[i] - 1) for i in range(nd)]
    if grp != 1:
        at["group"] = grp
    pd = at.get("pads", [0] * (2 * nd))
    for i in range(nd):
        if st[i] * (x[i] - 1) + at.get("output_padding", [0] * nd)[i] + (
                k[i] - 1) * at.get("dilations", [1] * nd)[i] < (
                pd[i] + pd[nd + i]):
            raise Discard()
    # Unknown dimensions are not supported.
    ins = [g.data("f32", [1, ci] + x, dyn=False, reuse=False),
           g.data("f32", [ci, co] + k, const=True, reuse=False)]
    if g.s.chance(50):
        ins.append(g.data("f32", [co * grp]))
    return [g.node("ConvTranspose", ins, **at)]


@op("math", "Pool", 3)
def o_pool(g):
    o = g.s.pick(["MaxPool", "AveragePool"])
    nd = g.s.pick([2, 2, 1, 3])
    k = [g.s.pick([2, 3, 1]) for _ in range(nd)]
    st = [g.s.pick([1, 2, 3]) for _ in range(nd)]
    dil = [1] * nd
    at = {"kernel_shape": k}
    if o == "MaxPool" and g.s.chance(30):
        dil = [g.s.pick([1, 2]) for _ in range(nd)]
        at["dilations"] = dil
    x = [g.s.range((k[i] - 1) * dil[i] + 1, (k[i] - 1) * dil[i] + 5)
         for i in range(nd)]
    if any(d != 1 for d in st) or g.s.chance(30):
        at["strides"] = st
    ap = g.s.pick([None, None, "SAME_UPPER", "SAME_LOWER", "VALID"])
    if ap and dil != [1] * nd:
        ap = None
    if ap:
        at["auto_pad"] = ap
    elif g.s.chance(50):
        at["pads"] = [g.s.range(0, k[i % nd] - 1) for i in range(2 * nd)]
    if g.s.chance(30) and not ap:
        at["ceil_mode"] = 1
        pd = at.get("pads", [0] * (2 * nd))
        for i in range(nd):
            # A last window beyond the data: opsets disagree about it.
            n = x[i] + pd[i] + pd[nd + i] - (k[i] - 1) * dil[i] - 1
            if -(-n // st[i]) * st[i] >= x[i] + pd[i]:
                del at["ceil_mode"]
                break
    if o == "AveragePool" and not at.get("ceil_mode") and g.s.chance(40):
        at["count_include_pad"] = g.s.draw(2)
    return [g.node(o, [g.data("f32", [g.s.range(1, 2), g.s.range(1, 3)]
                              + x)], **at)]


@op("math", "GlobalPool")
def o_globalpool(g):
    o = g.s.pick(["GlobalAveragePool", "GlobalMaxPool"])
    sh = [g.s.range(1, 2), g.s.range(1, 3)] + [
        g.s.range(1, 5) for _ in range(g.s.range(1, 3))]
    return [g.node(o, [g.data("f32", sh)])]


@op("math", "BatchNormalization")
def o_batchnorm(g):
    sh = [g.s.range(1, 3), g.s.range(1, 4)] + [
        g.s.range(1, 4) for _ in range(g.s.range(0, 3))]
    c = [sh[1]]
    ins = [g.data("f32", sh), g.data("f32", c), g.data("f32", c),
           g.data("f32", c), g.data("f32", c, lo=0.5, hi=4, reuse=False)]
    at = {"epsilon": g.s.pick([1e-5, 0.01, 0.5])} if g.s.chance(60) else {}
    return [g.node("BatchNormalization", ins, **at)]


@op("math", "InstanceNorm")
def o_instancenorm(g):
    sh = [g.s.range(1, 2), g.s.range(1, 3)] + [
        g.s.range(1, 5) for _ in range(g.s.range(1, 3))]
    at = {"epsilon": g.s.pick([0.01, 0.5])} if g.s.chance(80) else {}
    g.loose = max(g.loose, 20)
    return [g.node("InstanceNormalization", [
        g.data("f32", sh), g.data("f32", [sh[1]]), g.data("f32", [sh[1]])],
        **at)]


@op("math", "LayerNorm", 2)
def o_layernorm(g):
    if g.opset < 17:
        raise Discard()
    sh = shape_of(g.s, 1, 4)
    ax = axis(g, len(sh))
    a = ax % len(sh)

    def param():
        if g.s.chance(40):
            return g.data("f32", list(sh[a:]))
        r = [1 if g.s.chance(25) else d for d in sh]
        return g.data("f32", r[g.s.range(0, len(r)):])
    ins = [g.data("f32", sh), param()]
    if g.s.chance(60):
        ins.append(param())
    at = {"axis": ax, "epsilon": g.s.pick([0.01, 0.5, 1e-3])}
    g.loose = max(g.loose, 20)
    r = g.node("LayerNormalization", ins, nout=g.s.weighted([6, 1, 1]) + 1,
               **at)
    return r if isinstance(r, list) else [r]


@op("math", "GroupNorm")
def o_groupnorm(g):
    if g.opset < 21:
        raise Discard()
    n = g.s.range(1, 3)
    sh = [g.s.range(1, 2), n * g.s.range(1, 3)] + [
        g.s.range(1, 4) for _ in range(g.s.range(1, 2))]
    g.loose = max(g.loose, 20)
    return [g.node("GroupNormalization", [
        g.data("f32", sh), g.data("f32", [sh[1]]), g.data("f32", [sh[1]])],
        num_groups=n, epsilon=0.01)]


@op("math", "LRN")
def o_lrn(g):
    sh = [g.s.range(1, 2), g.s.range(1, 6), g.s.range(1, 3), g.s.range(1, 3)]
    at = {"size": g.s.pick([3, 1, 5, 2])}
    if g.s.chance(50):
        at["alpha"] = g.s.pick([0.5, 0.001])
    if g.s.chance(50):
        at["beta"] = g.s.pick([0.5, 1.0])
    if g.s.chance(50):
        at["bias"] = g.s.pick([2.0, 1.0])
    return [g.node("LRN", [g.data("f32", sh)], **at)]


@op("math", "Softmax", 2)
def o_softmax(g):
    o = g.s.pick(["Softmax", "LogSoftmax", "Hardmax"])
    sh = shape_of(g.s, 1, 4)
    x = g.data(fl(g) if o == "Softmax" else "f32", sh)
    if o == "Hardmax":
        pass
    at = {"axis": axis(g, len(sh))} if g.s.chance(80) else {}
    g.s.label(o)
    return [g.node(o, [x], **at)]


@op("math", "LpNorm")
def o_lpnorm(g):
    sh = shape_of(g.s, 1, 3)
    x = g.data("f32", sh, lo=0.5, hi=4, reuse=False)
    at = {"axis": axis(g, len(sh)), "p": g.s.pick([1, 2])}
    return [g.node("LpNormalization", [x], **at)]


@op("math", "MVN")
def o_mvn(g):
    sh = [g.s.range(1, 3), g.s.range(1, 3), g.s.range(1, 4), g.s.range(2, 4)]
    at = {"axes": g.s.pick([[0, 2, 3], [2, 3], [1, 2, 3]])} if g.s.chance(
        70) else {}
    x = g.data("f32", sh, style="real", reuse=False)
    g.loose = max(g.loose, 50)
    return [g.node("MeanVarianceNormalization", [x], **at)]


@op("math", "Quantize", 2)
def o_quantize(g):
    o = g.s.pick(["QuantizeLinear", "DequantizeLinear",
                  "DynamicQuantizeLinear"])
    sh = shape_of(g.s, 1 if o[1] == "y" else 0, 3)
    if o == "DynamicQuantizeLinear":
        x = g.data("f32", sh, style="real")
        if not x.a.any():
            return None         # the scale of zeros is not specified
        return g.node(o, [x], nout=3)
    sc = g.leaf(np.array(g.s.pick([0.25, 0.5, 1.0, 2.0]), np.float32))
    if o == "QuantizeLinear":
        x = g.data("f32", sh, lo=-40, hi=90, style="quarter", reuse=False)
        z = g.leaf(np.array(g.s.range(0, 60), np.uint8))
        return [g.node(o, [x, sc, z] if g.s.chance(80) else [x, sc])]
    t = ty(g, ["u8", "i8"])
    x = g.data(t, sh, style="wide")
    z = g.leaf(np.array(g.s.range(0, 60), DT[t]))
    return [g.node(o, [x, sc, z] if g.s.chance(80) else [x, sc])]


@op("math", "QLinearMatMul")
def o_qlinearmatmul(g):
    m, k, n = (g.s.range(1, 5) for _ in range(3))
    t = ty(g, ["u8", "i8"])
    f = lambda v: g.leaf(np.array(v, np.float32))
    z = lambda: g.leaf(np.array(g.s.range(0, 20), DT[t]))
    # The scales make for no ties in rounding.  The reference implementation
    # does not saturate either.
    r = g.node("QLinearMatMul", [
        g.data(t, [m, k], lo=0, hi=40), f(0.25), z(),
        g.data(t, [k, n], lo=0, hi=40), f(0.5), z(),
        f(g.s.pick([75, 99, 201]) / 8), z()])
    if r.a.min() < np.iinfo(r.a.dtype).min + 1 or np.any(
            r.a == np.iinfo(r.a.dtype).max):
        raise Discard()
    return [r]


@op("math", "Einsum")
def o_einsum(g):
    eq, nin = g.s.pick([("ij,jk->ik", 2), ("bij,bjk->bik", 2), ("ij->ji", 1),
                        ("ij->i", 1), ("ii->i", 1), ("ij,ij->", 2),
                        ("i,j->ij", 2), ("...ij,...jk->...ik", 2),
                        ("bhwij,bhwjk->bhwik", 2), ("ij,ij->ij", 2),
                        ("ij,j", 2), ("abc,cd->abd", 2), ("ij", 1)])
    dims = {c: g.s.range(1, 4) for c in "abcdhwijk"}
    ell = shape_of(g.s, 0, 1, total=3)
    t = ty(g, ["f32", "f64"])
    ins = []
    for tm in eq.split("->")[0].split(","):
        sh = []
        if tm.startswith("..."):
            sh += ell
            tm = tm[3:]
        # Unknown dimensions are not supported.
        ins.append(g.data(t, sh + [dims[c] for c in tm], dyn=False,
                          reuse=False))
    return [g.node("Einsum", ins, equation=eq)]


# --- recurrent, sequences, control flow (via subgraphs) ------------------------

@op("seq", "LSTM", 2)
def o_lstm(g):
    return rnn(g, "LSTM", 4, 3)


@op("seq", "GRU", 2)
def o_gru(g):
    return rnn(g, "GRU", 3, 2)


@op("seq", "RNN", 2)
def o_rnn(g):
    return rnn(g, "RNN", 1, 2)


RNN_ACT = {None: ["Tanh", "Sigmoid", "Relu", "Softsign", "Softplus", "Elu",
                  "LeakyRelu", "HardSigmoid"],
           "alpha": ["LeakyRelu", "ThresholdedRelu", "Elu"],
           "both": ["HardSigmoid"]}


def rnn(g, o, gates, nout):
    T, B, I, H = (g.s.range(1, 3), g.s.range(1, 3), g.s.range(1, 3),
                  g.s.range(1, 3))
    d = g.s.pick(["forward", "reverse", "bidirectional"])
    D = 2 if d == "bidirectional" else 1
    at = {"hidden_size": H}
    if d != "forward" or g.s.chance(40):
        at["direction"] = d
    lay = lambda *x: [B, *x] if "layout" in at else [*x[:1], B, *x[1:]]
    if g.opset >= 14 and g.s.chance(25):
        at["layout"] = 1
    ins = [g.data("f32", lay(T, I), lo=-1, hi=1),
           g.data("f32", [D, gates * H, I], const=True, lo=-1, hi=1),
           g.data("f32", [D, gates * H, H], const=True, lo=-1, hi=1)]
    if g.s.chance(60):
        ins.append(g.data("f32", [D, 2 * gates * H], const=True, lo=-1,
                          hi=1))
    else:
        ins.append(None)
    ins.append(None)
    if g.s.chance(50):
        ins.append(g.data("f32", lay(D, H), lo=-1, hi=1))
        if o == "LSTM":
            ins.append(g.data("f32", lay(D, H), lo=-1, hi=1))
            if g.s.chance(40):
                ins.append(g.data("f32", [D, 3 * H], const=True,
                                  lo=-1, hi=1))
    if o == "GRU" and g.s.chance(15):
        # Not supported by the other ones.
        if not known("rnn-sequence-lens") or \
                B > 1 and d == "forward" and len(ins) < 6 and \
                not at.get("layout"):
            ins[4] = g.data("i32", [B], lo=1, hi=T, reuse=False)
    if g.s.chance(10) and not known("rnn-clip"):
        at["clip"] = 0.5
        if o == "LSTM" and g.s.chance(50):
            at["input_forget"] = 1
    while ins[-1] is None:
        ins.pop()
    if g.s.chance(35):
        # With activation functions; their parameters all or none.
        k = D * {"RNN": 1, "GRU": 2, "LSTM": 3}[o]
        par = g.s.pick([None, "alpha", "both"])
        pool = RNN_ACT[par]
        at["activations"] = [g.s.pick(pool) for _ in range(k)]
        if par:
            at["activation_alpha"] = [g.s.range(1, 7) / 8 for _ in range(k)]
        if par == "both":
            at["activation_beta"] = [g.s.range(1, 7) / 8 for _ in range(k)]
    if o == "GRU" and g.s.chance(50):
        at["linear_before_reset"] = 1
    g.loose = max(g.loose, 5)
    n = g.s.range(1, nout)
    r = g.node(o, ins, nout=n, **at)
    r = [r] if n == 1 else r
    if any(np.abs(v.a).max() > 50 for v in r):
        raise Discard()     # exp overflows in float
    return r


# Not continuous: their operands must be free of rounding errors.
DISCONT = {"Mod", "Compare", "Cast", "IsNaNInf", "TopK", "ArgMinMax",
           "NonZero", "Unique", "Quantize", "Softmax", "UnaryAttr", "OneHot",
           "LpNorm"}
