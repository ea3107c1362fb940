"""Small graphs the compiler's rewriting rules look for, and near misses of
them: the same shapes of graph with another constant, axis, operand order,
data type, broadcast, or with an intermediate value used once more."""
import numpy as np

from pypbt import known
from cc_lib import DT, Discard, shape_of
from cc_ops import (bcast, fl, num, ty, i64, ci64, axis, OPS, UN)

IDIOMS = {}


def idiom(name, weight=1):
    def deco(f):
        IDIOMS[name] = ("idiom", f, weight)
        return f
    return deco


def f32(g, xs, const=None, t="f32", **kw):
    return g.leaf(np.array(xs, DT[t]), const, **kw)


def comm(g, o, a, b, **kw):
    """A commutative operator, operands in either order."""
    return g.node(o, [a, b] if g.s.chance(60) else [b, a], **kw)


def dim(g, least=1, most=5):
    return g.s.pick([2, 3, 1, 4, 5, 8, 16][:most + 2]) or least


def bshape(g, sh):
    """A shape that broadcasts to sh (mostly), sometimes beyond it."""
    s = g.s
    r = [1 if s.chance(25) else d for d in sh]
    while r and s.chance(25):
        r = r[1:]
    if s.chance(6):
        r = [1, 2][:1 + s.draw(2)] + [1] * max(0, len(sh) - len(r)) + r
    return r


# --- products ----------------------------------------------------------------

@idiom("MatMulAdd", 2)
def i_matmul_add(g):
    s = g.s
    m, k, n = dim(g), dim(g), dim(g)
    t = fl(g)
    lead = [dim(g, most=1)] * s.weighted([4, 1, 1])
    a = g.data(t, lead + [m, k])
    b = g.data(t, ([] if s.chance(60) else lead) + [k, n])
    if s.chance(20):
        a = g.node("Transpose", [g.data(t, [k, m])], perm=[1, 0])
        b = g.data(t, [k, n])
        lead = []
    p = g.node("MatMul", [a, b])
    if s.chance(25):
        p = comm(g, s.pick(["Mul", "Div"]), p, f32(g, s.pick(
            [2, 0.5, [2], [4]]), t=t)) if s.chance(70) else p
    q = comm(g, s.pick(["Add", "Add", "Sub"]), p, g.data(
        t, bshape(g, list(p.shape))))
    if s.chance(30):
        q = g.node(s.pick(["Relu", "Neg"]), [q])
    return [q]


@idiom("GemmAdd")
def i_gemm_add(g):
    s = g.s
    m, k, n = dim(g), dim(g), dim(g)
    t = fl(g)
    ta, tb = s.draw(2), s.draw(2)
    ins = [g.data(t, [k, m] if ta else [m, k]),
           g.data(t, [n, k] if tb else [k, n])]
    if s.chance(30):
        ins.append(g.data(t, bshape(g, [m, n])[-2:]))
    at = dict(transA=ta, transB=tb)
    if s.chance(40):
        at["alpha"] = s.pick([0.5, 2.0, 0.0])
    if s.chance(40):
        at["beta"] = s.pick([0.5, 2.0, 0.0])
    p = g.node("Gemm", ins, **at)
    return [comm(g, "Add", p, g.data(t, bshape(g, [m, n])))]


@idiom("ScalarMatMul")
def i_scalar_matmul(g):
    s = g.s
    m, k, n = dim(g), dim(g), dim(g)
    t = fl(g)
    sc = f32(g, s.pick([2, 0.5, [4], [[2]], 0]), t=t)
    o = s.pick(["Mul", "Div"])
    if o == "Div" and not sc.a.all():
        o = "Mul"
    a, b = g.data(t, [m, k]), g.data(t, [k, n])
    for _ in range(s.range(1, 2)):
        if s.chance(50):
            a = g.node(o, [a, sc]) if o == "Div" else comm(g, o, a, sc)
        else:
            b = g.node(o, [b, sc]) if o == "Div" else comm(g, o, b, sc)
    return [g.node("MatMul", [a, b])]


@idiom("Attention", 2)
def i_attention(g):
    """(x1*a1 + b1) * shape-transformed (x2*a2 + b2), scaled."""
    s = g.s
    t = fl(g) if s.chance(85) else s.pick(["i32", "i64"])
    fp = t[0] == "f"
    kk = g.leaf(np.full([1] if s.chance(30) else [], s.pick(
        [2, 0.5, 4] if fp else [2, 3]), DT[t]), const=s.chance(85))
    B, S, H, D = s.pick([1, 2]), s.pick([2, 3]), s.pick([1, 2]), s.pick([2, 3])

    def proj(perm):
        x = g.data(t, [B * S, 4])
        if s.chance(20):
            x = g.node("Mul", [x, kk])
        if fp and s.chance(30):
            y = g.node("Gemm", [x, g.data(t, [4, H * D]),
                                g.data(t, [H * D])])
        elif s.chance(70):
            y = comm(g, "Add", g.node("MatMul", [x, g.data(t, [4, H * D])]),
                     g.data(t, [H * D]))
        else:
            y = g.node("MatMul", [x, g.data(t, [4, H * D])])
        y = g.node("Reshape", [y, i64(g, [B, S, H, D], const=True)])
        return g.node("Transpose", [y], perm=perm)
    q = proj([0, 2, 1, 3])
    k = proj([0, 2, 3, 1])
    p = g.node("MatMul", [q, k])
    o = s.pick(["Div", "Mul"])
    p = g.node(o, [p, kk]) if o == "Div" or s.chance(70) else \
        g.node(o, [kk, p])
    if fp and s.chance(40):
        p = g.node("Softmax", [p], axis=-1)
        g.loose = max(g.loose, 100)
    return [p]


@idiom("ReshapeMatMul")
def i_reshape_matmul(g):
    s = g.s
    t = fl(g)
    b, m, k, n = dim(g, most=3), dim(g), dim(g), dim(g)
    x = g.data(t, [b, m, k])
    r = g.node("Reshape", [x, i64(g, s.pick([[b * m, k], [-1, k]]),
                                  const=True)])
    p = g.node("MatMul", [r, g.data(t, [k, n])])
    y = g.node("Reshape", [p, i64(g, s.pick(
        [[b, m, n], [m, b, n], [b, -1, n], [b * m * n], [b, m * n],
         [1, b, m, n]]), const=True)])
    return [y]


@idiom("QuantMatMul")
def i_quant_matmul(g):
    s = g.s
    t = s.pick(["u8", "i8"])
    m, k, n = dim(g), dim(g), dim(g)

    def deq(sh):
        x = g.data(t, sh, style="wide", lo=0, hi=7)
        z = g.leaf(np.array(s.range(0, 5), DT[t]))
        return g.node("DequantizeLinear", [x, f32(g, s.pick([0.25, 0.5])), z])
    p = g.node("MatMul", [deq([m, k]), deq([k, n])])
    if s.chance(15):
        p = g.node("Neg", [p])
    z = g.leaf(np.array(s.range(0, 30), DT[t]))
    sc = f32(g, s.pick([1.0, 2.0, 0.5, 4.0, 0.25]))
    lo, hi = (0, 255) if t == "u8" else (-128, 127)
    y = np.rint(p.a / sc.a) + z.a.astype(int)
    # Saturation is not what QLinearMatMul implements.
    if p.a.size and (y.min() < lo or y.max() > hi) and \
            known("qlinear-saturation"):
        raise Discard()
    return [g.node("QuantizeLinear", [p, sc, z])]


# --- convolutions ------------------------------------------------------------

def conv(g, x, m, k=None, const=None, **at):
    s = g.s
    c = x.shape[1]
    grp = at.get("group", 1)
    n = x.rank - 2
    ks = [k or s.pick([1, 2, 3])] * n
    ks = [min(a, b) for a, b in zip(ks, x.shape[2:])]
    w = g.data("f32", [m, c // grp] + ks, const=const)
    ins = [x, w]
    if s.chance(50):
        ins.append(g.data("f32", [m], const=const))
    if s.chance(40):
        at["pads"] = [s.range(0, 1) for _ in range(2 * n)]
    if s.chance(30):
        at["strides"] = [s.range(1, 2) for _ in range(n)]
    return g.node("Conv", ins, **at)


@idiom("ConvScale", 3)
def i_conv_scale(g):
    """Conv followed by Add, Mul, BatchNormalization."""
    s = g.s
    n = s.pick([2, 1, 2, 3])
    grp = s.weighted([4, 1]) + 1
    x = g.data("f32", [s.pick([1, 2]), 2 * grp] + [
        s.range(2, 5) for _ in range(n)])
    m = grp * s.pick([1, 2, 3])
    y = conv(g, x, m, const=True if s.chance(85) else None, group=grp)
    for _ in range(s.range(1, 3)):
        o = s.pick(["Add", "Mul", "BatchNormalization", "Relu"])
        if o == "Relu":
            if s.chance(60):
                continue
            y = g.node(o, [y])
        elif o == "BatchNormalization":
            y = bn(g, y, const=s.chance(85))
        else:
            sh = s.pick([[m] + [1] * n, [1, m] + [1] * n, [], [1],
                         [1] * (n + 1), list(y.shape), [y.shape[-1]],
                         [1] * (n + 2)])
            y = comm(g, o, y, g.data("f32", sh, const=s.chance(85)))
    g.loose = max(g.loose, 20)
    return [y]


def bn(g, y, const=None):
    s = g.s
    c = y.shape[1]
    v = g.data("f32", [c], const=const, lo=0.5, hi=4)
    at = {}
    if s.chance(50):
        at["epsilon"] = s.pick([1e-2, 0.0, 0.5])
    return g.node("BatchNormalization", [
        y, g.data("f32", [c], const=const), g.data("f32", [c], const=const),
        g.data("f32", [c], const=const), v], **at)


@idiom("BatchNorm")
def i_batchnorm(g):
    s = g.s
    y = bn(g, g.data("f32", shape_of(s, 2, 5)), const=s.chance(60))
    if s.chance(50):
        y = g.node("Relu", [y])
    if y.rank == 4 and s.chance(50):
        y = conv(g, y, 2, const=True)
        y = bn(g, y, const=True)
    g.loose = max(g.loose, 20)
    return [y]


@idiom("ParallelConv", 2)
def i_parallel_conv(g):
    s = g.s
    x = g.data("f32", [s.pick([1, 2]), s.pick([1, 2, 4]), s.range(2, 5),
                       s.range(2, 5)])
    k = s.pick([1, 2, 3])
    at = {}
    if s.chance(40):
        p = s.range(0, 1)
        at["pads"] = [p] * 4
    if s.chance(30):
        at["strides"] = [s.range(1, 2)] * 2
    bias = s.chance(60)
    ys = []
    for _ in range(s.range(2, 4)):
        a = dict(at)
        kk = k
        if s.chance(8):
            kk = 1
        if s.chance(8):
            a["pads"] = [0, 0, 1, 1]
        if s.chance(8):
            a["dilations"] = [1, 1]
        m = s.pick([1, 2, 3])
        ins = [x, g.data("f32", [m, x.shape[1], min(kk, x.shape[2]),
                                 min(kk, x.shape[3])], const=s.chance(92))]
        if bias != s.chance(8):
            ins.append(g.data("f32", [m], const=s.chance(92)))
        ys.append(g.node("Conv", ins, **a))
    how = s.weighted([3, 2, 1, 1])
    if how == 0:
        ok = [y for y in ys if y.shape[2:] == ys[0].shape[2:]]
        ys = [g.node("Concat", ok, axis=s.pick([1, 1, -3]))] + [
            y for y in ys if y not in ok]
    elif how == 1:
        ys = [g.node("Relu", [y]) for y in ys]
    elif how == 2:
        ok = [y for y in ys if y.shape == ys[0].shape]
        ys = [g.node("Concat", ok, axis=s.range(0, 3))] + [
            y for y in ys if y not in ok]
    return ys


@idiom("ReluMaxPool")
def i_relu_maxpool(g):
    s = g.s
    x = g.data("f32", [1, s.pick([1, 2]), s.range(2, 6), s.range(2, 6)],
               lo=-4, hi=s.pick([4, -1]))
    r = g.node(s.pick(["Relu", "Relu", "Abs"]), [x])
    at = dict(kernel_shape=[2, s.range(1, 2)])
    if s.chance(50):
        at["pads"] = [s.range(0, 1), 0, s.range(0, 1), 0]
    if s.chance(30):
        at["strides"] = [2, 1]
    if s.chance(20) and g.opset >= 10:
        # A last window beyond the data: opsets disagree about it.
        pd, st = at.get("pads", [0] * 4), at.get("strides", [1, 1])
        n = [x.shape[2 + i] + pd[i] + pd[2 + i] - at["kernel_shape"][i]
             for i in range(2)]
        at["ceil_mode"] = int(all(-(-n[i] // st[i]) * st[i] <
                                  x.shape[2 + i] + pd[i] for i in range(2)))
    return [g.node("MaxPool", [r], **at)]


# --- normalization and activation --------------------------------------------

def reduce_mean(g, x, axes, keep=1):
    if g.opset >= 18:
        return g.node("ReduceMean", [x, i64(g, axes, const=True)],
                      keepdims=keep)
    return g.node("ReduceMean", [x], axes=axes, keepdims=keep)


@idiom("LayerNorm", 4)
def i_layernorm(g):
    s = g.s
    sh = shape_of(s, 2, 4)
    r = len(sh)
    t = "f32"
    x = g.data(t, sh, lo=-3, hi=3, style="quarter")
    ax = s.range(0, r - 1) if s.chance(30) else r - 1
    axes = list(range(ax, r))
    if s.chance(6):
        axes = sorted(s.perm(r)[:s.range(1, r)])
    if s.chance(40):
        axes = [a - r for a in axes]
    rms = s.chance(35)
    if rms:
        d = x
    else:
        a2 = axes if s.chance(94) else [s.range(0, r - 1)]
        y = x if s.chance(96) else g.data(t, sh)
        d = g.node("Sub", [x, reduce_mean(g, y, a2)])
    dd = g.node("Mul", [d, d]) if s.chance(80) else g.node(
        "Pow", [d, f32(g, 2, const=True)])
    if s.chance(4):
        dd = g.node("Mul", [d, x])
        dd = g.node("Abs", [dd])
    v = reduce_mean(g, dd, axes)
    eps = f32(g, s.pick([0.0625, [0.5], 1.0, 1e-2, [[0.25]]]),
              const=s.chance(92))
    if s.chance(4):
        eps = f32(g, [0.5] * sh[-1], const=True)
    sd = g.node("Sqrt", [comm(g, "Add", v, eps)])
    how = s.draw(3)
    if how == 0:
        n = g.node("Div", [d, sd])
    elif how == 1:
        n = comm(g, "Mul", d, g.node("Reciprocal", [sd]))
    else:
        one = f32(g, s.pick([1, 1, [1], 2]), const=True)
        n = comm(g, "Mul", d, g.node("Div", [one, sd]))
    ssh = sh[ax:] if s.chance(70) else bshape(g, sh)
    sc = g.data(t, ssh, const=True if s.chance(60) else None)
    y = comm(g, "Mul", n, sc)
    if s.chance(60):
        y = comm(g, "Add", y, g.data(
            t, sh[ax:] if s.chance(70) else bshape(g, sh),
            const=True if s.chance(60) else None))
    g.loose = max(g.loose, 50)
    return [y]


@idiom("LayerNormBias", 2)
def i_layernorm_bias(g):
    s = g.s
    if g.opset < 17:
        raise Discard()
    sh = shape_of(s, 1, 4)
    ax = axis(g, len(sh))
    x = g.data("f32", sh, lo=-3, hi=3, style="quarter")
    n = sh[ax:] if ax >= 0 else sh[len(sh) + ax:]
    ins = [x, g.data("f32", n)]
    if s.chance(30):
        ins.append(g.data("f32", n))
    y = g.node("LayerNormalization", ins, axis=ax, epsilon=0.25)
    y = comm(g, s.pick(["Add", "Add", "Add", "Mul"]), y, g.data(
        "f32", s.pick([n, sh, bshape(g, sh), [1]])))
    g.loose = max(g.loose, 50)
    return [y]


@idiom("Gelu", 3)
def i_gelu(g):
    s = g.s
    x = g.data("f32", shape_of(s, 0, 3), lo=-4, hi=4)

    def c(v, off=6):
        if s.chance(off):
            v = s.pick([1.0, 2.0, 0.25])
        return f32(g, v if s.chance(70) else [v], const=s.chance(97))
    if s.chance(55):
        e = g.node("Div", [x, c(1.41421354)]) if s.chance(90) else \
            g.node("Mul", [x, c(0.70710678)])
        e = g.node("Erf", [e])
    else:
        p = g.node("Pow", [x, c(3.0)])
        q = comm(g, "Mul", p, c(0.044715))
        e = comm(g, "Add", q, x if s.chance(95) else g.node("Neg", [x]))
        e = g.node("Tanh", [comm(g, "Mul", e, c(0.797884583))])
    e = comm(g, "Add", e, c(1.0))
    if s.chance(50):
        y = comm(g, "Mul", comm(g, "Mul", x, c(0.5)), e)
    elif s.chance(50):
        y = comm(g, "Mul", comm(g, "Mul", x, e), c(0.5))
    else:
        y = comm(g, "Mul", comm(g, "Mul", e, c(0.5)), x)
    g.loose = max(g.loose, 50)
    return [y]


# --- transposes and reshapes -------------------------------------------------

def tr(g, x, perm=None):
    p = perm or g.s.perm(x.rank)
    if g.s.chance(10):
        p = list(range(x.rank))
    return g.node("Transpose", [x], perm=p) if g.s.chance(90) else \
        g.node("Transpose", [x])


@idiom("Transposes", 3)
def i_transposes(g):
    s = g.s
    t = s.pick(["f32", "f32", "f64", "i64", "bool"])
    x = g.data(t, shape_of(s, 1, 4), lo=0.25, hi=1)
    y = x
    for _ in range(s.range(2, 4)):
        if s.chance(60):
            y = tr(g, y)
        elif y.t == "bool":
            y = g.node("Not", [y]) if s.chance(60) else g.node(
                "Cast", [y], to=s.pick([1, 7, 11, 9]))
        elif y.t in ("i64", "i32"):
            o = s.pick(["Neg", "Abs", "Cast"])
            y = g.node(o, [y], to=s.pick([1, 6, 7])) if o == "Cast" else \
                g.node(o, [y])
        elif s.chance(10):
            y = g.node("IsNaN", [y])
        else:
            o = s.pick(["Sigmoid", "Relu", "Neg", "Exp", "Atan", "Cos",
                        "Reciprocal", "Cast", "Sqrt", "Elu", "LeakyRelu",
                        "HardSigmoid", "Softsign", "Floor"])
            if o == "Sqrt":
                y = g.node("Abs", [y])
            elif o == "Reciprocal" and not y.a.all():
                o = "Neg"
            if y.t == "f64" and o not in ("Relu", "Neg", "Cast", "Sqrt"):
                o = "Neg"
            if o == "Cast":
                y = g.node(o, [y], to=s.pick([1, 11]))
            elif o == "Floor" and y.inexact:
                y = g.node("Neg", [y])
            elif o in ("Elu", "LeakyRelu", "HardSigmoid"):
                y = g.node(o, [y], alpha=s.pick([0.5, 0.25]))
            else:
                y = g.node(o, [y])
        if y.a.size and y.t in ("f32", "f64") and np.abs(y.a).max() > 1e3:
            raise Discard()
    if s.chance(30):
        y = g.node("Shape", [y])
    g.loose = max(g.loose, 20)
    return [y]


@idiom("TransposeConcat", 2)
def i_transpose_concat(g):
    s = g.s
    t = s.pick(["f32", "f32", "i64", "u8"])
    sh = shape_of(s, 1, 4)
    perm = s.perm(len(sh))
    ax = s.range(0, len(sh) - 1)
    ys = []
    for _ in range(s.range(1, 3)):
        d = list(sh)
        d[perm[ax]] = s.pick([1, 2, 3])
        p = perm if s.chance(90) else s.perm(len(sh))
        y = g.node("Transpose", [g.data(t, d)], perm=p)
        if ys and any(y.shape[k] != ys[0].shape[k]
                      for k in range(len(sh)) if k != ax):
            raise Discard()
        ys.append(y)
    y = g.node("Concat", ys, axis=ax - (len(sh) if s.chance(30) else 0))
    r = []
    if s.chance(40):
        r.append(g.node("Transpose", [y], perm=s.perm(len(sh))))
        if s.chance(70):
            r.append(shape_op(g, y))
    return r or [y]


def shape_op(g, x):
    """Shape, of some of the dimensions now and then."""
    s = g.s
    at = {}
    if g.opset >= 15 and x.rank and s.chance(30):
        a = s.range(0, x.rank - 1)
        b = s.range(a + 1, x.rank)
        if a:
            at["start"] = a if s.chance(70) else a - x.rank
        if b < x.rank or s.chance(20):
            at["end"] = b if b == x.rank or s.chance(70) else b - x.rank
    return g.node("Shape", [x], **at)


def factor(s, n):
    """A shape of n elements."""
    r = []
    while n > 1 and len(r) < 4:
        c = [d for d in range(2, n + 1) if n % d == 0]
        d = s.pick(c)
        r.append(d)
        n //= d
    if n > 1:
        r.append(n)
    while len(r) < 5 and s.chance(25):
        r.insert(s.range(0, len(r)), 1)
    return r


def rshape(g, x, target=None):
    """A Reshape to a random shape, with -1 and 0 in it."""
    s = g.s
    n = int(x.a.size)
    d = list(target if target is not None else factor(s, n))
    at = {}
    if n and d and s.chance(50):
        d[s.range(0, len(d) - 1)] = -1
    if n and s.chance(40):
        for k in range(min(len(d), x.rank)):
            if d[k] == x.shape[k] and s.chance(60):
                d[k] = 0
    if g.opset >= 14 and 0 not in d and s.chance(15):
        at["allowzero"] = s.draw(2)
    return g.node("Reshape", [x, ci64(g, d)], **at)


@idiom("Reshapes", 3)
def i_reshapes(g):
    s = g.s
    t = s.pick(["f32", "f32", "i64", "u8"])
    x = g.data(t, shape_of(s, 0, 4))
    y = x
    for _ in range(s.range(2, 4)):
        o = s.weighted([5, 2, 2, 2, 1])
        if o == 0:
            y = rshape(g, y, x.shape if s.chance(25) else None)
        elif o == 1:
            y = squeeze(g, y)
        elif o == 2:
            y = unsqueeze(g, y)
        elif o == 3:
            y = g.node("Flatten", [y], axis=s.range(0, y.rank))
        elif t != "u8":
            c = g.data(t, s.pick([[], [1], [1, 1], list(y.shape)]))
            y = comm(g, s.pick(["Add", "Mul"]), y, c)
    if s.chance(20):
        y = shape_op(g, y)
    return [y]


def sq_axes(g, ax):
    """Axes as operand from opset 13."""
    return i64(g, ax, const=True)


def squeeze(g, x, axes=None):
    s = g.s
    c = [k for k, d in enumerate(x.shape) if d == 1]
    if axes is None:
        axes = [k for k in c if s.chance(70)]
        if axes and s.chance(20):
            axes = axes[::-1]
        axes = [a - x.rank if s.chance(25) else a for a in axes]
    if not axes:
        return g.node("Identity", [x])
    return g.node("Squeeze", [x, sq_axes(g, axes)])


def unsqueeze(g, x, axes=None):
    s = g.s
    if axes is None:
        n = x.rank + s.range(1, 2)
        axes = s.perm(n)[:n - x.rank]
        axes = [a - n if s.chance(25) else a for a in axes]
    return g.node("Unsqueeze", [x, sq_axes(g, axes)])


@idiom("SqueezeUnsqueeze", 3)
def i_squeeze_unsqueeze(g):
    s = g.s
    t = s.pick(["f32", "f32", "i64", "i32"])
    sh = shape_of(s, 1, 4)
    sh[s.range(0, len(sh) - 1)] = 1
    x = g.data(t, sh, lo=-4, hi=4, style="quarter" if t == "f32" else None)

    def cast(y):
        return g.node("Cast", [y], to=s.pick([1, 11, 7, 6])) \
            if s.chance(40) else y
    if s.chance(50):
        c = [k for k, d in enumerate(sh) if d == 1]
        ax = [k for k in c if s.chance(70)] or c[:1]
        axn = [a - len(sh) if s.chance(30) else a for a in ax]
        y = cast(squeeze(g, x, axn))
        if s.chance(70):
            axm = [a - len(sh) if s.chance(30) else a for a in ax]
            if s.chance(20):
                axm = axm[::-1]
            y = unsqueeze(g, y, axm)
        else:
            y = unsqueeze(g, y)
    else:
        n = len(sh) + s.range(1, 2)
        ax = s.perm(n)[:n - len(sh)]
        y = cast(unsqueeze(g, x, [a - n if s.chance(30) else a for a in ax]))
        if s.chance(70):
            axm = list(ax)[::-1] if s.chance(30) else list(ax)
            y = squeeze(g, y, [a - n if s.chance(30) else a for a in axm])
        else:
            y = squeeze(g, y)
    return [y]


@idiom("Casts", 2)
def i_casts(g):
    s = g.s
    t = s.pick(["f32", "i64", "i32", "i8", "f64", "bool"])
    sh = shape_of(s, 1, 3)
    x = g.data(t, sh, lo=-3, hi=3, style="int" if t[0] in "fi" else None)
    to = s.pick([1, 7, 6, 3, 11, 9, 5])
    how = s.draw(4)
    if how == 0:
        y = g.node("Cast", [x], to=to)
        return [g.node("Cast", [y], to=s.pick([1, 7, 6, 3, 11, 9, 5]))]
    if how == 1:
        k = s.range(2, 3)
        ax = s.range(0, len(sh) - 1)
        xs = [x] + [g.data(t, sh, lo=-3, hi=3,
                           style="int" if t[0] in "fi" else None)
                    for _ in range(k - 1)]
        if s.chance(50):
            return [g.node("Cast", [g.node("Concat", xs, axis=ax)], to=to)]
        return [g.node("Concat", [g.node("Cast", [v], to=to) for v in xs],
                       axis=ax)]
    if how == 2:
        a = s.range(0, len(sh) - 1)
        st, en = s.range(-3, 2), s.range(-1, 4)
        y = g.node("Cast", [x], to=to) if s.chance(50) else x
        y = g.node("Slice", [y, ci64(g, [st]), ci64(g, [en]),
                             i64(g, [a], const=True),
                             ci64(g, [s.pick([1, 1, 2, -1])])])
        if not y.a.size:
            raise Discard()
        return [g.node("Cast", [y], to=s.pick([1, 7, 6, 3, 11, 9, 5]))]
    y = g.data(t, bshape(g, sh)[-3:], lo=-3, hi=3,
               style="int" if t[0] in "fi" else None)
    if t == "bool":
        to = s.pick([1, 7, 6])
    to2 = to if s.chance(70) else 1
    if to2 != to:
        to = 1
    if to in (9, 3, 5):
        to = to2 = s.pick([1, 7, 6])
    return [g.node(s.pick(["Less", "Less", "Greater"]), [
        g.node("Cast", [x], to=to), g.node("Cast", [y], to=to2)])]


# --- arithmetic with constants -----------------------------------------------

@idiom("ConstArith", 4)
def i_const_arith(g):
    """x op c op c, with constants in any place and of any broadcast."""
    s = g.s
    t = s.pick(["f32", "i32", "i64", "f64", "i8", "i16"])
    sh = shape_of(s, 0, 3)
    o = s.pick(["Add", "Mul", "Sub", "Add", "Mul", "Div", "Max", "Min"])
    if o in ("Max", "Min") and t in ("i8", "i16"):
        o = "Add"
    pool = [g.data(t, sh, style="int", lo=-3, hi=3)]
    for _ in range(s.range(2, 5)):
        a = s.pick(list(reversed(pool)))
        b = s.pick(pool) if s.chance(25) else leafc(g, t, bshape(g, sh)[-4:])
        p = o if s.chance(75) else s.pick(["Add", "Mul", "Sub"])
        x, y = (a, b) if s.chance(60) else (b, a)
        if p == "Div":
            y = leafc(g, t, bshape(g, sh)[-4:], zero=False)
        v = g.node(p, [x, y])
        if v.a.size > 500 or v.t in ("f32", "f64") and v.a.size and \
                np.abs(v.a).max() > 1e5:
            raise Discard()
        pool.append(v)
    return [pool[-1]]


def leafc(g, t, sh, zero=True):
    """A constant, often all zeros or all ones."""
    s = g.s
    k = s.weighted([5, 1, 1])
    if k == 1 and zero:
        return g.leaf(np.zeros(sh, DT[t]), True)
    if k == 2:
        return g.leaf(np.ones(sh, DT[t]), True)
    if zero:
        return g.data(t, sh, const=s.chance(80), style="int", lo=-3, hi=3,
                      reuse=False)
    return g.data(t, sh, const=s.chance(80), style="int", lo=1, hi=4,
                  reuse=False)


@idiom("Clips")
def i_clips(g):
    s = g.s
    t = s.pick(["f32", "f32", "i32", "i64", "f64"])
    y = g.data(t, shape_of(s, 0, 3), style="int", lo=-6, hi=6)
    for _ in range(s.range(2, 3)):
        ins = [y]
        k = s.draw(4)
        lo, hi = s.range(-4, 4), s.range(-4, 5)
        if hi < lo and s.chance(80):
            lo, hi = hi, lo
        if hi < lo:
            raise Discard()
        c = s.chance(85)
        mn = f32(g, lo, const=c, t=t) if k & 1 else None
        mx = f32(g, hi, const=c, t=t) if k & 2 else None
        ins = [y, mn, mx] if mx else [y, mn] if mn else [y]
        y = g.node("Clip", ins)
        if s.chance(15):
            y = g.node("Relu" if t[0] == "f" else "Neg", [y])
    return [y]


@idiom("ExpandScalar", 2)
def i_expand_scalar(g):
    s = g.s
    t = s.pick(["f32", "f32", "i64", "f64"])
    sh = shape_of(s, 1, 3)
    x = g.data(t, sh)
    how = s.draw(3)
    if how == 0 and t != "i32":
        import cc_lib
        e = g.node("ConstantOfShape", [
            g.node("Shape", [x]) if s.chance(50) else i64(g, sh, const=True)],
            value=cc_lib.nh.from_array(np.array([s.pick([2, 0, 1])], DT[t])))
    else:
        sc = f32(g, s.pick([2, [3], [[1]], 0]), const=s.chance(80), t=t)
        e = g.node("Expand", [sc, g.node("Shape", [x]) if s.chance(50)
                              else i64(g, sh, const=True)])
    how = s.draw(4)
    if how == 0:
        e = unsqueeze(g, e)
        return [e, g.node("Neg", [e])]
    if how == 1:
        a = s.range(0, e.rank - 1)
        y = g.node("Slice", [e, ci64(g, [s.range(0, 1)]),
                             ci64(g, [s.range(1, 4)]),
                             i64(g, [a], const=True)])
        if not y.a.size:
            raise Discard()
        return [y]
    y = comm(g, s.pick(["Add", "Mul", "Sub"]), x if s.chance(80) else g.data(
        t, bshape(g, sh)), e)
    if t in ("f32", "i64") and how == 2:
        y = g.node("Where", [g.node("Less", [x, e]), x, e])
    return [y]


@idiom("WhereEqual", 2)
def i_where_equal(g):
    """The Expand shape idiom: Where(Equal(shape, -1), ones, shape)."""
    s = g.s
    x = g.data("f32", shape_of(s, 1, 4))
    r = x.rank
    d = []
    for k in range(r):
        if s.chance(50):
            d.append(i64(g, [s.pick([-1, 1, x.shape[k]])], const=True))
        elif s.chance(70):
            d.append(g.node("Gather", [g.node("Shape", [x]), i64(
                g, [s.range(0, r - 1) - (r if s.chance(20) else 0)],
                const=True)]))
        else:
            d.append(i64(g, [s.range(-1, 3)]))
    c = g.node("Concat", d, axis=0)
    e = g.node("Equal", [c, i64(g, s.pick([[-1], [-1] * r]), const=True)])
    ones = g.node("ConstantOfShape", [i64(g, [r], const=True)], value=one()) \
        if s.chance(60) else i64(g, s.pick([[1] * r, [1], [2] * r]),
                                 const=s.chance(80))
    w = g.node("Where", [e, ones, c])
    y = [w]
    if all(v in (1, q) or q == 1 for v, q in zip(w.a, x.shape)) and \
            np.all(w.a > 0) and s.chance(70):
        y = [g.node("Expand", [x, w])]
        g.datadep = True
    return y


def one():
    from cc_lib import nh
    return nh.from_array(np.array([1], np.int64))


# --- shapes computed in the graph --------------------------------------------

@idiom("ShapeChain", 5)
def i_shape_chain(g):
    """Shape, Gather, Slice, Cast, Concat, arithmetic, then Reshape, Expand or
    ConstantOfShape with the result."""
    s = g.s
    x = g.data("f32", shape_of(s, 1, 4))
    if s.chance(50):
        x = tr(g, x) if s.chance(60) else rshape(g, x)
    r = x.rank
    if not r or not x.a.size:
        raise Discard()
    sp = shape_op(g, x)

    def piece():
        k = s.draw(5)
        n = sp.shape[0]
        if k == 0:
            return g.node("Gather", [sp, i64(g, [axis(g, n)], const=True)])
        if k == 1:
            y = g.node("Gather", [sp, f32(g, axis(g, n), t="i64",
                                          const=True)])
            return g.node("Unsqueeze", [y, sq_axes(g, [s.pick([0, -1])])])
        if k == 2:
            a = s.range(0, n - 1)
            b = s.range(a + 1, n)
            y = g.node("Slice", [sp, i64(g, [a if s.chance(70) else a - n],
                                         const=True),
                                 i64(g, [b if s.chance(80) else
                                         2**31 - 1], const=True)] + (
                [i64(g, [0], const=True)] if s.chance(70) else []))
            if not y.a.size:
                raise Discard()
            return y
        if k == 3:
            return g.node("Cast", [g.node("Cast", [sp], to=1)], to=7) \
                if s.chance(50) else sp
        return i64(g, [s.pick([1, 2, 3])], const=True)
    ps = [piece() for _ in range(s.range(1, 3))]
    y = g.node("Concat", ps, axis=0) if len(ps) > 1 or s.chance(50) else ps[0]
    use = s.draw(5)
    v = [int(k) for k in y.a]
    if use == 0 and np.prod(v) <= 500:
        return [g.node("ConstantOfShape", [y])]
    if use == 1 and np.prod(v) <= 500 and len(v) <= 5:
        return [g.node("Expand", [f32(g, 2), y])]
    if use == 2:
        # Make it a legal target for some other tensor.
        n = int(np.prod(v))
        if n > 500 or len(v) > 5:
            raise Discard()
        z = g.data("f32", factor(s, n))
        return [g.node("Reshape", [z, y])]
    if use == 3:
        p = g.node(s.pick(["Mul", "Add", "Sub"]), [
            y, i64(g, s.pick([[2], 1, [1]]), const=True)])
        return [p, g.node("ReduceProd", [y], keepdims=s.draw(2))]
    tgt = [x.shape[0], -1] if x.rank > 1 else [-1]
    q = g.node("Concat", [g.node("Gather", [
        g.node("Shape", [x]), i64(g, [0], const=True)]),
        i64(g, [-1], const=True)], axis=0)
    del tgt
    return [g.node("Reshape", [x, q]), y]


@idiom("ConcatSlice", 2)
def i_concat_slice(g):
    s = g.s
    t = s.pick(["f32", "i64", "bool", "u8"])
    sh = shape_of(s, 1, 3)
    ax = s.range(0, len(sh) - 1)
    xs = []
    for _ in range(s.range(1, 4)):
        d = list(sh)
        d[ax] = s.pick([1, 2, 3, 1])
        xs.append(g.data(t, d))
    a = ax - (len(sh) if s.chance(30) else 0)
    y = g.node("Concat", xs, axis=a)
    if s.chance(30):
        d = list(sh)
        d[ax] = s.pick([1, 2])
        y = g.node("Concat", [y, g.data(t, d)] if s.chance(50)
                   else [g.data(t, d), y], axis=ax)
    r = []
    for _ in range(s.range(1, 2)):
        if s.chance(70):
            cuts = np.cumsum([0] + [v.shape[ax] for v in xs])
            k = s.range(0, len(xs) - 1)
            st, en = int(cuts[k]), int(cuts[k + 1])
            if s.chance(20):
                en += s.range(-1, 1)
            if s.chance(15):
                st, en = st - y.shape[ax], en - y.shape[ax]
                if en == 0:
                    en = 2**31 - 1
        else:
            st, en = s.range(-3, 3), s.range(0, 6)
        b = ax if s.chance(85) else s.range(0, len(sh) - 1)
        z = g.node("Slice", [y, i64(g, [st], const=True),
                             i64(g, [en], const=True),
                             i64(g, [b - (len(sh) if s.chance(20) else 0)],
                                 const=True),
                             i64(g, [s.pick([1, 1, 1, 2])], const=True)])
        if not z.a.size:
            raise Discard()
        r.append(z)
    return r


@idiom("SplitEach", 2)
def i_split_each(g):
    s = g.s
    t = "f32"
    sh = shape_of(s, 1, 3)
    ax = s.range(0, len(sh) - 1)
    parts = [s.pick([1, 2, 3]) for _ in range(s.range(2, 3))]
    if s.chance(50):
        parts = parts[:1] * len(parts)
    sh[ax] = sum(parts)
    x = g.data(t, sh)
    o = s.pick(["Relu", "Neg", "Abs", "Cast", "Sigmoid"])
    at = dict(to=11) if o == "Cast" else {}
    if s.chance(40):
        x = g.node(o, [x], **at)
    ys = g.node("Split", [x, i64(g, parts, const=True)], nout=len(parts),
                axis=ax - (len(sh) if s.chance(30) else 0))
    if s.chance(70):
        o2 = o if s.chance(85) else "Neg"
        ys = [g.node(o2 if k else o, [y], **(at if o2 == o or not k else {}))
              for k, y in enumerate(ys)]
    if s.chance(40) and all(y.t == ys[0].t for y in ys):
        ys = [g.node("Concat", ys if s.chance(60) else ys[::-1], axis=ax)]
    return list(ys)


@idiom("Tiles")
def i_tiles(g):
    s = g.s
    x = g.data(s.pick(["f32", "i64"]), shape_of(s, 1, 4))
    rep = [1 if s.chance(70) else 2 for _ in range(x.rank)]
    y = g.node("Tile", [x, ci64(g, rep)])
    k = s.draw(4)
    if k == 0:
        y = g.node("Expand", [y, ci64(g, list(y.shape))])
    elif k == 1:
        y = g.node("Pad", [y, ci64(g, [0] * (2 * y.rank))])
    elif k == 2:
        y = g.node("Concat", [y], axis=axis(g, y.rank))
    return [g.node("Neg", [y])] if s.chance(40) else [y]


@idiom("DepthSpacePair")
def i_depth_space(g):
    s = g.s
    if known("space-to-depth-channels") or known("depth-space-dynamic"):
        raise Discard()
    b = s.pick([2, 1, 3])
    x = g.data("f32", [1, b * b * s.pick([1, 2]), b * 2, b], dyn=False)
    if s.chance(50):
        y = g.node("SpaceToDepth", [x], blocksize=b)
        y = g.node("DepthToSpace", [y], blocksize=b, mode=s.pick(
            ["DCR", "CRD"]))
    else:
        y = g.node("DepthToSpace", [x], blocksize=b, mode=s.pick(
            ["DCR", "CRD"]))
        y = g.node("SpaceToDepth", [y], blocksize=b)
    return [y]


@idiom("Loss")
def i_loss(g):
    s = g.s
    n, c = s.pick([1, 2, 3]), s.pick([2, 3, 5])
    d = [s.pick([1, 2]) for _ in range(s.draw(2))]
    # With sizes unknown at compile time it is refused.
    x = g.data("f32", [n, c] + d, dyn=False, reuse=False)
    y = g.leaf(np.array(np.random.RandomState(s.draw(1000)).randint(
        0, c, [n] + d), np.int64), dyn=False)
    ins = [x, y]
    at = dict(reduction=s.pick(["mean", "sum", "none"]))
    if s.chance(30):
        ins.append(g.data("f32", [c], lo=0.25, hi=2, dyn=False, reuse=False))
    nout = s.range(1, 2)
    g.loose = max(g.loose, 50)
    r = g.node("SoftmaxCrossEntropyLoss", ins, nout=nout, **at)
    return r if nout > 1 else [r]


@idiom("CastLike")
def i_castlike(g):
    s = g.s
    if g.opset < 15:
        raise Discard()
    sh = shape_of(s, 0, 3)
    x = g.data(s.pick(["f32", "i64", "i32", "bool"]), sh, style="int",
               lo=-3, hi=3)
    y = g.data(s.pick(["f32", "f64", "i64", "i32", "i8", "f16"]),
               shape_of(s, 0, 2), style="int", lo=-3, hi=3)
    return [g.node("CastLike", [x, y])]


@idiom("HardSwish")
def i_hardswish(g):
    s = g.s
    x = g.data("f32", shape_of(s, 0, 3))
    if s.chance(50):
        return [g.node("HardSwish", [x])] if g.opset >= 14 else None
    h = g.node("HardSigmoid", [x], alpha=s.pick([1 / 6, 0.25]), beta=0.5)
    return [comm(g, "Mul", x, h)]


@idiom("ReduceChain", 2)
def i_reduce_chain(g):
    """LogSumExp, L1, L2, SumSquare and softmax written out."""
    s = g.s
    x = g.data("f32", shape_of(s, 1, 3), lo=-3, hi=3)
    ax = [s.range(0, x.rank - 1)]
    keep = s.draw(2)

    def red(o, v, keep=keep):
        if g.opset >= 18 or o == "ReduceSum":
            return g.node(o, [v, i64(g, ax, const=True)], keepdims=keep)
        return g.node(o, [v], axes=ax, keepdims=keep)
    how = s.draw(4)
    g.loose = max(g.loose, 30)
    if how == 0:
        return [g.node("Log", [red("ReduceSum", g.node("Exp", [x]))])]
    if how == 1:
        m = red("ReduceMax", x, 1)
        e = g.node("Exp", [g.node("Sub", [x, m])])
        return [g.node("Div", [e, red("ReduceSum", e, 1)])]
    if how == 2:
        return [g.node("Sqrt", [red("ReduceSum", g.node("Mul", [x, x]))])]
    y = g.node("Softmax", [x], axis=ax[0])
    return [g.node("Log", [y])] if s.chance(50) else \
        [g.node("LogSoftmax", [x], axis=ax[0])]


@idiom("Same")
def i_same(g):
    """The same computation several times, and unused ones."""
    s = g.s
    x = g.data("f32", shape_of(s, 1, 3))
    y = g.data("f32", bshape(g, list(x.shape))[-3:])
    o = s.pick(["Add", "Mul", "Sub", "Max"])
    a = g.node(o, [x, y])
    b = g.node(o, [x, y] if s.chance(60) else [y, x])
    c = g.node("Relu", [x])
    d = g.node("Relu", [x])
    g.node("Neg", [c])
    return [a, b, g.node("Sub", [a, b]), g.node("Add", [c, d])]


@idiom("RuntimeShape", 4)
def i_runtime_shape(g):
    """Shapes put together from graph inputs, dims and constants, used by
    Reshape, Expand, Tile and ConstantOfShape, whose results meet others of
    the same or of a broadcastable shape."""
    s = g.s
    x = g.data("f32", shape_of(s, 1, 3))
    if not x.a.size or not x.rank:
        raise Discard()
    sp = g.node("Shape", [x])

    def val(n):
        """A vector of one element with the value n."""
        k = s.draw(5)
        if k == 0:
            return i64(g, [n], const=True)
        if k == 1 and n in x.shape:
            y = g.node("Gather", [sp, i64(g, [x.shape.index(n)],
                                          const=True)])
            return y
        if k == 2 and n > 0:
            return g.node("Add", [i64(g, [n - 2], const=s.chance(30)),
                                  i64(g, [2], const=True)])
        return i64(g, [n], const=False)

    def vec(v):
        if s.chance(20):
            return i64(g, v, const=False)
        return g.node("Concat", [val(n) for n in v], axis=0)
    how = s.draw(5)
    if how == 0:
        v = factor(s, int(x.a.size))
        if v and s.chance(40):
            v[s.range(0, len(v) - 1)] = -1
        y = g.node("Reshape", [x, vec(v or [1])])
    elif how == 1:
        v = [n if n != 1 or s.chance(50) else s.range(1, 3) for n in x.shape]
        if s.chance(40):
            v = [s.range(1, 3)] + v
        if s.chance(40):
            v = v[s.range(0, len(v) - 1):]
        if s.chance(30):
            v = [n if s.chance(50) else 1 for n in v]
        y = g.node("Expand", [x, vec(v)])
    elif how == 2:
        y = g.node("Tile", [x, vec([s.range(1, 2) for _ in x.shape])])
    elif how == 3:
        y = g.node("ConstantOfShape", [vec(factor(s, int(x.a.size)) or [1])])
    else:
        a = s.range(0, x.rank - 1)
        y = g.node("Slice", [x, val(0), val(s.range(1, 3)),
                             i64(g, [a], const=True)])
    if not y.a.size or y.a.size > 500:
        raise Discard()
    r = [y]
    if s.chance(70):
        z = g.data("f32", bshape(g, list(y.shape)))
        if s.chance(40):
            z = g.node("Add", [z, f32(g, 2, const=True)])
        r.append(comm(g, s.pick(["Add", "Mul", "Sub"]), y, z))
    if s.chance(30) and y.rank:
        d = list(y.shape)
        a = s.range(0, y.rank - 1)
        d[a] = s.range(1, 2)
        c = g.node("Concat", [y, g.data("f32", d)], axis=a)
        r.append(c)
        w = list(c.shape)
        if y.shape[a] == 1:
            r.append(comm(g, "Add", c, g.node("Add", [
                y, f32(g, 3, const=True)])))
        else:
            r.append(comm(g, "Sub", c, g.data("f32", w)))
    return r
